"""Static value-flow engine over the MIR facts dumped by sa/driver.

`Prog`      loads the facts and answers look-ups (functions, impls, types).
`Analysis`  analyses one entry function: workspace callees, closures and the
            combinator models are inlined, every assignment becomes an interned
            term, enum variants / booleans that are known on a path split the
            flow graph (so `helper()?` is threaded), merges become phi terms.
            Nothing is executed: the result is a flow graph whose nodes carry
            terms, on which rules ask dominance / guard / dependence questions.
"""
import glob, heapq, json, os, re, sys
from collections import defaultdict

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------- terms


class Term:
    __slots__ = ("op", "args", "id", "_str")

    def __repr__(self):
        return pp(self)


_TABLE = {}


def T(op, *args):
    key = (op,) + tuple(("T", a.id) if isinstance(a, Term) else (("B", a) if isinstance(a, bool) else a) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_TABLE)
        t._str = None
        _TABLE[key] = t
    return t


UNDEF = T("undef")
UNIT = T("agg", "tuple", "", ())


def const(v):
    return T("const", v)


def pp(t, depth=7):
    if not isinstance(t, Term):
        return repr(t) if not isinstance(t, tuple) else "(" + ",".join(pp(x, depth) for x in t) + ")"
    if depth <= 0:
        return "…"
    if t.op == "const":
        return str(t.args[0])
    if t.op == "arg":
        return f"${t.args[1] or t.args[0]}"
    if t.op == "field":
        return f"{pp(t.args[0], depth)}.{t.args[1]}"
    if t.op == "agg":
        k, v, _ = t.args[:3]
        return f"{(k or '').split('::')[-1]}{'::' + v if v else ''}(" + ", ".join(pp(x, depth - 1) for x in t.args[3:]) + ")"
    if t.op == "call":
        return f"{t.args[0]}(" + ", ".join(pp(x, depth - 1) for x in t.args[2:]) + ")"
    if t.op == "phi":
        return f"phi{t.args[0]}.{t.args[2]}" + "".join(f"_{i}" for i in t.args[3])
    if t.op == "bin":
        return f"({pp(t.args[1], depth-1)} {t.args[0]} {pp(t.args[2], depth-1)})"
    return f"{t.op}[" + ", ".join(pp(x, depth - 1) for x in t.args) + "]"


# --------------------------------------------------------------------- paths
_gen_cache = {}


def strip_generics(p):
    """`std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`,
    `core::slice::<impl [T]>::len` -> `core::slice::len`."""
    r = _gen_cache.get(p)
    if r is not None:
        return r
    s = p
    if s.startswith("<"):
        # <A as B>::name
        d = 0
        for i, c in enumerate(s):
            if c == "<":
                d += 1
            elif c == ">" and s[i - 1] != "-":
                d -= 1
                if d == 0:
                    inner, rest = s[1:i], s[i + 1:]
                    m = split_as(inner)
                    s = (m[1] if m else inner) + rest
                    break
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = re.sub(r"(::)+", "::", "".join(out)).strip(":")
    _gen_cache[p] = r
    return r


def split_as(inner):
    d = 0
    for i, c in enumerate(inner):
        if c in "<([":
            d += 1
        elif c in ">)]" and inner[i - 1] != "-":
            d -= 1
        elif d == 0 and inner.startswith(" as ", i):
            return inner[:i], inner[i + 4:]
    return None


def short(p):
    """last two path segments without generics"""
    parts = strip_generics(p).split("::")
    return "::".join(parts[-2:])


def head(ty):
    """type constructor of a type string, references removed"""
    t = ty.strip()
    while True:
        if t.startswith("&"):
            t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        elif t.startswith("mut "):
            t = t[4:]
        else:
            break
    if t.startswith("["):
        return "[]"
    if t.startswith("("):
        return "()"
    if t.startswith("<"):
        return t
    return t.split("<", 1)[0]


def last(p):
    return strip_generics(p).split("::")[-1]


# ---------------------------------------------------------------------- prog
def unbox(fn):
    """accesses through the raw pointer of a Box (vec![..] literals, *boxed) become accesses of the box's local"""
    ptr = {}
    for b in fn.blocks or ():
        for st in b["s"]:
            if st[0] == "=" and st[2][0] == "cast" and st[2][1] == "BoxDerefTransmute" and st[2][2][0] in "cm":
                pl = st[2][2][1]
                if not st[1][1]:
                    ptr[st[1][0]] = [pl[0], [x for x in pl[1]][:-1]]
    if not ptr:
        return

    def place(p):
        if len(p) == 2 and isinstance(p[0], int) and not isinstance(p[0], bool) and isinstance(p[1], list) and p[0] in ptr and p[1] and p[1][0][0] == "*":
            rest = p[1][1:]
            while rest and rest[0][0] == "f" and rest[0][2] == "value" and len(rest[0]) > 2:
                rest = rest[1:]
            b = ptr[p[0]]
            return [b[0], b[1] + rest]
        return None

    def walk(x):
        if not isinstance(x, list):
            return x
        r = place(x)
        return r if r is not None else [walk(y) for y in x]
    for b in fn.blocks:
        b["s"] = [walk(st) for st in b["s"] if not (st[0] == "=" and not st[1][1] and st[1][0] in ptr)]
        b["t"] = walk(b["t"])


class Fn:
    __slots__ = ("id", "path", "kind", "name", "file", "line", "endline", "exp", "pub", "reach", "parent", "caps", "self", "trait",
                 "traitref", "derived", "intrait", "generics", "argc", "locals", "blocks", "crate", "_live", "_scc", "_taken", "_df")

    def __init__(self, d, crate):
        for k in self.__slots__:
            if not k.startswith("_"):
                setattr(self, k, d.get(k))
        self.crate = crate
        unbox(self)
        self._live = self._scc = self._taken = self._df = None

    def __repr__(self):
        return f"<fn {self.id}>"

    @property
    def loc(self):
        return f"{self.file}:{self.line}"


class Prog:
    def __init__(self, facts_dir):
        self.fns = {}
        self.adts = {}
        self.adtc = {}
        self.impls = []
        self.aliases = {}
        self.crates = []
        self.impl_methods = defaultdict(list)   # (trait path, method) -> [Fn]
        for f in sorted(glob.glob(os.path.join(facts_dir, "jf_*.json"))):
            with open(f) as fh:
                d = json.load(fh)
            self.crates.append(d["crate"])
            for x in d["fns"]:
                fn = Fn(x, d["crate"])
                self.fns[fn.id] = fn
                if fn.trait and fn.name:
                    self.impl_methods[(fn.trait, fn.name)].append(fn)
            for a in d["adts"]:
                a["crate"] = d["crate"]
                self.adts[a["path"]] = a
                self.adtc[(d["crate"], a["path"])] = a
            for i in d["impls"]:
                i["crate"] = d["crate"]
                self.impls.append(i)
            for p, t in d["aliases"]:
                self.aliases[p] = t

    def find(self, crate, name, self_head=None, trait=None, pred=None):
        """functions of `crate` called `name`, optionally methods of a type / trait"""
        out = []
        for fn in self.fns.values():
            if fn.crate != crate or fn.name != name or fn.kind == "Closure" or "#p" in fn.id:
                continue
            if self_head is not None:
                sh = fn.self and head(fn.self).split("::")[-1]
                it = fn.intrait and fn.intrait.split("::")[-1]
                if sh != self_head and it != self_head:
                    continue
            if trait is not None:
                t = (fn.trait or fn.intrait or "").split("::")[-1]
                if t != trait:
                    continue
            elif trait == "":
                if fn.trait:
                    continue
            if pred and not pred(fn):
                continue
            out.append(fn)
        return out

    def one(self, crate, name, self_head=None, trait=None, pred=None):
        r = self.find(crate, name, self_head, trait, pred)
        if len(r) != 1:
            raise Anchor(f"anchor {crate}::{self_head or ''}::{name} (trait {trait}) resolves to {len(r)} functions, expected 1")
        return r[0]

    def resolve_method(self, trait, method, self_ty):
        h = head(self_ty)
        cands = [f for f in self.impl_methods.get((trait, method), []) if head(f.self) == h]
        if len(cands) == 1:
            return cands[0]
        if len(cands) > 1:
            ex = [f for f in cands if f.self == self_ty]
            if len(ex) == 1:
                return ex[0]
        return None


class Anchor(Exception):
    """a construct a rule is anchored on does not exist any more"""


# -------------------------------------------------------- per-function facts
def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def place_uses(p, out):
    out.add(p[0])
    for pr in p[1]:
        if pr[0] == "i":
            out.add(pr[1])


def op_uses(o, out):
    if o[0] in "cm":
        place_uses(o[1], out)


def rv_uses(r, out):
    k = r[0]
    if k in ("use",):
        op_uses(r[1], out)
    elif k == "repeat":
        op_uses(r[1], out)
    elif k == "ref":
        place_uses(r[2], out)
    elif k == "cast":
        op_uses(r[2], out)
    elif k == "bin":
        op_uses(r[2], out)
        op_uses(r[3], out)
    elif k == "un":
        op_uses(r[2], out)
    elif k == "disc":
        place_uses(r[1], out)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, out)
    elif k == "prim":
        for o in r[2:]:
            op_uses(o, out)


def liveness(fn):
    """live-in locals per block; locals whose address is taken mutably stay live"""
    if fn._live is not None:
        return fn._live
    n = len(fn.blocks)
    gen = [set() for _ in range(n)]
    kill = [set() for _ in range(n)]
    taken = set()
    for i, b in enumerate(fn.blocks):
        g, k = gen[i], kill[i]
        for s in b["s"]:
            if s[0] == "=":
                u = set()
                rv_uses(s[2], u)
                if s[1][1]:
                    place_uses(s[1], u)
                g |= u - k
                if not s[1][1]:
                    k.add(s[1][0])
                if s[2][0] == "ref" and s[2][1] == 1:
                    taken.add(s[2][2][0])
            else:
                u = set()
                place_uses(s[1], u)
                g |= u - k
        t = b["t"]
        u = set()
        if t[0] == "switch":
            op_uses(t[1], u)
        elif t[0] == "call":
            op_uses(t[1], u)
            for a in t[2]:
                op_uses(a, u)
            if t[3][1]:
                place_uses(t[3], u)
        elif t[0] == "assert":
            op_uses(t[1], u)
            if isinstance(t[4], list):
                for o in t[4]:
                    op_uses(o, u)
        elif t[0] == "ret":
            u.add(0)
        g |= u - k
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            t = fn.blocks[i]["t"]
            o = set()
            for s in succs(t):
                o |= live[s]
            if t[0] == "call" and not t[3][1]:
                o = o - {t[3][0]}
            li = gen[i] | (o - kill[i])
            if li != live[i]:
                live[i] = li
                changed = True
    fn._live = live
    fn._taken = taken
    return live


def sccs(fn):
    """block -> scc id when the block lies on a cycle"""
    if fn._scc is not None:
        return fn._scc
    n = len(fn.blocks)
    adj = [[s for s in succs(b["t"])] for b in fn.blocks]
    idx, low, st, on, res, cnt = {}, {}, [], set(), {}, [0]

    for root in range(n):
        if root in idx:
            continue
        work = [(root, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                idx[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                on.add(v)
            rec = False
            while i < len(adj[v]):
                w = adj[v][i]
                i += 1
                if w not in idx:
                    work.append((v, i))
                    work.append((w, 0))
                    rec = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if rec:
                continue
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in adj[v]:
                    for w in comp:
                        res[w] = v
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    fn._scc = res
    return res


# ------------------------------------------------------------------- models
# Small bodies for combinators that take closures or thread variants.  They are
# written in the same shape as dumped MIR and are inlined like any function.
def _fnobj(id_, argc, nlocals, blocks, names=()):
    d = {"id": id_, "path": id_, "kind": "Model", "name": id_.split("::")[-1], "file": "<model>", "line": 0, "argc": argc,
         "locals": [["?", None]] * nlocals, "blocks": [{"c": 0, "s": s, "t": t + [0] if t[0] not in ("goto",) else t + [0]} for s, t in blocks]}
    for i, n in names:
        d["locals"][i] = ["?", n]
    return Fn(d, "<model>")


def P(l, *proj):
    return [l, [list(p) for p in proj]]


def C(l, *proj):
    return ["c", P(l, *proj)]


def asn(l, rv):
    return ["=", P(l), rv, 0]


def use(o):
    return ["use", o]


def adt(path, variant, fields, ops):
    return ["agg", {"k": "adt", "adt": path, "variant": variant, "vi": 0, "enum": 1, "fields": fields}, ops]


OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"


def some(o):
    return adt(OPT, "Some", ["0"], [o])


def none():
    return adt(OPT, "None", [], [])


def ok(o):
    return adt(RES, "Ok", ["0"], [o])


def err(o):
    return adt(RES, "Err", ["0"], [o])


OPT_D = [["0", "None"], ["1", "Some"]]
RES_D = [["0", "Ok"], ["1", "Err"]]
KUNIT = ["k", {"ty": "()", "unit": 1}]


def KI(v, ty="bool"):
    return ["k", {"ty": ty, "int": v}]


def prim(name):
    return ["k", {"prim": name, "ty": "prim"}]


MODELS = {}


def model(*names):
    def deco(f):
        body = f()
        for n in names:
            MODELS[n] = body
        return f
    return deco


def m2(id_, argc, discs, arms, nlocals=8, extra=None):
    """switch on the variant of _1; arms: {variant: (stmts, terminator or list of blocks)}"""
    blocks = [([asn(argc + 1, ["disc", P(1), discs])], None)]
    targets = []
    for val, name in discs:
        if name not in arms:
            continue
        targets.append([val, len(blocks)])
        for blk in arms[name](len(blocks)):
            blocks.append(blk)
    sw = ["switch", C(argc + 1), targets[:-1], targets[-1][1]]
    blocks[0] = (blocks[0][0], sw)
    return _fnobj(id_, argc, nlocals, blocks)


def arm_ret(rv):
    return lambda n: [([asn(0, rv)], ["ret"])]


def arm_call(callee, args, wrap=None):
    """r = callee(args); _0 = wrap(r)"""
    def go(n):
        if wrap is None:
            return [([], ["call", callee, args, P(0), n + 1]), ([], ["ret"])]
        return [([], ["call", callee, args, P(7), n + 1]), ([asn(0, wrap(C(7)))], ["ret"])]
    return go


PAY = lambda v: C(1, ("d", 0, v), ("f", 0, "0"))


def build_models():
    M = MODELS
    for n, D, good, bad in (("Option", OPT_D, "Some", "None"), ("Result", RES_D, "Ok", "Err")):
        mkgood = some if n == "Option" else ok
        badval = (lambda: none()) if n == "Option" else (lambda: err(PAY("Err")))
        mk = lambda name, argc, arms: M.__setitem__(f"{n}::{name}", m2(f"model::{n}::{name}", argc, D, arms))
        mk("map", 2, {good: arm_call(C(2), [PAY(good)], mkgood), bad: arm_ret(badval())})
        mk("and_then", 2, {good: arm_call(C(2), [PAY(good)]), bad: arm_ret(badval())})
        mk("unwrap", 1, {good: arm_ret(use(PAY(good))), bad: lambda k: [([], ["call", prim("panic"), [], P(0), None])]})
        M[f"{n}::expect"] = M[f"{n}::unwrap"]
        mk("unwrap_or", 2, {good: arm_ret(use(PAY(good))), bad: arm_ret(use(C(2)))})
        mk("unwrap_or_else", 2, {good: arm_ret(use(PAY(good))), bad: arm_call(C(2), [] if n == "Option" else [PAY("Err")])})
        mk("unwrap_or_default", 1, {good: arm_ret(use(PAY(good))), bad: arm_call(prim("default"), [])})
        mk(f"is_{good.lower()}", 1, {good: arm_ret(use(KI(1))), bad: arm_ret(use(KI(0)))})
        mk(f"is_{bad.lower()}", 1, {good: arm_ret(use(KI(0))), bad: arm_ret(use(KI(1)))})
        mk(f"is_{good.lower()}_and", 2, {good: arm_call(C(2), [PAY(good)]), bad: arm_ret(use(KI(0)))})
        mk("map_or", 3, {good: arm_call(C(3), [PAY(good)]), bad: arm_ret(use(C(2)))})
        mk("map_or_else", 3, {good: arm_call(C(3), [PAY(good)]), bad: arm_call(C(2), [] if n == "Option" else [PAY("Err")])})
        mk("and", 2, {good: arm_ret(use(C(2))), bad: arm_ret(badval())})
    mk = lambda name, argc, D, arms: M.__setitem__(name, m2("model::" + name, argc, D, arms))
    mk("Option::is_none_or", 2, OPT_D, {"Some": arm_call(C(2), [PAY("Some")]), "None": arm_ret(use(KI(1)))})
    mk("Option::ok_or", 2, OPT_D, {"Some": arm_ret(ok(PAY("Some"))), "None": arm_ret(err(C(2)))})
    mk("Option::ok_or_else", 2, OPT_D, {"Some": arm_ret(ok(PAY("Some"))), "None": arm_call(C(2), [], err)})
    mk("Option::or_else", 2, OPT_D, {"Some": arm_ret(some(PAY("Some"))), "None": arm_call(C(2), [])})
    mk("Option::or", 2, OPT_D, {"Some": arm_ret(some(PAY("Some"))), "None": arm_ret(use(C(2)))})
    mk("Result::map_err", 2, RES_D, {"Ok": arm_ret(ok(PAY("Ok"))), "Err": arm_call(C(2), [PAY("Err")], err)})
    mk("Result::or_else", 2, RES_D, {"Ok": arm_ret(ok(PAY("Ok"))), "Err": arm_call(C(2), [PAY("Err")])})
    mk("Result::ok", 1, RES_D, {"Ok": arm_ret(some(PAY("Ok"))), "Err": arm_ret(none())})
    mk("Result::err", 1, RES_D, {"Ok": arm_ret(none()), "Err": arm_ret(some(PAY("Err")))})
    mk("Result::unwrap_err", 1, RES_D, {"Err": arm_ret(use(PAY("Err"))), "Ok": lambda k: [([], ["call", prim("panic"), [], P(0), None])]})
    M["Result::expect_err"] = M["Result::unwrap_err"]
    brk = lambda o: adt(CF, "Break", ["0"], [o])
    cont = lambda o: adt(CF, "Continue", ["0"], [o])
    M["Try::branch/R"] = m2("model::Try::branch/R", 1, RES_D, {
        "Ok": arm_ret(cont(PAY("Ok"))),
        "Err": lambda n: [([asn(5, err(PAY("Err"))), asn(0, brk(C(5)))], ["ret"])]})
    M["Try::branch/O"] = m2("model::Try::branch/O", 1, OPT_D, {
        "Some": arm_ret(cont(PAY("Some"))),
        "None": lambda n: [([asn(5, none()), asn(0, brk(C(5)))], ["ret"])]})
    M["FromResidual::from_residual/R"] = m2("model::from_residual/R", 1, RES_D, {
        "Err": lambda n: [([], ["call", prim("conv"), [PAY("Err")], P(5), n + 1]), ([asn(0, err(C(5)))], ["ret"])],
        "Ok": lambda n: [([], ["unreachable"])]})
    M["FromResidual::from_residual/O"] = m2("model::from_residual/O", 1, OPT_D, {"None": arm_ret(none()), "Some": lambda n: [([], ["unreachable"])]})
    M["FromResidual::from_residual/OR"] = _fnobj("model::from_residual/OR", 1, 4, [([asn(0, none())], ["ret"])])
    # bool::then / then_some
    M["bool::then"] = _fnobj("model::bool::then", 2, 8, [
        ([], ["switch", C(1), [["0", 1]], 2]),
        ([asn(0, none())], ["ret"]),
        ([], ["call", C(2), [], P(3), 3]), ([asn(0, some(C(3)))], ["ret"])])
    M["bool::then_some"] = _fnobj("model::bool::then_some", 2, 8, [
        ([], ["switch", C(1), [["0", 1]], 2]),
        ([asn(0, none())], ["ret"]), ([asn(0, some(C(2)))], ["ret"])])
    # iterator consumers / adapters with closures: `loop { nondet exit; x = elem(it); body }`
    nd = lambda a, b: ["switch", ["k", {"prim": "more", "ty": "prim"}], [["0", b]], a]

    def it_loop(name, argc, pre, body, post, retblock=None):
        """bb0 -> bb1 header(nondet) -> bb2 body... -> bb1 ; exit block last"""
        blocks = [(pre, ["goto", 1])]
        bl = body(2)
        ex = 2 + len(bl)
        blocks.append(([asn(6, ["prim", "hasmore", C(1)])], ["switch", C(6), [["0", ex]], 2]))
        blocks += bl
        blocks += post(ex)
        return _fnobj("model::" + name, argc, 12, blocks)

    elem = asn(4, ["prim", "elem", C(1)])

    def it_model(names, argc, pre, body, post):
        f = it_loop(names[0], argc, pre, body, post)
        for n in names:
            M[n] = f

    def std_rayon(*ns):
        return [f"{p}::{n}" for n in ns for p in ("Iterator", "ParallelIterator", "IndexedParallelIterator", "DoubleEndedIterator", "Itertools", "ExactSizeIterator")]

    it_model(std_rayon("map"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
             lambda x: [([asn(0, ["prim", "map", C(1), C(5)])], ["ret"])])
    it_model(std_rayon("flat_map", "flat_map_iter"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
             lambda x: [([asn(0, ["prim", "flatmap", C(1), C(5)])], ["ret"])])
    it_model(std_rayon("filter_map", "map_while"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
             lambda x: [([asn(0, ["prim", "filtermap", C(1), C(5)])], ["ret"])])
    for nme in ("filter", "take_while", "skip_while"):
        it_model(std_rayon(nme), 2, [],
                 lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
                 lambda x, op=nme.replace("_", ""): [([asn(0, ["prim", op, C(1), C(5)])], ["ret"])])
    it_model(std_rayon("inspect"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
             lambda x: [([asn(0, use(C(1)))], ["ret"])])
    it_model(std_rayon("for_each"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
             lambda x: [([asn(0, use(KUNIT))], ["ret"])])
    it_model(std_rayon("any"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]),
                        ([], ["switch", C(5), [["0", 1]], b + 2]),
                        ([asn(0, use(KI(1)))], ["ret"])],
             lambda x: [([asn(0, use(KI(0)))], ["ret"])])
    it_model(std_rayon("all"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]),
                        ([], ["switch", C(5), [["0", b + 2]], 1]),
                        ([asn(0, use(KI(0)))], ["ret"])],
             lambda x: [([asn(0, use(KI(1)))], ["ret"])])
    for nme, pre in (("fold", []), ("rfold", [asn(1, ["prim", "rev", C(1)])])):
        it_model(std_rayon(nme), 3, pre + [asn(7, use(C(2)))],
                 lambda b: [([elem], ["call", C(3), [C(7), C(4)], P(5), b + 1]), ([asn(7, use(C(5)))], ["goto", 1])],
                 lambda x: [([asn(0, use(C(7)))], ["ret"])])
    it_model(std_rayon("reduce"), 2, [asn(7, ["prim", "elem", C(1)])],
             lambda b: [([elem], ["call", C(2), [C(7), C(4)], P(5), b + 1]), ([asn(7, use(C(5)))], ["goto", 1])],
             lambda x: [([asn(0, some(C(7)))], ["ret"])])
    it_model(std_rayon("try_for_each"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]),
                        ([asn(8, ["disc", P(5), RES_D])], ["switch", C(8), [["0", 1]], b + 2]),
                        ([asn(0, use(C(5)))], ["ret"])],
             lambda x: [([asn(9, use(KUNIT)), asn(0, ok(C(9)))], ["ret"])])
    it_model(std_rayon("try_fold"), 3, [asn(7, use(C(2)))],
             lambda b: [([elem], ["call", C(3), [C(7), C(4)], P(5), b + 1]),
                        ([asn(8, ["disc", P(5), RES_D])], ["switch", C(8), [["0", b + 2]], b + 3]),
                        ([asn(7, use(C(5, ("d", 0, "Ok"), ("f", 0, "0"))))], ["goto", 1]),
                        ([asn(0, use(C(5)))], ["ret"])],
             lambda x: [([asn(0, ok(C(7)))], ["ret"])])
    it_model(std_rayon("position", "rposition", "position_any"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]),
                        ([], ["switch", C(5), [["0", 1]], b + 2]),
                        ([asn(9, ["prim", "idx", C(1)]), asn(0, some(C(9)))], ["ret"])],
             lambda x: [([asn(0, none())], ["ret"])])
    it_model(std_rayon("find", "find_any"), 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]),
                        ([], ["switch", C(5), [["0", 1]], b + 2]),
                        ([asn(0, some(C(4)))], ["ret"])],
             lambda x: [([asn(0, none())], ["ret"])])
    for nm in ("max_by_key", "min_by_key", "max_by", "min_by"):
        it_model(std_rayon(nm), 2, [],
                 lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
                 lambda x, nm=nm: [([asn(0, ["prim", nm, C(1), C(5)])], ["ret"])])
    it_model(["Vec::retain"], 2, [],
             lambda b: [([elem], ["call", C(2), [C(4)], P(5), b + 1]), ([], ["goto", 1])],
             lambda x: [([asn(0, use(KUNIT))], ["ret"])])
    M["rayon::join"] = M["join::join"] = M["rayon_core::join"] = _fnobj("model::rayon::join", 2, 6, [
        ([], ["call", C(1), [], P(3), 1]), ([asn(3, use(KUNIT))], ["call", C(2), [], P(3), 2]), ([asn(3, use(KUNIT)), asn(0, ["prim", "joined", C(1), C(2)])], ["ret"])])
    M["iter::from_fn"] = M["iter::repeat_with"] = _fnobj("model::iter::from_fn", 1, 6, [
        ([], ["call", C(1), [], P(2), 1]), ([asn(0, ["prim", "repeatw", C(2)])], ["ret"])])
    M["iter::successors"] = M["iter::from_fn"]


build_models()

# calls whose result is (for value-flow purposes) the value of the first argument
TRANSPARENT = {
    "Clone::clone", "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref", "Deref::deref", "slice::iter", "Vec::iter", "IntoIterator::into_iter",
    "Iterator::copied", "Iterator::cloned", "ParallelIterator::cloned", "ParallelIterator::copied", "slice::to_vec", "ToOwned::to_owned", "Vec::as_slice", "Vec::into_boxed_slice", "Box::new",
    "Arc::new", "Rc::new", "Iterator::by_ref", "IntoParallelIterator::into_par_iter", "IntoParallelRefIterator::par_iter",
    "Option::as_ref", "Option::as_deref", "Result::as_ref", "Option::cloned", "Option::copied", "hint::must_use", "String::as_str", "str::as_bytes",
    "String::as_bytes", "slice::into_vec", "Option::iter", "Cow::into_owned", "array::as_slice", "GenericArray::as_slice",
    "boxed::box_assume_init_into_vec_unsafe", "Zeroizing::new", "Iterator::fuse", "convert::identity", "array::iter", "array::each_ref",
    "slice::iter().copied", "Iterator::into_iter", "LinkedList::iter", "HashMap::iter", "BTreeMap::iter", "Into::into/id", "hint::black_box",
    "IndexedParallelIterator::with_min_len", "ParallelIterator::with_min_len", "array::as_ref", "str::as_ref",
}
# adapters kept as structure
ADAPT = {"zip": "zip", "enumerate": "enumerate", "chain": "chain", "rev": "rev", "take": "take", "skip": "skip", "step_by": "stepby",
         "peekable": "peekable", "zip_eq": "zip", "interleave": "interleave"}
MUT_DERIVE = {
    "DerefMut::deref_mut": (), "AsMut::as_mut": (), "BorrowMut::borrow_mut": (), "Vec::as_mut_slice": (), "Box::as_mut": (), "Option::as_mut": (),
    "slice::iter_mut": (), "Vec::iter_mut": (), "IntoParallelRefMutIterator::par_iter_mut": (), "IntoIterator::into_iter": (),
    "Iterator::by_ref": (),
}
DIVERGE = ("panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::unreachable_display")

VECOPS = {"push": "push", "push_back": "push", "extend": "ext", "extend_from_slice": "ext", "append": "ext", "resize": "resize", "truncate": "trunc", "reserve": "noop",
          "reserve_exact": "noop", "shrink_to_fit": "noop", "clear": "clear", "push_str": "ext", "insert": "vinsert"}
BINOPS = {"Add::add": "Add", "Sub::sub": "Sub", "Mul::mul": "Mul", "Div::div": "Div", "Rem::rem": "Rem", "Shl::shl": "Shl", "Shr::shr": "Shr",
          "BitAnd::bitand": "BitAnd", "BitOr::bitor": "BitOr", "BitXor::bitxor": "BitXor",
          "PartialEq::eq": "Eq", "PartialEq::ne": "Ne", "PartialOrd::lt": "Lt", "PartialOrd::le": "Le", "PartialOrd::gt": "Gt", "PartialOrd::ge": "Ge"}
ASSIGNOPS = {"AddAssign::add_assign": "Add", "SubAssign::sub_assign": "Sub", "MulAssign::mul_assign": "Mul", "DivAssign::div_assign": "Div",
             "RemAssign::rem_assign": "Rem", "ShlAssign::shl_assign": "Shl", "ShrAssign::shr_assign": "Shr",
             "BitAndAssign::bitand_assign": "BitAnd", "BitOrAssign::bitor_assign": "BitOr", "BitXorAssign::bitxor_assign": "BitXor"}
INPLACE = {"AdditiveGroup::double_in_place": "double", "Field::square_in_place": "square", "AdditiveGroup::neg_in_place": "neg"}


def is_int_const(t):
    return t.op == "const" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool)


def fold_bin(op, a, b):
    if a.op == "const" and b.op == "const" and isinstance(a.args[0], int) and isinstance(b.args[0], int):
        x, y = a.args[0], b.args[0]
        try:
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y,
                 "Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y), "Le": lambda: int(x <= y),
                 "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y), "Shl": lambda: x << y, "Shr": lambda: x >> y,
                 "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[op]()
            return const(r)
        except (KeyError, ZeroDivisionError, ValueError):
            pass
    return T("bin", op, a, b)


class Node:
    __slots__ = ("end", "id", "ctx", "bb", "key", "state", "succ", "pred", "event", "cond", "exit", "line", "panic", "asserts", "stores", "dirty", "facts", "aggs")

    def __repr__(self):
        return f"n{self.id}@{self.ctx.fn.name or self.ctx.fn.id}:{self.line}"


class Ctx:
    __slots__ = ("id", "fn", "parent", "node_key", "call", "subst", "depth", "retinfo", "dropflags")


class Event:
    """a call that was not inlined"""
    __slots__ = ("node", "path", "name", "args", "ret", "generics", "fnid", "raw", "outs", "ctx", "line", "muts")

    def __repr__(self):
        return f"{self.name}({', '.join(pp(a, 3) for a in self.args)})@{self.line}"


class Analysis:
    MAXKEYS = 40
    MAXNODES = 60000

    def __init__(self, prog, entry, opaque=None, maxdepth=14, argterms=None, subst=None, force_inline=None):
        self.prog = prog
        self.entry = entry
        self.opaque = opaque or (lambda fn: False)
        self.maxdepth = maxdepth
        self.nodes = []
        self.node_by_key = {}
        self.keys_per_block = defaultdict(set)
        self.ctxs = {}
        self.echoes = {}
        self.draws = {}          # where an element is taken from an iterator in a loop -> the iterator
        self.phis = {}           # phi term -> {pred id: term}
        self.inlined = set()     # fn ids
        self.overflow = False
        self.sticky = set()
        self.stickyroot = set()
        self.flips = {}
        self._simp = {}
        root = self.make_ctx(None, None, entry, None, subst or {})
        st = {}
        for i in range(1, entry.argc + 1):
            ty, name = entry.locals[i]
            at = argterms[i - 1] if argterms and i - 1 < len(argterms) and argterms[i - 1] is not None else T("arg", i, name or f"_{i}")
            if ty.startswith("&") and re.match(r"^&('\w+ )?mut ", ty):
                # pointee lives in a pseudo local
                st[(root.id, -i)] = at
                st[(root.id, i)] = T("mref", root.id, -i, ())
            else:
                st[(root.id, i)] = at
        self.work = []
        self.flow(None, root, 0, st, {})
        self.run()
        self.finish()

    # ---- contexts
    def make_ctx(self, parent, call, fn, retinfo, subst):
        key = (parent.id if parent else None, call, fn.id)
        c = self.ctxs.get(key)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxs)
            c.fn = fn
            c.parent = parent
            c.call = call
            c.retinfo = retinfo
            c.subst = subst
            c.depth = parent.depth + 1 if parent else 0
            c.dropflags = dropflags(fn)
            self.ctxs[key] = c
            self.inlined.add(fn.id)
            liveness(fn)
        return c

    # ---- node management
    def flow(self, pred, ctx, bb, st, facts, label=None):
        """propagate state into block bb of ctx"""
        fn = ctx.fn
        live = fn._live[bb]
        taken = fn._taken
        cid = ctx.id
        ns = {}
        df = ctx.dropflags
        for k, v in st.items():
            if k[0] == cid:
                l = k[1]
                if l in df:
                    continue
                if l < 0 or l in live or l in taken:
                    ns[k] = v
            else:
                ns[k] = v
        key = []
        for k, v in ns.items():
            if k[0] == cid and (k[1] in ctx.dropflags or is_it_loop(fn, bb)):
                continue
            if v.op == "agg" and v.args[1] and (v.args[0], ) and v.args[0] != "tuple":
                if len(v.args) >= 3 and v.args[2] is not None and is_enum_agg(v):
                    key.append((k, v.args[1]))
            elif v.op == "const" and isinstance(v.args[0], bool):
                key.append((k, v.args[0]))
        key = tuple(sorted(key))
        ks = self.keys_per_block[(cid, bb)]
        if key not in ks:
            if len(ks) >= self.MAXKEYS:
                key = "*"
            else:
                ks.add(key)
        nk = (cid, bb, key)
        n = self.node_by_key.get(nk)
        new = False
        if n is None:
            n = Node()
            n.id = len(self.nodes)
            n.ctx, n.bb, n.key = ctx, bb, key
            n.state = dict(ns)
            n.facts = dict(facts)
            n.succ, n.pred = {}, {}
            n.event = n.cond = n.exit = n.end = None
            n.panic = False
            n.stores = []
            n.aggs = []
            n.asserts = None
            n.line = fn.blocks[bb]["t"][-1]
            n.dirty = False
            self.nodes.append(n)
            self.node_by_key[nk] = n
            new = True
            if len(self.nodes) > self.MAXNODES:
                self.overflow = True
                return n
        pid = pred.id if pred is not None else -1
        n.pred[pid] = ns
        if pred is not None:
            pred.succ.setdefault(n.id, set()).add(label)
        if new:
            self.enqueue(n)
            return n
        # merge
        changed = False
        ks = set()
        for x in n.pred.values():
            ks.update(x)
        loop = is_it_loop(fn, bb)
        for k in ks:
            vals = [x.get(k, UNDEF) for x in n.pred.values()]
            if loop and k[0] == cid and vals[0] is UNDEF:
                # what the body of a library iteration left is only used when there was one
                vals = [v for v in vals if v is not UNDEF] or vals
            v = self.join(n, k, (), vals)
            if n.state.get(k) is not v:
                n.state[k] = v
                changed = True
        nf = {k: v for k, v in n.facts.items() if facts.get(k) == v}
        if len(nf) != len(n.facts):
            n.facts = nf
            changed = True
        if changed:
            self.enqueue(n)
        return n

    def join(self, n, k, path, vals):
        pk = (n.id, k, path)
        if pk in self.sticky and len(vals) > 1:
            # an iterator that comes around unchanged is the one from before the loop: what it yields can be written to
            ph = T("phi", n.id, k[0], k[1], path)
            if any(has_mref(v) for v in vals):
                # .. also when what comes around is one this join itself had before: the body has not caught up yet
                old = self.echoes.setdefault(pk, set())
                vals = [v for i, v in enumerate(vals) if v is not ph and (i == 0 or path or v not in old or not self.around(n, i))] or vals
                if vals[0].op != "phi":
                    old.add(vals[0])
        v0 = vals[0]
        if all(v is v0 for v in vals):
            # a join that keeps changing between equal and different inputs stays a phi
            if path == () and (n.id, k) in self.stickyroot and n.state.get(k) is not v0:
                self.flips[(n.id, k)] = self.flips.get((n.id, k), 0) + 1
            if self.flips.get((n.id, k), 0) <= 20:
                return v0
            if pk in self.sticky:
                return T("phi", n.id, k[0], k[1], path)
            if v0.op != "agg" or v0.args[0] == "array":
                return v0
        if pk not in self.sticky and len(path) < 5 and v0.op == "agg" and all(v.op == "agg" and v.args[:3] == v0.args[:3] and len(v.args) == len(v0.args) for v in vals):
            if v0.args[0] != "array":
                return T("agg", *v0.args[:3], *[self.join(n, k, path + (i,), [v.args[i] for v in vals]) for i in range(3, len(v0.args))])
        self.sticky.add(pk)
        self.stickyroot.add((n.id, k))
        ph = T("phi", n.id, k[0], k[1], path)
        self.phis.setdefault(ph, {})
        return ph

    def around(self, n, i):
        """does the i-th edge into n come from n itself?"""
        p = list(n.pred)[i]
        seen, st = set(), [n.id]
        while st:
            x = st.pop()
            if x == p:
                return True
            if x not in seen and x >= 0:
                seen.add(x)
                st.extend(self.nodes[x].succ)
        return False

    def enqueue(self, n):
        if not n.dirty:
            n.dirty = True
            heapq.heappush(self.work, n.id)

    def run(self):
        steps = 0
        while self.work:
            # approximate reverse post order: lowest id first
            n = self.nodes[heapq.heappop(self.work)]
            n.dirty = False
            steps += 1
            if steps > 400000 or self.overflow:
                self.overflow = True
                break
            self.step(n)

    # ---- memory
    def rd_local(self, st, cid, l):
        return st.get((cid, l), UNDEF)

    def rd_place(self, st, ctx, p):
        v = self.rd_local(st, ctx.id, p[0])
        for pr in p[1]:
            v = self.proj(st, ctx, v, pr)
        return v

    def proj(self, st, ctx, v, pr):
        k = pr[0]
        if k == "*":
            if v.op == "mref":
                return self.rd_ref(st, v)
            return v
        if v.op == "mref":
            v = self.rd_ref(st, v)
        if k == "f":
            return field(v, pr[1], pr[2])
        if k == "d":
            return downcast(v, pr[2])
        if k == "i":
            return index(v, self.rd_local(st, ctx.id, pr[1]))
        if k == "ci":
            return index(v, const(pr[1])) if not pr[2] else T("index", v, T("fromend", const(pr[1])))
        if k == "s":
            return T("slice", v, const(pr[1]), T("fromend", const(pr[2])) if pr[3] else const(pr[2]))
        return T("proj", v, k)

    def rd_ref(self, st, r):
        v = self.rd_local(st, r.args[0], r.args[1])
        for pr in r.args[2]:
            v = self.tproj(st, v, pr)
        return v

    def tproj(self, st, v, pr):
        """projection already resolved to terms"""
        if v.op == "mref":
            v = self.rd_ref(st, v)
        k = pr[0]
        if k == "f":
            return field(v, pr[1], pr[2])
        if k == "d":
            return downcast(v, pr[1])
        if k == "idx":
            return index(v, pr[1])
        if k == "el":
            return elem(v, pr[1])
        if k == "rng":
            return T("slice", v, pr[1], pr[2])
        if k == "ch":
            return T(pr[1], v, pr[2])
        return T("proj", v, k)

    def resolve_place(self, st, ctx, p):
        """-> (cid, local, projs) following mutable references"""
        cid, l, projs = ctx.id, p[0], ()
        for pr in p[1]:
            k = pr[0]
            if k == "*":
                v = self.rd_local(st, cid, l)
                for q in projs:
                    v = self.tproj(st, v, q)
                if v.op == "mref":
                    cid, l, projs = v.args[0], v.args[1], v.args[2]
                continue
            if k == "f":
                projs = projs + (("f", pr[1], pr[2]),)
            elif k == "d":
                projs = projs + (("d", pr[2]),)
            elif k == "i":
                projs = projs + (("idx", self.rd_local(st, ctx.id, pr[1])),)
            elif k == "ci":
                projs = projs + (("idx", const(pr[1]) if not pr[2] else T("fromend", const(pr[1]))),)
            elif k == "s":
                projs = projs + (("rng", const(pr[1]), const(pr[2])),)
            else:
                projs = projs + (("?",),)
        return cid, l, projs

    def write(self, st, cid, l, projs, val, n=None):
        if not projs:
            st[(cid, l)] = val
            return
        base = st.get((cid, l), UNDEF)
        # a write through a pointer stored in this place
        if base.op == "mref":
            self.write(st, base.args[0], base.args[1], base.args[2] + projs, val, n)
            return
        # follow embedded mrefs (struct fields holding &mut)
        v = base
        for i, pr in enumerate(projs[:-1]):
            v2 = v
            if pr[0] == "f":
                v2 = field(v, pr[1], pr[2])
            elif pr[0] == "d":
                v2 = downcast(v, pr[1])
            else:
                break
            if v2.op == "mref":
                self.write(st, v2.args[0], v2.args[1], v2.args[2] + projs[i + 1:], val, n)
                return
            v = v2
        if n is not None:
            n.stores.append((cid, l, projs, val, base))
        st[(cid, l)] = store(base, projs, val)

    # ---- operands
    def operand(self, st, ctx, o):
        if o[0] in "cm":
            return self.rd_place(st, ctx, o[1])
        k = o[1]
        if "prim" in k:
            return T("prim", k["prim"])
        if "unit" in k:
            return UNIT
        if "fn" in k:
            return T("fn", k["fn"], k.get("res") or "", k["path"], tuple(self.sub(ctx, a) for a in k["args"]), k.get("rpath") or "", k.get("trait") or "",
                     tuple(self.sub(ctx, a) for a in k.get("rargs", [])))
        if "closure" in k:
            return T("agg", "closure", k["closure"], None)
        if "int" in k:
            v = k["int"]
            if k["ty"] == "bool":
                return const(bool(v))
            if k["ty"] == "std::result::Result<(), ()>":
                return T("agg", "std::result::Result", "Err" if v else "Ok", (("0",), True), UNIT)
            return const(v)
        if "str" in k:
            return const("s:" + k["str"])
        if "bytes" in k:
            return const("b:" + ",".join(map(str, k["bytes"])))
        if "promoted" in k:
            pf = self.prog.fns.get(f"{k['def']}#p{k['promoted']}")
            if pf is not None:
                return self.promoted(pf, ctx)
            return T("const", f"promoted {k['path']}#{k['promoted']}")
        if "def" in k:
            args = tuple(self.sub(ctx, a) for a in k.get("args", []))
            cf = self.prog.fns.get(k["def"])
            if cf is not None and len(cf.blocks) <= 40:
                v = self.promoted(cf, ctx)
                if v.op != "undef" and v.op != "phi":
                    return v
            return T("kconst", k["path"], args)
        if "tyconst" in k:
            v = self.sub(ctx, k["tyconst"])
            return const(int(v)) if v.isdigit() else T("kconst", v, ())
        if "static" in k:
            return T("kconst", k["static"], ())
        return T("const", "ty:" + k["ty"])

    _promo = None

    def promoted(self, fn, ctx):
        if self._promo is None:
            self._promo = {}
        key = (fn.id, tuple(sorted(ctx.subst.items())))
        if key in self._promo:
            return self._promo[key]
        self._promo[key] = UNDEF
        try:
            a = Analysis(self.prog, fn, maxdepth=4, subst=ctx.subst)
            vals = {e.exit for e in a.nodes if e.exit is not None}
            v = vals.pop() if len(vals) == 1 else UNDEF
            if a.phis and mentions_phi(v):
                v = UNDEF
        except RecursionError:
            v = UNDEF
        self._promo[key] = v
        return v

    def sub(self, ctx, s):
        if not ctx.subst:
            return s
        return subst_ty(s, ctx.subst)

    # ---- transfer
    def step(self, n):
        ctx, fn = n.ctx, n.ctx.fn
        st = dict(n.state)
        facts = dict(n.facts)
        n.stores = []
        n.aggs = []
        n.succ = {}
        b = fn.blocks[n.bb]
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(st, ctx, s[2], n, facts)
                cid, l, pj = self.resolve_place(st, ctx, s[1])
                self.write(st, cid, l, pj, v, n)
        t = b["t"]
        k = t[0]
        if k == "goto":
            self.flow(n, ctx, t[1], st, facts)
        elif k == "drop":
            self.flow(n, ctx, t[2], st, facts)
        elif k == "assert":
            c = self.operand(st, ctx, t[1])
            n.asserts = (c, t[2], [self.operand(st, ctx, o) for o in t[4]] if isinstance(t[4], list) else None)
            self.flow(n, ctx, t[3], st, facts)
        elif k == "switch":
            self.switch(n, ctx, st, facts, t)
        elif k == "call":
            self.call(n, ctx, st, facts, t)
        elif k == "ret":
            v = st.get((ctx.id, 0), UNDEF)
            if ctx.parent is None:
                n.exit = v
                n.end = st
            else:
                self.ret(n, ctx, st, facts, v)
        else:
            n.panic = k not in ("unreachable",)

    def ret(self, n, ctx, st, facts, v):
        dest, target = ctx.retinfo
        p = ctx.parent
        # drop callee locals
        st2 = {k: x for k, x in st.items() if k[0] != ctx.id}
        # a returned mutable reference into the callee cannot outlive it
        cid, l, pj = self.resolve_place(st2, p, dest)
        self.write(st2, cid, l, pj, v, n)
        if target is None:
            n.panic = True
            return
        self.flow(n, p, target, st2, facts)

    def switch(self, n, ctx, st, facts, t):
        if t[1][0] in "cm" and t[1][1][0] in ctx.dropflags:
            for b in succs(t):
                self.flow(n, ctx, b, st, facts)
            return
        c = self.val(st, self.operand(st, ctx, t[1]))
        targets = [(int(v), b) for v, b in t[2]]
        other = t[3]
        # known?
        if c.op == "const" and isinstance(c.args[0], (int, bool)):
            v = int(c.args[0])
            for tv, b in targets:
                if tv == v:
                    n.cond = None
                    self.flow(n, ctx, b, st, facts)
                    return
            n.cond = None
            self.flow(n, ctx, other, st, facts)
            return
        known = facts.get(c)
        names = None
        if c.op == "disc":
            names = dict((int(a), b) for a, b in c.args[1])
        if known is not None and isinstance(known, int):
            for tv, b in targets:
                if tv == known:
                    n.cond = None
                    self.flow(n, ctx, b, st, facts)
                    return
            n.cond = None
            self.flow(n, ctx, other, st, facts)
            return
        done = set()
        if known is not None and known[0] == "not":
            excl = known[1]
        else:
            excl = frozenset()
        vals = []
        rec = not varies(c)
        for tv, b in targets:
            done.add(tv)
            if tv in excl:
                continue
            vals.append((tv, b, {**facts, c: tv} if rec else facts))
        # otherwise edge
        rest = None
        if names is not None:
            rest = [v for v in names if v not in done and v not in excl]
        elif ctx_bool(fn_ty(ctx, t[1])) or is_bool(c):
            rest = [v for v in (0, 1) if v not in done]
        ok = self.prog is not None
        if fn_block_unreachable(ctx.fn, other) or (rest is not None and not rest):
            pass
        elif rest is not None and len(rest) == 1:
            vals.append((rest[0], other, {**facts, c: rest[0]} if rec else facts))
        else:
            vals.append((None, other, {**facts, c: ("not", excl | frozenset(done))} if rec else facts))
        if len(vals) == 1:
            n.cond = None
        else:
            n.cond = (c, tuple(v for v, _, _ in vals))
        for v, b, f in vals:
            self.flow(n, ctx, b, st, f, label=v if v is not None else "other")

    def rvalue(self, st, ctx, r, n, facts):
        k = r[0]
        if k == "use":
            return self.operand(st, ctx, r[1])
        if k == "ref":
            p = r[2]
            if r[1] == 1:
                cid, l, pj = self.resolve_place(st, ctx, p)
                # reference to a place whose value already is a reference obtained elsewhere
                return T("mref", cid, l, pj)
            return self.rd_place_shared(st, ctx, p)
        if k == "bin":
            a, b = self.operand(st, ctx, r[2]), self.operand(st, ctx, r[3])
            return fold_bin(norm_op(r[1]), self.val(st, a), self.val(st, b))
        if k == "un":
            a = self.val(st, self.operand(st, ctx, r[2]))
            if r[1] == "PtrMetadata":
                return T("len", a)
            if r[1] == "Not" and a.op == "const" and isinstance(a.args[0], bool):
                return const(not a.args[0])
            return T("un", r[1], a)
        if k == "cast":
            a = self.operand(st, ctx, r[2])
            if r[1].startswith("PointerCoercion") or r[1] in ("PtrToPtr", "Transmute"):
                return a
            if is_int_const(a):
                return a
            ty = r[3]
            return T("cast", self.val(st, a), ty)
        if k == "agg":
            ops = [self.operand(st, ctx, o) for o in r[2]]
            d = r[1]
            if d["k"] == "adt":
                v = T("agg", d["adt"], d["variant"], (tuple(d["fields"]), bool(d["enum"])), *ops)
                n.aggs.append(v)
                return v
            if d["k"] == "closure":
                return T("agg", "closure", d["fn"], None, *ops)
            return T("agg", d["k"], "", (), *ops)
        if k == "disc":
            v = self.val(st, self.rd_place(st, ctx, r[1]))
            if v.op == "agg" and is_enum_agg(v):
                for dv, name in r[2]:
                    if name == v.args[1]:
                        return const(int(dv))
            return T("disc", v, tuple((a, b) for a, b in r[2]))
        if k == "repeat":
            return T("repeat", self.operand(st, ctx, r[1]), self.sub(ctx, r[2]))
        if k == "prim":
            a = [self.operand(st, ctx, o) for o in r[2:]]
            if r[1] == "elem":
                return elem(a[0], ctx.id, st, self)
            if r[1] == "hasmore":
                return T("more", a[0], ctx.id)
            if r[1] == "idx":
                return T("idx", a[0], ctx.id)
            if r[1] == "rev":
                return T("rev", a[0])
            return T(r[1], *a, ctx.id)
        return T("other", r[0], str(r[1:])[:80])

    def rd_place_shared(self, st, ctx, p):
        v = self.rd_place(st, ctx, p)
        if v.op == "mref":
            # & &mut x  -> keep the mutable reference (reads resolve it)
            return v
        return v

    def val(self, st, v):
        i = 0
        while v.op == "mref" and i < 10:
            v = self.rd_ref(st, v)
            i += 1
        return v

    def deep(self, st, v, d=0):
        """replace mutable references nested in aggregates by their current value"""
        if v.op == "mref":
            return self.deep(st, self.val(st, v), d + 1) if d < 6 else v
        if v.op == "agg" and d < 6 and any(isinstance(a, Term) and a.op in ("mref", "agg") for a in v.args[3:]):
            return T("agg", *v.args[:3], *[self.deep(st, a, d + 1) for a in v.args[3:]])
        return v

    # ---- calls
    def call(self, n, ctx, st, facts, t):
        f = self.val(st, self.operand(st, ctx, t[1]))
        args = [self.operand(st, ctx, a) for a in t[2]]
        self.docall(n, ctx, st, facts, f, args, t[3], t[4])

    def enter(self, n, ctx, st, facts, fn, args, dest, target, subst):
        cc = self.make_ctx(ctx, (n.bb, ), fn, (dest, target), subst)
        if target is None:
            live = ()
        else:
            live = ctx.fn._live[target]
        taken = ctx.fn._taken
        st2 = {k: v for k, v in st.items() if k[0] != ctx.id or k[1] < 0 or k[1] in live or k[1] in taken}
        for l in {dest[0]} if dest[1] else ():
            st2[(ctx.id, l)] = st.get((ctx.id, l), UNDEF)
        for i, a in enumerate(args):
            st2[(cc.id, i + 1)] = a
        self.flow(n, cc, 0, st2, facts)

    def finish_call(self, n, ctx, st, facts, dest, target, v):
        if target is None:
            n.panic = True
            return
        cid, l, pj = self.resolve_place(st, ctx, dest)
        self.write(st, cid, l, pj, v, n)
        self.flow(n, ctx, target, st, facts)

    def onstack(self, ctx, fn):
        c = ctx
        k = 0
        while c is not None:
            if c.fn is fn:
                k += 1
            c = c.parent
        return k

    def docall(self, n, ctx, st, facts, f, args, dest, target, hops=0):
        prog = self.prog
        n.event = None
        fin = lambda v: self.finish_call(n, ctx, st, facts, dest, target, v)
        if f.op == "prim":
            if f.args[0] == "panic":
                n.panic = True
                return
            if f.args[0] == "conv":
                return fin(T("call", "conv", (), self.val(st, args[0])))
            return fin(T("call", f.args[0], (), *[self.val(st, a) for a in args]))
        if f.op == "agg" and f.args[0] == "closure":
            cf = prog.fns.get(f.args[1])
            if cf is not None and ctx.depth < self.maxdepth + 6 and not self.onstack(ctx, cf):
                sub = ctx.subst
                return self.enter(n, ctx, st, facts, cf, [f] + args, dest, target, sub)
            return fin(T("call", "closure", (), *[self.val(st, a) for a in args]))
        if f.op != "fn":
            return self.opaque_call(n, ctx, st, facts, "?indirect", f, [f] + args, dest, target, ())
        fid, res, path, gargs, rpath, trait, rargs = f.args
        sp = short(path)
        nm = sp.split("::")[-1]
        if fid.startswith("jf_") or res.startswith("jf_"):
            target_fn = None
            sub = {}
            if res and res in prog.fns:
                target_fn = prog.fns[res]
                g = target_fn.generics or []
                if len(g) == len(rargs):
                    sub = dict(zip(g, rargs))
            elif fid in prog.fns:
                target_fn = prog.fns[fid]
                g = target_fn.generics or []
                if len(g) == len(gargs):
                    sub = dict(zip(g, gargs))
                if trait and gargs:
                    m = prog.resolve_method(trait, nm, gargs[0])
                    if m is not None:
                        target_fn = m
                        sub = {}
            elif trait and gargs:
                m = prog.resolve_method(trait, nm, gargs[0])
                if m is not None:
                    target_fn = m
            if target_fn is not None and not self.opaque(target_fn) and ctx.depth < self.maxdepth and not self.onstack(ctx, target_fn) \
                    and len(self.nodes) < self.MAXNODES:
                return self.enter(n, ctx, st, facts, target_fn, args, dest, target, sub)
            rp = target_fn.path if target_fn is not None else (rpath or path)
            return self.opaque_call(n, ctx, st, facts, rp, f, args, dest, target, gargs)
        # trait method of an external trait implemented in the workspace for the (substituted) self type
        if trait and gargs and not res:
            m = prog.resolve_method(trait, nm, gargs[0])
            if m is not None and not m.derived and not self.opaque(m) and ctx.depth < self.maxdepth and not self.onstack(ctx, m):
                return self.enter(n, ctx, st, facts, m, args, dest, target, {})
        return self.extern(n, ctx, st, facts, f, path, sp, nm, gargs, args, dest, target)

    def extern(self, n, ctx, st, facts, f, path, sp, nm, gargs, args, dest, target):
        fin = lambda v: self.finish_call(n, ctx, st, facts, dest, target, v)
        destty = ctx.fn.locals[dest[0]][0] if not dest[1] else "?"
        p2 = strip_generics(path)
        A = [self.val(st, a) for a in args]
        if sp in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
            tup = A[1] if len(A) > 1 else UNIT
            cal = A[0]
            if cal.op in ("agg", "fn", "prim") and (cal.op != "agg" or cal.args[0] == "closure"):
                inner = list(tup.args[3:]) if tup.op == "agg" else [tup]
                return self.docall(n, ctx, st, facts, cal, inner, dest, target)
            return self.opaque_call(n, ctx, st, facts, "?indirect", f, args, dest, target, gargs)
        if p2.startswith(("core::panicking", "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed")) or (target is None):
            n.panic = True
            n.event = self.mkevent(n, path, sp, A, UNDEF, gargs, f, args)
            return
        # Try / FromResidual
        if sp == "Try::branch":
            k = "R" if head(gargs[0]).endswith("Result") else "O" if head(gargs[0]).endswith("Option") else None
            if k:
                return self.enter(n, ctx, st, facts, MODELS["Try::branch/" + k], [args[0]], dest, target, ctx.subst)
        if sp == "FromResidual::from_residual":
            k1 = head(gargs[0]).split("::")[-1]
            if k1 == "Result":
                return self.enter(n, ctx, st, facts, MODELS["FromResidual::from_residual/R"], [args[0]], dest, target, ctx.subst)
            if k1 == "Option":
                return self.enter(n, ctx, st, facts, MODELS["FromResidual::from_residual/O"], [args[0]], dest, target, ctx.subst)
        if sp == "array::from_fn" and len(gargs) >= 2:
            size = const(int(gargs[1])) if gargs[1].isdigit() else T("kconst", gargs[1], ())
            return self.enter(n, ctx, st, facts, MODELS["Iterator::map"], [T("agg", "core::ops::Range", "Range", (("start", "end"), False), const(0), size), args[0]], dest, target, ctx.subst)
        m = MODELS.get(sp)
        if m is not None and ctx.depth < self.maxdepth + 6:
            a2 = list(args)
            # receivers behind &mut (any/all/position take &mut self)
            if a2 and a2[0].op == "mref" and (sp.startswith(("Iterator", "Parallel", "Indexed", "Double", "Option", "Result"))):
                b = self.rd_ref(st, a2[0])
                if b.op != "undef":
                    a2[0] = b
            return self.enter(n, ctx, st, facts, m, a2, dest, target, ctx.subst)
        if sp in BINOPS and len(A) == 2:
            n.event = self.mkevent(n, path, sp, A, UNDEF, gargs, f, args)
            v = fold_bin(BINOPS[sp], A[0], A[1])
            n.event.ret = v
            return fin(v)
        if sp in ASSIGNOPS and len(args) == 2:
            v = T("bin", ASSIGNOPS[sp], A[0], A[1])
            n.event = self.mkevent(n, path, sp, A, v, gargs, f, args)
            if args[0].op == "mref":
                self.write(st, args[0].args[0], args[0].args[1], args[0].args[2], v, n)
            return fin(UNIT)
        if sp == "Neg::neg":
            return fin(T("un", "Neg", A[0]))
        if sp == "Not::not":
            return fin(const(not A[0].args[0]) if A[0].op == "const" and isinstance(A[0].args[0], bool) else T("un", "Not", A[0]))
        if nm == "len" and len(args) == 1:
            return fin(T("len", A[0]))
        if nm == "is_empty" and len(args) == 1:
            return fin(fold_bin("Eq", T("len", A[0]), const(0)))
        if sp in ("IndexMut::index_mut",) and args[0].op == "mref":
            r = args[0]
            pj = rng_proj(A[1])
            return fin(T("mref", r.args[0], r.args[1], r.args[2] + (pj,)))
        if sp in ("Index::index",):
            return fin(index(A[0], A[1]))
        if sp in MUT_DERIVE and args and args[0].op == "mref":
            if nm in ("iter_mut", "par_iter_mut") or (nm == "into_iter"):
                if nm == "into_iter" and A[0].op == "mref":
                    return fin(T("itermut", A[0]))
                base = self.rd_local(st, args[0].args[0], args[0].args[1])
                # by_ref / into_iter of an iterator reference keeps the iterator
                if nm == "into_iter" and not dest_is_mut_iter(destty):
                    return fin(args[0])
                return fin(T("itermut", args[0]))
            return fin(args[0])
        if nm in ("chunks_mut", "chunks_exact_mut", "par_chunks_exact_mut", "par_chunks_mut") and args[0].op == "mref":
            r = args[0]
            return fin(T("itermut", T("mref", r.args[0], r.args[1], r.args[2] + (("ch", "chunksx" if "exact" in nm else "chunks", A[1]),))))
        if nm in ("get_mut", "last_mut", "first_mut", "entry", "split_at_mut", "or_insert_with", "or_insert", "or_default") and args[0].op == "mref":
            r = args[0]
            ix = A[1] if len(A) > 1 and nm == "get_mut" else T("const", nm)
            d = T("mref", r.args[0], r.args[1], r.args[2] + (("idx", ix),))
            n.event = self.mkevent(n, path, sp, A, d, gargs, f, args)
            if nm in ("or_insert_with", "or_insert", "or_default", "entry"):
                return fin(d)
            if nm == "split_at_mut":
                return fin(T("agg", "tuple", "", (), d, d))
            # Option<&mut T>: unknown variant with that payload
            return fin(T("maybe", d))
        if sp in ("Option::take", "mem::take", "mem::replace") and args and args[0].op == "mref":
            r = args[0]
            nv = A[1] if sp == "mem::replace" else (T("agg", OPT, "None", ((), True)) if sp == "Option::take" else T("call", "default", ()))
            self.write(st, r.args[0], r.args[1], r.args[2], nv, n)
            return fin(A[0])
        if sp == "mem::swap" and args[0].op == "mref" and args[1].op == "mref":
            a, b = args
            self.write(st, *a.args[:3], A[1], n)
            self.write(st, *b.args[:3], A[0], n)
            return fin(UNIT)
        if sp in ("Iterator::next", "DoubleEndedIterator::next_back") and args[0].op == "mref":
            r = args[0]
            it = A[0]
            if self.in_loop_outside(n, ctx, r):
                self.draws[(ctx.id, n.bb)] = it
                return fin(T("optelem", it, elem(it, (ctx.id, n.bb), st, self), (ctx.id, n.bb)))
            v = T("call", "next", (), it)
            self.write(st, *r.args[:3], T("out", v, 0), n)
            n.event = self.mkevent(n, path, sp, A, v, gargs, f, args)
            return fin(v)
        if sp in TRANSPARENT or (p2.startswith(("rayon", "itertools")) and nm in ("into_par_iter", "par_iter")):
            return fin(A[0] if args[0].op != "mref" or nm in ("clone", "to_vec", "to_owned", "borrow", "as_ref", "deref", "iter") else args[0])
        if sp in ("Vec::new", "Vec::with_capacity", "String::new"):
            return fin(T("agg", "array", "", ()))
        if sp == "vec::from_elem":
            return fin(T("fill", A[0], A[1]))
        if sp in ("Into::into", "From::from", "TryFrom::try_from", "TryInto::try_into"):
            pj = args[0].args[2] if args[0].op == "mref" else ()
            if sp.startswith("Try") and len(pj) >= 2 and pj[-1][0] == "el" and pj[-2][:2] == ("ch", "chunksx") and is_int_const(pj[-2][2]) \
                    and re.match(rf"^&('\w+ )?mut \[.*; {pj[-2][2].args[0]}\]$", gargs[1] if sp == "TryInto::try_into" else gargs[0]):
                return fin(T("agg", "core::result::Result", "Ok", (("0",), True), args[0]))
            v = self.conv(sp, gargs, A[0], destty)
            return fin(v)
        tn = sp.split("::")[0]
        if nm in ADAPT and tn in ("Iterator", "IndexedParallelIterator", "ParallelIterator", "DoubleEndedIterator", "Itertools"):
            return fin(T(ADAPT[nm], *[a if a.op == "itermut" else self.val(st, a) for a in args]))
        if nm in ("chunks", "chunks_exact", "par_chunks", "windows", "par_windows", "par_chunks_exact", "rchunks"):
            return fin(T("windows" if "windows" in nm else "chunksx" if "exact" in nm else "chunks" if nm != "rchunks" else "rchunks", A[0], A[1]))
        if nm == "collect" and tn in ("Iterator", "ParallelIterator"):
            if head(destty).split("::")[-1] in ("Result", "Option"):
                return fin(T("collectR", A[0]))
            return fin(A[0] if A[0].op != "itermut" else A[0])
        if tn in ("Vec", "Extend", "VecDeque", "String") and args and args[0].op == "mref" and (nm in VECOPS):
            op = VECOPS[nm]
            n.event = self.mkevent(n, path, sp, A, UNIT, gargs, f, args)
            if op == "noop":
                return fin(UNIT)
            src = [self.val(st, a) if a.op == "mref" else a for a in args[1:]]
            nv = T(op, A[0], *src)
            if nm == "append" and args[1].op == "mref":
                self.write(st, *args[1].args[:3], T("agg", "array", "", ()), n)
            self.write(st, args[0].args[0], args[0].args[1], args[0].args[2], nv, n)
            return fin(UNIT)
        if nm in ("concat",) and tn in ("slice", "Concat", "Join"):
            return fin(T("concat", A[0]))
        if nm == "unzip":
            return fin(T("agg", "tuple", "", (), T("unz", A[0], 0), T("unz", A[0], 1)))
        if nm == "RangeInclusive::new" or sp == "RangeInclusive::new":
            return fin(T("rangei", A[0], A[1]))
        return self.opaque_call(n, ctx, st, facts, path, f, args, dest, target, gargs)

    def conv(self, sp, gargs, a, destty):
        if len(gargs) >= 2:
            x, y = gargs[0], gargs[1]
            src, dst = (x, y) if sp in ("Into::into", "TryInto::try_into") else (y, x)
            if sp in ("Into::into", "From::from"):
                if src == dst or (head(src) == "[]" and head(dst).endswith("Vec")) or (head(src).endswith("Vec") and head(dst).endswith("Vec")):
                    return a
                if is_int_const(a) and dst in INTS:
                    return a
                return T("conv", a, dst)
            return T("tryconv", a, dst)
        return T("conv", a, "?")

    def in_loop_outside(self, n, ctx, r):
        """`next` on an iterator that lives across iterations of the enclosing loop"""
        scc = sccs(ctx.fn)
        return n.bb in scc or ctx.fn.kind == "Model"

    def mkevent(self, n, path, sp, A, ret, gargs, f, raw):
        e = Event()
        e.node, e.path, e.name, e.args, e.ret, e.generics = n, strip_generics(path), sp, A, ret, gargs
        e.fnid = f.args[0] if f.op == "fn" else ""
        e.raw = raw
        e.ctx = n.ctx
        e.line = n.line
        e.muts = ()
        return e

    def opaque_call(self, n, ctx, st, facts, path, f, args, dest, target, gargs):
        A = [self.deep(st, self.val(st, a)) for a in args]
        # closures handed to unknown callees: analyse their bodies as if invoked (effects only)
        sp = short(path)
        ct = T("call", sp, tuple(gargs), *A)
        e = self.mkevent(n, path, sp, A, ct, gargs, f, args)
        muts = []
        for i, a in enumerate(args):
            if a.op == "mref":
                muts.append(i)
                self.write(st, a.args[0], a.args[1], a.args[2], T("out", ct, i), n)
            elif a.op == "agg":
                for j, x in enumerate(a.args[3:]):
                    if isinstance(x, Term) and x.op == "mref":
                        self.write(st, x.args[0], x.args[1], x.args[2], T("out", ct, i), n)
        e.muts = tuple(muts)
        n.event = e
        destty = ctx.fn.locals[dest[0]][0] if not dest[1] else "?"
        v = ct
        if muts and re.match(r"^&('\w+ )?mut ", destty):
            a = args[muts[0]]
            v = T("mref", a.args[0], a.args[1], a.args[2])
        if target is None:
            n.panic = True
            return
        self.finish_call(n, ctx, st, facts, dest, target, v)

    # ---- after the fixpoint
    def finish(self):
        # phi inputs from the final incoming states
        reach = set()
        stack = [0] if self.nodes else []
        while stack:
            i = stack.pop()
            if i in reach:
                continue
            reach.add(i)
            stack.extend(self.nodes[i].succ)
        self.reach = reach
        for ph in list(self.phis):
            nid, a, b, path = ph.args
            n = self.nodes[nid]
            ins = {}
            for p, ns in n.pred.items():
                if p == -1 or (p in reach and nid in self.nodes[p].succ):
                    v = ns.get((a, b), UNDEF)
                    for i in path:
                        v = v.args[i] if v.op == "agg" and i < len(v.args) else UNDEF
                    ins[p] = v
            self.phis[ph] = ins
        # trivial phis: one distinct input besides itself
        self.rep = {}
        changed = True
        while changed:
            changed = False
            for ph, ins in self.phis.items():
                if ph in self.rep:
                    continue
                vs = set()
                for v in ins.values():
                    while v in self.rep:
                        v = self.rep[v]
                    if v is not ph and v.op != "undef":
                        vs.add(v)
                if len(vs) == 1:
                    self.rep[ph] = vs.pop()
                    changed = True
        for n in self.nodes:
            n.pred = {p: None for p in n.pred if p == -1 or (p in reach and n.id in self.nodes[p].succ)}
        self.live_nodes = [self.nodes[i] for i in sorted(reach)]
        for n in self.live_nodes:
            n.state = None if n.exit is None and False else n.state
        self._dom = None

    @property
    def events(self):
        return [n.event for n in self.live_nodes if n.event is not None]

    def built(self, adt):
        """[(node, value)] of the constructions of a type in the inlined program"""
        return [(n, v) for n in self.live_nodes for v in n.aggs if str(v.args[0]).split("::")[-1] == adt]

    def exits(self):
        return [n for n in self.live_nodes if n.exit is not None]

    # ---- dominators
    def dom(self):
        if self._dom is not None:
            return self._dom
        order, seen = [], set()
        st = [(0, iter(sorted(self.nodes[0].succ)))]
        seen.add(0)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(sorted(self.nodes[w].succ))))
                    break
            else:
                order.append(v)
                st.pop()
        order.reverse()
        self.rpo = {v: i for i, v in enumerate(order)}
        idom = {0: 0}
        preds = {v: [p for p in self.nodes[v].pred if p in self.rpo] for v in order}
        changed = True
        while changed:
            changed = False
            for v in order[1:]:
                new = None
                for p in preds[v]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while self.rpo[a] > self.rpo[b]:
                                    a = idom[a]
                                while self.rpo[b] > self.rpo[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(v) != new:
                    idom[v] = new
                    changed = True
        self._dom = idom
        self.order = order
        return idom

    def dominates(self, a, b):
        idom = self.dom()
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    def reachable(self, starts, avoid=()):
        seen = set()
        st = [s for s in starts if s not in avoid]
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            for w in self.nodes[v].succ:
                if w not in avoid and w not in seen:
                    st.append(w)
        return seen

    def can_reach(self, targets):
        seen = set(targets)
        st = list(targets)
        while st:
            v = st.pop()
            for p in self.nodes[v].pred:
                if p is not None and p >= 0 and p not in seen and p in self.reach:
                    seen.add(p)
                    st.append(p)
        return seen

    def loops(self):
        """natural loops: header -> (body set, latches)"""
        if getattr(self, "_loops", None) is not None:
            return self._loops
        self.dom()
        res = {}
        for v in self.order:
            for w in self.nodes[v].succ:
                if w in self.rpo and self.rpo[w] <= self.rpo[v] and self.dominates(w, v):
                    body, lat = res.setdefault(w, (set([w]), set()))
                    lat.add(v)
                    st = [v]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        for p in self.nodes[x].pred:
                            if p is not None and p >= 0 and p in self.rpo:
                                st.append(p)
        self._loops = res
        return res

    def must_pass(self, n, targets):
        """is node n executed before any target on every path, where nodes inside loops count
        when every iteration of an enclosing (itself unavoidable) loop executes them"""
        tg = list(targets)
        if not tg:
            return False
        if all(self.dominates(n, t) for t in tg):
            return True
        for h, (body, lat) in self.loops().items():
            if n in body and n != h and not any(t in body for t in tg):
                if all(self.dominates(n, l) for l in lat) or self._must_in(n, h, lat):
                    if self.must_pass(h, tg):
                        return True
        return False

    def _must_in(self, n, h, lat):
        # nested loops: n sits in an inner loop whose header is on every iteration
        for h2, (body2, lat2) in self.loops().items():
            if h2 != h and n in body2 and h2 in self.loops()[h][0]:
                if (all(self.dominates(n, l) for l in lat2) or self._must_in(n, h2, lat2)) and all(self.dominates(h2, l) for l in lat):
                    return True
        return False

    # ---- guards
    def guards(self, targets, partial=True):
        """list of Guard: branch nodes with at least one edge from which no target is reachable.
        accept = set of edge labels from which a target stays reachable."""
        tg = [t.id if isinstance(t, Node) else t for t in targets]
        if not tg:
            return []
        cr = self.can_reach(tg)
        out = []
        for n in self.live_nodes:
            if n.cond is None or n.id not in cr:
                continue
            acc, rej = set(), set()
            for s, labs in n.succ.items():
                good = s in cr
                for lb in labs:
                    (acc if good else rej).add(lb)
            rej -= acc
            if rej and acc:
                out.append(Guard(self, n, acc, rej, self.must_pass(n.id, tg)))
        return out

    # ---- simplification through phis
    def simp(self, t, depth=0):
        """resolve trivial phis (single distinct input besides itself / undef)"""
        if not isinstance(t, Term):
            return t
        r = self._simp.get(t)
        if r is not None:
            return r
        self._simp[t] = t
        if t.op == "phi" and t in self.rep:
            r = self.simp(self.rep[t])
        elif t.op == "phi":
            ins = set()
            seen = {t}
            stk = [t]
            while stk:
                x = stk.pop()
                for v in self.phis.get(x, {}).values():
                    if v.op == "phi":
                        if v not in seen:
                            seen.add(v)
                            stk.append(v)
                    elif v.op != "undef":
                        ins.add(v)
            if len(ins) == 1:
                r = self.simp(ins.pop(), depth + 1)
            else:
                r = t
        elif t.op in ("const", "arg", "fn", "kconst", "prim"):
            r = t
        else:
            na = []
            ch = False
            for a in t.args:
                if isinstance(a, Term):
                    b = self.simp(a, depth + 1)
                    ch |= b is not a
                    na.append(b)
                else:
                    na.append(a)
            r = rebuild(t.op, na) if ch else t
        self._simp[t] = r
        return r

    def phi_inputs(self, t):
        """non-phi, non-undef inputs of a phi web"""
        ins = []
        seen = {t}
        stk = [t]
        while stk:
            x = stk.pop()
            for v in self.phis.get(x, {}).values():
                if v.op == "phi":
                    if v not in seen:
                        seen.add(v)
                        stk.append(v)
                elif v.op != "undef" and v not in ins:
                    ins.append(v)
        return ins

    def subterms(self, t, through_phi=True, limit=200000):
        seen = set()
        st = [t]
        while st and len(seen) < limit:
            x = st.pop()
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                if through_phi:
                    st.extend(self.phis.get(x, {}).values())
            else:
                for a in x.args:
                    if isinstance(a, Term):
                        st.append(a)
                    elif isinstance(a, tuple):
                        for b in a:
                            if isinstance(b, Term):
                                st.append(b)
                            elif isinstance(b, tuple):
                                st.extend(c for c in b if isinstance(c, Term))
        return seen

    def depends(self, t, pred, through_phi=True):
        return any(pred(x) for x in self.subterms(t, through_phi))


class Guard:
    __slots__ = ("an", "node", "acc", "rej", "must")

    def __init__(self, an, node, acc, rej, must):
        self.an, self.node, self.acc, self.rej, self.must = an, node, acc, rej, must

    @property
    def cond(self):
        return self.an.simp(self.node.cond[0])

    def __repr__(self):
        return f"Guard[{self.node} {pp(self.cond, 5)} acc={self.acc} rej={self.rej} must={self.must}]"


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


def norm_op(op):
    return {"AddUnchecked": "Add", "SubUnchecked": "Sub", "MulUnchecked": "Mul", "ShlUnchecked": "Shl", "ShrUnchecked": "Shr"}.get(op, op)


def is_bool(c):
    return (c.op == "bin" and c.args[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")) or (c.op == "un" and c.args[0] == "Not") or c.op in ("more",) \
        or (c.op == "call" and (c.args[0].split("::")[-1].startswith("is_") or c.args[0].split("::")[-1] in ("contains", "eq", "ne")))


def ctx_bool(ty):
    return ty == "bool"


def fn_ty(ctx, o):
    if o[0] in "cm" and not o[1][1]:
        return ctx.fn.locals[o[1][0]][0]
    return "?"


def fn_block_unreachable(fn, bb):
    b = fn.blocks[bb]
    return b["t"][0] == "unreachable" and not b["s"]


def is_enum_agg(v):
    return v.op == "agg" and isinstance(v.args[2], tuple) and len(v.args[2]) == 2 and v.args[2][1] is True


def dest_is_mut_iter(ty):
    return "IterMut" in ty or "ChunksMut" in ty or "ChunksExactMut" in ty


def mentions_phi(t, d=0):
    if not isinstance(t, Term):
        return False
    if t.op == "phi":
        return True
    return d < 30 and any(mentions_phi(a, d + 1) for a in t.args if isinstance(a, Term))


_varies = {}


def varies(t):
    """does the term stand for a different value in each iteration of some loop"""
    r = _varies.get(t)
    if r is None:
        if t.op in ("elem", "optelem", "more", "idx", "ridx", "alt"):
            r = True
        else:
            r = any(varies(a) for a in t.args if isinstance(a, Term))
        _varies[t] = r
    return r


_tyre = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


def subst_ty(s, sub):
    def rep(m):
        w = m.group(0)
        if w in sub:
            i = m.start()
            # not a path segment
            if s[:i].endswith("::"):
                return w
            if w == "Self" and sub[w] == "Self":
                return w
            return sub[w]
        return w
    return _tyre.sub(rep, s)


def dropflags(fn):
    """compiler-introduced drop flags: unnamed bools that are only assigned constants and only
    tested in front of drop terminators"""
    if getattr(fn, "_df", None) is not None:
        return fn._df
    cand = {i for i, (ty, name) in enumerate(fn.locals) if ty == "bool" and name is None and i > fn.argc}
    uses = set()
    for b in fn.blocks:
        for s in b["s"]:
            if s[0] == "=":
                u = set()
                rv_uses(s[2], u)
                uses |= u
                if s[1][0] in cand and (s[2][0] != "use" or s[2][1][0] != "k"):
                    cand.discard(s[1][0])
        t = b["t"]
        if t[0] == "call":
            u = set()
            for a in t[2]:
                op_uses(a, u)
            uses |= u
            cand.discard(t[3][0])
        elif t[0] == "assert":
            op_uses(t[1], uses)
        elif t[0] == "switch" and t[1][0] in "cm" and t[1][1][0] in cand:
            if not any(fn.blocks[x]["t"][0] == "drop" and not fn.blocks[x]["s"] for x in succs(t)):
                cand.discard(t[1][1][0])
    fn._df = frozenset(cand - uses)
    return fn._df


def rng_proj(ix):
    if ix.op == "agg" and "Range" in str(ix.args[0]):
        return ("rng", *range_bounds(ix))
    return ("idx", ix)


def range_bounds(ix):
    nm = str(ix.args[0]).split("::")[-1]
    a = list(ix.args[3:])
    if nm == "Range":
        return (a[0], a[1])
    if nm == "RangeFrom":
        return (a[0], T("end"))
    if nm == "RangeTo":
        return (const(0), a[0])
    if nm == "RangeFull":
        return (const(0), T("end"))
    if nm == "RangeToInclusive":
        return (const(0), fold_bin("Add", a[0], const(1)))
    return (T("?"), T("?"))


def field(v, idx, name):
    if v.op == "agg":
        ops = v.args[3:]
        if v.args[0] == "closure" or v.args[0] in ("tuple", "array"):
            return ops[idx] if idx < len(ops) else UNDEF
        names = v.args[2][0] if v.args[2] else ()
        if name in names:
            i = names.index(name)
            return ops[i] if i < len(ops) else UNDEF
        return ops[idx] if idx < len(ops) else UNDEF
    if v.op == "store":
        base, pj, val = v.args
        p0 = pj[0]
        if p0[0] == "f":
            if p0[1] == idx or idx in (-1, 10 ** 6) and p0[2] == name:
                if len(pj) == 1:
                    return val
                return store(field(base, idx, name), pj[1:], val)
            return field(base, idx, name)
        if p0[0] == "d" and len(pj) > 1:
            p1 = pj[1]
            if p1[0] == "f" and (p1[1] == idx or idx in (-1, 10 ** 6) and p1[2] == name):
                return val if len(pj) == 2 else store(field(downcast(base, p0[1]), idx, name), pj[2:], val)
            return field(downcast(base, p0[1]), idx, name)
    if v.op == "as" and v.args[0].op == "optelem" and v.args[1] == "Some":
        return v.args[0].args[1]
    if v.op == "as" and v.args[0].op == "maybe" and v.args[1] == "Some":
        return v.args[0].args[0]
    if v.op == "as" and v.args[0].op == "tryconv" and v.args[1] == "Ok":
        return T("conv", *v.args[0].args)
    if v.op == "as" and v.args[0].op == "collectR" and v.args[1] == "Ok":
        return T("oks", v.args[0].args[0])
    if v.op == "undef":
        return UNDEF
    return T("field", v, name if name else str(idx))


def downcast(v, variant):
    if v.op == "agg":
        return v
    if v.op == "store" and v.args[1][0][0] == "d":
        return v
    if v.op == "undef":
        return UNDEF
    return T("as", v, variant)


def index(v, i):
    if i.op == "agg" and "Range" in str(i.args[0]):
        a, b = range_bounds(i)
        if a.op == "const" and a.args[0] == 0 and b.op == "end":
            return v
        return T("slice", v, a, b)
    if i.op == "rangei":
        return T("slice", v, i.args[0], fold_bin("Add", i.args[1], const(1)))
    if v.op == "agg" and v.args[0] == "array" and is_int_const(i):
        ops = v.args[3:]
        if i.args[0] < len(ops):
            return ops[i.args[0]]
    if v.op == "store":
        base, pj, val = v.args
        if pj[0][0] == "idx" and pj[0][1] is i:
            return val if len(pj) == 1 else store(index(base, i), pj[1:], val)
    if v.op == "fill":
        return v.args[0]
    return T("index", v, i)


def store(base, projs, val):
    # overwrite of the same field keeps one level
    if base.op == "agg" and projs[0][0] == "f" and not (base.args[0] == "closure"):
        ops = list(base.args[3:])
        idx = projs[0][1]
        names = base.args[2][0] if base.args[2] else ()
        if projs[0][2] in names:
            idx = names.index(projs[0][2])
        if idx < len(ops):
            ops[idx] = val if len(projs) == 1 else store(ops[idx], projs[1:], val)
            return T("agg", *base.args[:3], *ops)
    if base.op == "agg" and projs[0][0] == "d" and len(projs) > 1:
        return store(base, projs[1:], val)
    if base.op == "store" and base.args[1] == projs and not any(p[0] in ("el", "?") for p in projs):
        base = base.args[0]
    return T("store", base, projs, val)


ITOPS = ("itermut", "zip", "enumerate", "map", "rev", "take", "skip", "chain", "peekable", "filter", "takewhile", "skipwhile", "stepby")


def is_it_loop(fn, bb):
    return bb == 1 and fn.kind == "Model" and fn.blocks[1]["s"][:1] and fn.blocks[1]["s"][0][2][:2] == ["prim", "hasmore"]


def has_mref(v, d=0):
    """an iterator over references that can be written through"""
    return v.op == "mref" or d < 6 and v.op in ITOPS and any(has_mref(a, d + 1) for a in v.args if isinstance(a, Term))


def elem(it, site, st=None, an=None):
    """the element an iteration (identified by its site) sees"""
    op = it.op
    if op == "itermut":
        r = it.args[0]
        return T("mref", r.args[0], r.args[1], r.args[2] + (("el", site),))
    if op == "map":
        return resite(it.args[1], it.args[2], site)
    if op == "zip":
        return T("agg", "tuple", "", (), elem(it.args[0], site, st, an), elem(it.args[1], site, st, an))
    if op == "enumerate":
        return T("agg", "tuple", "", (), T("idx", it.args[0], site), elem(it.args[0], site, st, an))
    if op in ("peekable", "filter", "takewhile", "skipwhile"):
        return elem(it.args[0], site, st, an)
    if op in ("take", "rev", "stepby", "skip"):
        e = elem(it.args[0], site, st, an)
        if op == "take" or e.op in ("mref", "agg"):
            return e
        if e.op == "ridx" and op in ("rev", "stepby"):
            return T("ridx", e.args[0], e.args[1], e.args[2], op if not e.args[3] else e.args[3] + op)
        return T("elem", it, site)
    if op == "agg" and it.args[0].split("::")[-1] == "Range":
        return T("ridx", it.args[3], it.args[4], site, "")
    if op == "rangei":
        return T("ridx", it.args[0], fold_bin("Add", it.args[1], const(1)), site, "")
    if op == "agg" and it.args[0].split("::")[-1] == "RangeFrom":
        return T("ridx", it.args[3], T("end"), site, "")
    if op == "fill":
        return it.args[0]
    if op == "chain":
        return T("alt", elem(it.args[0], site, st, an), elem(it.args[1], site, st, an))
    if op == "agg" and it.args[0] == "array" and len(it.args) == 4:
        return it.args[3]
    if op == "mref" and an is not None:
        v = an.rd_ref(st, it)
        if v.op in ITOPS or (v.op == "agg" and "Range" in str(v.args[0])):
            return elem(v, site, st, an)
        return T("elem", v, site)
    return T("elem", it, site)


_resite = {}


def resite(t, old, new):
    if old == new:
        return t
    key = (t, old, new)
    r = _resite.get(key)
    if r is not None:
        return r
    _resite[key] = t
    if t.op in ("elem", "idx", "ridx") or any(isinstance(a, Term) for a in t.args):
        na = [resite(a, old, new) if isinstance(a, Term) else a for a in t.args]
        if t.op == "elem" and t.args[1] == old:
            na[1] = new
        elif t.op == "idx" and t.args[1] == old:
            na[1] = new
        elif t.op == "ridx" and t.args[2] == old:
            na[2] = new
        r = t if all(x is y for x, y in zip(na, t.args)) else T(t.op, *na)
    else:
        r = t
    _resite[key] = r
    return r


def rebuild(op, a):
    if op == "field":
        return field(a[0], int(a[1]) if str(a[1]).isdigit() else -1, a[1]) if a[0].op in ("agg", "store") else T("field", *a)
    if op == "as":
        return downcast(*a)
    if op == "index":
        return index(*a)
    if op == "bin":
        return fold_bin(*a)
    if op == "elem":
        return elem(a[0], a[1])
    return T(op, *a)
