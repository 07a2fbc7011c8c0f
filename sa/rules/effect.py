"""What a function does to a value, as a tree of writes: [alternative], alternative = [item], item = ("set", path, value) | ("loop", header, domain, [alternative]) | ("call", call)."""
from common import *


def effect(q, t, stop, depth=0, seen=()):
    """alternatives of what was done to stop to get t; None when t does not come from it"""
    t = q.an.simp(t)
    if t is stop or q.norm(t) is stop:
        return [[]]
    if depth > 60 or t in seen:
        return None
    seen = seen + (t,)
    if t.op == "store":
        r = effect(q, t.args[0], stop, depth + 1, seen)
        return None if r is None else [a + [("set", path_text(q, t.args[1]), q.norm(t.args[2]))] for a in r]
    if t.op == "push":
        r = effect(q, t.args[0], stop, depth + 1, seen)
        return None if r is None else [a + [("set", ("push",), q.norm(t.args[1]))] for a in r]
    if t.op == "out" and t.args[0].op == "call" and isinstance(t.args[1], int):
        c = t.args[0]
        r = effect(q, c.args[2 + t.args[1]], stop, depth + 1, seen) if 2 + t.args[1] < len(c.args) else None
        return None if r is None else [a + [("call", c, t.args[1])] for a in r]
    if t.op == "phi":
        h = t.args[0]
        loops = q.an.loops()
        if h in loops:
            body, latches = loops[h]
            ins = phi_edges(q, t)
            if ins is None:
                return None
            init, step = [], []
            for p, x in ins:
                (step if p in body else init).append(x)
            r = []
            for x in init:
                e = effect(q, x, stop, depth + 1, seen)
                if e is None:
                    return None
                r += e
            b = []
            for x in step:
                e = effect(q, x, t, depth + 1, ())
                if e is None:
                    return None
                b += e
            b = dedup(b)
            if b == [[]]:
                return dedup(r)
            return dedup([a + [("loop", h, q.loop_domain(h), b)] for a in r])
        r = []
        for x in {x: 0 for x in q.an.phis.get(t, {}).values() if x.op != "undef"}:
            e = effect(q, x, stop, depth + 1, seen)
            if e is None:
                return None
            r += e
        return dedup(r)
    n = q.norm(t)
    return effect(q, n, stop, depth + 1, seen) if n is not t else None


def phi_edges(q, ph):
    """[(predecessor, value)] of a join"""
    e = q.an.phis.get(ph)
    return None if e is None else [(p, q.an.simp(v)) for p, v in e.items() if v.op != "undef"]


def dedup(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def path_text(q, p):
    """field names as strings, positions as terms"""
    return tuple(x[-1] if x[0] == "f" else q.norm(x[1]) if isinstance(x[1], Term) else x[1] for x in p)


def etext(alts, depth=6, ind=0):
    if alts is None:
        return " " * ind + "?\n"
    s = ""
    for i, a in enumerate(alts):
        s += " " * ind + f"alt {i}\n"
        for it in a:
            if it[0] == "set":
                s += " " * ind + "  " + ".".join(pp(x, depth) if isinstance(x, Term) else str(x) for x in it[1]) + " = " + pp(it[2], depth) + "\n"
            elif it[0] == "call":
                s += " " * ind + "  call " + pp(it[1], 3) + f" #{it[2]}\n"
            else:
                s += " " * ind + f"  loop {pp(it[2], 5) if it[2] is not None else None}\n" + etext(it[3], depth, ind + 4)
    return s
