"""Prints the summary of functions:  python3 tools/show.py [-e] [-x depth] [-o opaque,..] crate[:Self]:name ..."""
import os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
from engine import *
from q import *
import facts


def show(prog, fn, depth, events, opaque):
    t = time.time()
    a = Analysis(prog, fn, opaque=(lambda f: f.name in opaque) if opaque else None)
    q = Q(a)
    print("==", fn.id, "nodes", len(a.live_nodes), "ctxs", len(a.ctxs), "overflow", a.overflow, "%.2fs" % (time.time() - t))
    for n in a.exits():
        cs = q.cases(n, n.exit)
        for c, v in cs if cs is not None and len(cs) < 12 else [((), n.exit)]:
            print("  EXIT", n.id, pp(q.norm(v), depth))
    oks = [n for n in a.exits() if n.exit.op != "agg" or n.exit.args[1] != "Err"]
    for g in a.guards(oks):
        p = q.accept(g)
        print("  guard", "MUST" if g.must else "    ", *[pp(x, 5) if isinstance(x, Term) else x for x in p])
    for h in a.loops():
        d = q.loop_domain(h)
        print("  loop", h, pp(d, 5) if d is not None else None)
    if events:
        for e in a.events:
            print("  ev", e)


if __name__ == "__main__":
    av = sys.argv[1:]
    events, depth, opaque = False, 8, ()
    while av and av[0].startswith("-"):
        f = av.pop(0)
        if f == "-e":
            events = True
        elif f == "-x":
            depth = int(av.pop(0))
        elif f == "-o":
            opaque = set(av.pop(0).split(","))
    prog = Prog(facts.ensure("par")[0])
    for x in av:
        p = x.split(":")
        for fn in prog.find(p[0], p[-1], p[1] if len(p) == 3 and p[1] else None):
            show(prog, fn, depth, events, opaque)
