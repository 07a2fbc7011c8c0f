"""Registry and reporting shared by the rules."""
import glob, importlib, os, sys
from engine import Analysis, Anchor, Prog, T, Term, const, pp
from q import Q

REGISTRY = {}


class Check:
    pass


def check(pid, crates, doc, configs=("par",), assumptions=(), floor=1):
    def deco(fn):
        c = Check()
        c.pid, c.crates, c.doc, c.configs, c.assumptions, c.fn, c.floor = pid, set(crates), " ".join(doc.split()), tuple(configs), list(assumptions), fn, floor
        REGISTRY[pid] = c
        return fn
    return deco


def load_rules():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules")
    sys.path.insert(0, d)
    for f in sorted(glob.glob(os.path.join(d, "*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.failures, self.unknown, self.passed = [], [], {}
        self.npass = 0
        self.units = []
        self.functions = set()
        self.nodes = 0
        self.anchors = 0

    def fail(self, facet, where, msg):
        key = f"{self.pid}:{facet}:{where}"
        if not any(f["key"] == key and f["msg"] == msg for f in self.failures):
            self.failures.append({"key": key, "where": where, "msg": msg})

    def ok(self, facet, where):
        self.npass += 1
        self.passed[facet] = self.passed.get(facet, 0) + 1

    def unk(self, facet, where, why=""):
        self.unknown.append(f"{facet} {where} {why}".strip())

    def verdict(self, v, facet, where, msg):
        """v: True holds, False broken, None undecided"""
        if v is True:
            self.ok(facet, where)
        elif v is False:
            self.fail(facet, where, msg)
        else:
            self.unk(facet, where, msg if v is None else "")
        return v

    def analyse(self, prog, fn, **kw):
        an = Analysis(prog, fn, **kw)
        self.functions |= {f for f in an.inlined if not f.startswith("model::")}
        self.nodes += len(an.live_nodes)
        self.anchors += 1
        return an, Q(an)

    def anchor(self, prog, crate, name, self_head=None, trait=None, pred=None):
        """resolve an anchor; a missing one is reported and None returned"""
        try:
            return prog.one(crate, name, self_head, trait, pred)
        except Anchor as e:
            self.fail("anchor", f"{crate}::{(self_head + '::') if self_head else ''}{name}", str(e))
            return None

    def finish_counts(self, chk):
        if not self.failures and self.anchors < chk.floor:
            self.fail("floor", "anchors", f"only {self.anchors} anchor functions analysed, at least {chk.floor} expected")
