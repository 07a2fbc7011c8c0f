"""Runs one check:  python3 sa/run.py <property id>

exit 0  the property's rules hold on /repo's current sources (known findings are printed)
exit 1  a rule is broken; a line  VIOLATION property=<id> replay=<report>  is printed
exit 2  the check itself failed"""
import importlib, json, os, sys, time, traceback

SA = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, SA)
import facts
from core import REGISTRY, Report, load_rules

VERIF = facts.VERIF
EVID = os.environ.get("SA_EVID", os.path.join(VERIF, "evidence"))


def main():
    # the same order of work on every run
    hs = os.environ.get("SA_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != hs:
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED=hs))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    load_rules()
    chk = REGISTRY[pid]
    rep = Report(pid)
    try:
        progs = {}
        for cfg in chk.configs:
            fd, meta = facts.ensure(cfg)
            rep.units.append({k: meta[k] for k in ("config", "key", "crates", "failed", "files", "seconds")})
            bad = [c for c in meta["failed"] if c in chk.crates]
            for c in bad:
                rep.fail("typecheck", c, f"crate {c} does not type-check, nothing can be established: " + " | ".join(meta["errors"].get(c, ["(a dependency failed)"]))[:700])
            if not bad:
                from engine import Prog
                progs[cfg] = Prog(fd)
        if len(progs) == len(chk.configs):
            chk.fn(rep, *[progs[c] for c in chk.configs])
    except facts.FactsError as e:
        rep.fail("typecheck", "workspace", str(e))
    rep.finish_counts(chk)
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)["findings"] if k["property"] == pid]
    keys = {k["key"]: k for k in known}
    new, old = [], []
    for v in rep.failures:
        (old if v["key"] in keys else new).append(v)
    for u in rep.units:
        print(f"analysed config={u['config']} crates={len(u['crates'])} files={u['files']} facts={u['key']}")
    print(f"{pid}: {len(rep.functions)} functions analysed, {rep.npass} facets hold, {len(rep.unknown)} undecided, {len(rep.failures)} broken")
    for u in rep.unknown:
        print(f"  undecided {u}")
    for k in sorted({v["key"] for v in old}):
        print(f"KNOWN-FINDING: property={pid} {keys[k]['what']}")
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": chk.doc, "crates_analysed": sorted({c for u in rep.units for c in u["crates"]}), "source_files_hashed": max([u["files"] for u in rep.units] or [0]),
                       "functions_analysed": len(rep.functions), "flow_nodes": rep.nodes, "anchors_resolved": rep.anchors, "facets_hold": rep.npass, "facets_undecided": rep.unknown,
                       "facets_broken": [v["key"] for v in rep.failures], "facets": rep.passed},
          "wall_s": round(time.time() - t0, 2), "assumptions": chk.assumptions, "violations": [v["key"] + ": " + v["msg"] for v in new]}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(EVID, pid + ".report.txt")
        with open(rp, "w") as f:
            for v in new:
                line = f"[{v['key']}] {v['where']}: {v['msg']}"
                print(line)
                f.write(line + "\n")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
