"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; not used by checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import PROPS, NOT_CLAIMED

NOTE = ("Static: rustc lowers the current sources of /repo to MIR (all workspace crates), a value-flow summary of the anchored functions is built with helpers, closures and iterator chains "
        "inlined, and the listed facets are decided on it. A facet the analysis cannot decide is printed as undecided and does not count as held. Trusted: rustc's lowering, the models of std/rayon/itertools "
        "combinators, signature-level stand-ins for crates that are not available offline. Not decided: behaviour of dependencies (field and curve arithmetic, serialisation of foreign types).")
checks = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
        if p["id"] in NOT_CLAIMED:
            continue
        c = {"property": p["id"], "quick_cmd": f"python3 sa/run.py {p['id']}", "evidence_file": f"evidence/{p['id']}.json",
             "technique": p["tech"], "level": "other", "level_note": NOTE + " " + p.get("note", "")}
        c["level_note"] = c["level_note"].strip()
        checks.append(c)
man = {"version": 1, "setup_cmd": "python3 sa/facts.py par seq", "hooks": {"guard": "none", "enable": "no hooks are needed: private items are read from MIR", "source_commits": []},
       "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NOT_CLAIMED.items()],
       "notes": "One engine (sa/engine.py, sa/q.py) over MIR facts dumped by a rustc driver (sa/driver/main.rs) on a generated side-car workspace (sa/mkws.py) whose src directories are links into /repo. "
                "Rules are in sa/rules. Facts are cached in .work by content hash, so any source edit is re-analysed; checks do the setup on demand."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
