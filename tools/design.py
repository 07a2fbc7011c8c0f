"""Rewrites the part of DESIGN.md from "## Properties" on from the property table, the descriptions of the checks, the planted bugs and the findings (run by hand; not used by checks)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "sa")]
from table import PROPS, NOT_CLAIMED
import core

core.load_rules()
out = ["## Properties", "",
       "Per property: what is decided and how (the text of the check), against which oracle, within which bounds, and why the tests do not reach it. "
       "The oracle is always the written-out rule in `sa/rules`: the formula, the order of steps, the guards that the property's text calls for. "
       "Cost: one check takes 1 to 9 s once the facts are there; dumping the facts takes about 70 s from nothing and 4 s after an edit.", ""]
for p in PROPS:
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if i in NOT_CLAIMED:
        out += [f"Not applicable: {NOT_CLAIMED[i]}", ""]
        continue
    c = core.REGISTRY[i]
    mod = os.path.basename(c.fn.__code__.co_filename)
    n, fns = "?", "?"
    try:
        e = json.load(open(os.path.join(V, "evidence", i + ".json")))["coverage"]
        n, fns = e["facets_hold"], e["functions_analysed"]
    except (OSError, KeyError):
        pass
    out += [f"* Decided (`sa/rules/{mod}`): {c.doc}",
            f"* Technique: {p['tech']}. {n} facets over {fns} functions on the unchanged tree; fails below {c.floor} anchors.",
            f"* Bounds: {p['quant']}.",
            f"* Beyond the tests: {p['why']}", ""]
out += ["## Planted bugs", "", "All are caught by the check of the property they break (vcheck runs them).", "", "| bug | property | needs | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
k = json.load(open(os.path.join(V, "known_findings.json")))
out += ["", "## Findings in the repository", "", "Recorded and reported on every run (not changed, because the fix is not small or would change an interface):", ""]
out += [f"* {x['property']}: {x['what']}" for x in k["findings"]]
out += ["", "Fixed in /repo, each in its own commit; the check that found it holds since:", ""]
out += [f"* {x.removeprefix('fixed: property=')}" for x in k["fixed"]]
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split("## Properties\n")[0]
open(p, "w").write(head + "\n".join(out) + "\n")
