#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written prose, with the per-property facts taken from bin/config.py, properties.jsonl and seeded/."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from config import PROPS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
bugs = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(f)); bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))

HEAD = open(os.path.join(ROOT, "gen", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "gen", "design_tail.md")).read()
WHY = dict(re.findall(r"^(C\d\d): (.*)$", open(os.path.join(ROOT, "gen", "design_props.md")).read(), re.M))
out = [HEAD.rstrip(), "", "## The properties, one by one", ""]
for p in props:
    c = PROPS[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    if p["id"] in WHY:
        out += [WHY[p["id"]], ""]
    out.append("- level: %s; decided by: %s." % (c["level"], c["technique"]))
    if c.get("functions"):
        out.append("- under contract: " + "; ".join(c["functions"]) + ".")
    if c.get("verus"):
        out.append("- Verus units: " + ", ".join("verus/%s.vrs" % u for u in c["verus"]) + ".")
    out.append("- reach: " + c["note"])
    for a in c.get("assumptions") or []:
        out.append("- assumed: " + a + ".")
    for b, m in bugs.get(p["id"], []):
        out.append("- planted: `%s` (%s) — caught." % (b, m["what_it_breaks"].rstrip(".")))
    out.append("")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n" + TAIL)
print(len(out), "lines")
