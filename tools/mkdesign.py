"""DESIGN.md from its two hand-written parts, the checks' notes and the planted bugs (caught.json: what seedtool saw)"""
import glob, json, os, re, sys, textwrap
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from checks import CHECKS
import vrun
H = open(R + "/tools/design_head.md").read(); T = open(R + "/tools/design_tail.md").read()
why = json.load(open(R + "/tools/design_props.json"))
out = [H]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); c = CHECKS.get(p["id"])
    if not c: continue
    out.append("**%s %s.**  Units: %s.  %s" % (p["id"], p["title"], ", ".join("`%s`" % u for u in c["units"]), c["note"]))
    if c.get("assume"): out[-1] += "  Assumes: " + "; ".join(c["assume"]) + "."
    if p["id"] in why: out[-1] += "  " + why[p["id"]]
    out[-1] = "\n".join(textwrap.wrap(out[-1], 140)) + "\n\n"
fix = "".join("* " + l[len("fixed: property="):].strip() + "\n" for l in open(R + "/known_findings.txt") if l.startswith("fixed:"))
caught = json.load(open(R + "/tools/caught.json"))
seeds = "| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    seeds += "| %s | %s | %s | %s |\n" % (i, m["what_it_breaks"], m["needs"], caught.get(i, "%s" % m["property"]))
out.append(T.replace("FIXES\n", fix).replace("SEEDS\n", seeds))
open(R + "/DESIGN.md", "w").write("".join(out))
