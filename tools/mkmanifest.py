import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
from checks import CHECKS, NA
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Contracts and proof text: specs/*.vspec; extraction: tools/c2v.py; replay engines: replay/*.cpp"}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                            "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from the C++ AST"),
                            "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not yet under contract in this revision of the framework")})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(R + "/MANIFEST.json", "a").write("\n")
