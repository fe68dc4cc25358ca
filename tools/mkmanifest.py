"""Write MANIFEST.json from properties.jsonl and contracts/info.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from contracts import info
NA = []
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    d = info.INFO[p]
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                   "technique": info.technique(p), "level": d["level"],
                   "level_note": (d["note"] + " " + info.BASE_NOTE).strip() if d["level"] == "proof" else d["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3\"", "checks": checks, "not_applicable": NA,
     "notes": "No hooks: the checks read and run /repo/framework_python as it is. The Java and Scala parts and the "
              "ANTLR-based CogniLang parser cannot be built here (no toolchain plugins, no generated parser) and no "
              "property is stated about them; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
