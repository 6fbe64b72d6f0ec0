"""Writes MANIFEST.json from the checks present under an/checks."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HERE, "tools", "techniques.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "an", "checks", p.lower() + ".py")) and p in TECH:
        t, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "machinery not finished; see DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "bash extract/build.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: a libTooling front end dumps the type-checked program of every header and source, Python analyses decide the properties on the dump. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
