"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tool/not_applicable.json"))
TECH = json.load(open(V + "/tool/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i)) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py quick" % i, "thorough_cmd": "python3 checks/%s.py thorough" % i,
                       "technique": TECH[i][0], "level": "other", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 engine/frontend.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: every check parses /repo's current sources with a libTooling exporter (tool/sexport.cpp), brings effects to a value-flow normal form (engine/interp.py) and compares them with specifications written in checks/."},
          open(V + "/MANIFEST.json", "w"), indent=1)
