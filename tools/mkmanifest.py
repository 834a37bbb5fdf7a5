"""Writes MANIFEST.json: claims the properties that have a module in lib/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib/props/%s.py" % i.lower())) and i in NOTE:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": NOTE[i]["technique"], "level": "model_checking", "level_note": NOTE[i]["note"]})
    else:
        na.append({"property": i, "reason": NOTE.get("_na", {}).get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py all", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print([c["property"] for c in checks])
