"""Records every "fix:" commit of /repo in known_findings.json (property given by tools/fixprops.json: hash or subject fragment -> property)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(V, "tools", "fixprops.json")))
k = json.load(open(os.path.join(V, "known_findings.json")))
k["fixed"] = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.split("\n"):
    g = re.match(r"(\w+) fix: (.*)", l)
    if g:
        p = next((v for f, v in m.items() if f in l), None)
        if not p:
            print("no property for", l)
        k["fixed"].append("fixed: property=%s %s what failed (now repaired): %s" % (p, g[1], g[2]))
json.dump(k, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
