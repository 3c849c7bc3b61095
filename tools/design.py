"""rewrites the property table of DESIGN.md from meta/props.py and checks.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "meta"))
import props
c = json.load(open(os.path.join(H, "checks.json")))["checks"]
rows = ["| %s | %s | %s | %s |" % (p["id"], ", ".join(c[p["id"]]["units"]), p["note"], c[p["id"]]["bounded"]) for p in sorted(props.PROPS, key=lambda p: p["id"]) if p["id"] in c]
out, done = [], False
for l in open(os.path.join(H, "DESIGN.md")).read().split("\n"):
    if l.startswith("| C") and l[3:5].isdigit():
        if not done:
            out += rows
            done = True
        continue
    out.append(l)
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
