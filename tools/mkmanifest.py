"""Writes MANIFEST.json from the registered rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from vfa import props
NA = {}
if os.path.exists(os.path.join(V, "tools", "not_applicable.json")):
    NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
pids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in pids:
    if p in props.RULES:
        f, m = props.RULES[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
                       "technique": m.get("technique", "static analysis: " + m["rule"]), "level": m["level"], "level_note": m.get("note") or m["rule"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built yet for this property")})
out = {"version": 1, "setup_cmd": "python3 -m vfa.build walk io", "checks": checks, "not_applicable": na}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
