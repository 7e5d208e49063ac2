"""Rewrites the table of seeded changes in DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seeded change | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
