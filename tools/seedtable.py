"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} |")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = t.index("<!-- seeds -->"), t.index("<!-- /seeds -->")
open(p, "w").write(t[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + t[b:])
