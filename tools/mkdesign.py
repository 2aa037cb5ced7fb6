"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"], m["property"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("| planted bug |")
i = s.index("\n", s.index("\n", i) + 1) + 1
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])
