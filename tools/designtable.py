"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a = s.index(rows[0])
b = a
for line in s[a:].split("\n"):
    if not line.startswith("|"):
        break
    b += len(line) + 1
open(p, "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])
