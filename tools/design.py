#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
rows = ["| planted | caught by | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]),
                                     " ".join(m["what_it_breaks"].replace("|", "/").split())))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- end seeded -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
