"""Section 8 of DESIGN.md: which check catches which planted bug."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 8. Planted bugs\n"
rows = []
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append((m["property"], s, m["needs"]))
rows.sort()
text = MARK + """
Each is a patch in `seeded/<id>/` with a demonstration; all pass the 252 tests. They were written from the text of the
properties and the code. The check named in the first column reports each of them (exit 1, replayed on the real code).

| caught by | bug | what it needs to show |
|---|---|---|
""" + "".join("| %s | %s | %s |\n" % (p, s, n.replace("|", "/")) for p, s, n in rows)
d = open(os.path.join(V, "DESIGN.md")).read()
d = d.split(MARK)[0] + text
open(os.path.join(V, "DESIGN.md"), "w").write(d)
