"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MARK = "## Planted bugs\n"
rows = {}
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.setdefault(m["property"], []).append("| `%s` | %s | %s |" % (i, m["needs"].replace("|", "\\|").replace("\n", " "), m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip("\n") + "\n\n" + MARK + """
%d changes, written from the properties and the code in eleven rounds; each breaks its property, builds and passes the 98
tests. Every one of them is caught by the quick check of the property it is filed under (each was run against that check when
it was planted; where the check missed it at first, the check was extended until it was caught, see above, and the full
`vcheck` runs twelve random ones each time). None of them is known to be missed.
""" % sum(map(len, rows.values()))
for k in sorted(rows):
    s += "\n### Caught by %s\n\n| change | needs | breaks |\n|---|---|---|\n%s\n" % (k, "\n".join(rows[k]))
open(p, "w").write(s)
