"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    by.setdefault(m["property"], []).append((i, m["needs"]))
n = sum(map(len, by.values()))
out = [f"{n} planted bugs; each is caught (VIOLATION line, exit 1) by its own property's",
       "quick check, on the seed vcheck uses. What each needs in order to show is in its",
       "`meta.json`. Those that were missed at first are the reason for much of the",
       "machinery above (section 7.2).", "", "### 7.1 By property", "",
       "| property (check) | planted bugs caught |", "|---|---|"]
for p in sorted(by):
    out.append(f"| {p} | " + ", ".join(i for i, _ in by[p]) + " |")
p = V + "/DESIGN.md"
t = open(p).read()
a = t.index("<!-- seeds -->") + len("<!-- seeds -->\n")
z = t.index("<!-- /seeds -->")
open(p, "w").write(t[:a] + "\n".join(out) + "\n" + t[z:])
