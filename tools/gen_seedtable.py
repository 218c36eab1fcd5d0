#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and the results tools/seed.py recorded."""
import json, pathlib, re
HERE = pathlib.Path(__file__).resolve().parent.parent
res = json.loads((HERE / "tools/seed/results.json").read_text())
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted((HERE / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    r = res.get(d.name, {})
    c = "; ".join("%s (run %s, %s)" % (p, x["run"], x["what"]) if x["rc"] == 1 else "%s: not caught" % p for p, x in sorted(r.items())) or "not run"
    rows.append("| %s | %s | %s | %s |" % (d.name, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"), c))
f = HERE / "DESIGN.md"
t = f.read_text()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = t.index(a) + len(a), t.index(b)
f.write_text(t[:i] + "\n".join(rows) + "\n" + t[j:])
