#!/usr/bin/env python3
"""Development helper: DESIGN.md from design_head.md, design_props.md and the planted bugs.
tools/detected.txt has lines "id property exit-code" from seed.sh (the last one for an id counts)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = lambda n: open(os.path.join(here, "tools", n)).read()
res = {}
for l in t("detected.txt").splitlines():
    a = l.split()
    res[a[0]] = a
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    r = res.get(d)
    c = "not tried yet" if r is None else (r[1] + " catches it") if r[2] == "1" else "missed"
    rows.append("| `%s` | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "\\|"), c))
with open(os.path.join(here, "DESIGN.md"), "w") as f:
    f.write(t("design_head.md") + t("design_props.md"))
    f.write("## 5. Planted bugs and what catches them\n\nEach was confirmed to pass the 29 stable tests, with a demonstration that fails with it and passes without. %d in all.\n\n| bug | property | needs | result (quick tier) |\n|---|---|---|---|\n" % len(rows))
    f.writelines(rows)
    f.write("\n" + t("design_tail.md"))
