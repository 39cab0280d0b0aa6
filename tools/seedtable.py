#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(p))
    t = " ".join(m["what_it_breaks"].split()).replace("|", "/")
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {t[:150] + ('…' if len(t) > 150 else '')} |")
text = "\n".join(["<!-- seeds -->", "| planted bug | caught by | what it breaks |", "|---|---|---|"] + rows + ["<!-- /seeds -->"])
d = os.path.join(ROOT, "DESIGN.md")
s = open(d).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: text, s, flags=re.S)
open(d, "w").write(s)
print(len(rows), "planted bugs")
