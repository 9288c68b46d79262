#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and the results of try_seed.sh (first argument)."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
family = {}
with open(sys.argv[1], errors="replace") as f:
    for line in f:
        m = re.match(r"(\S+) (\S+): demo clean=0 build=0 tests=0 demo=[^0]\S* check=1 .*?family ([^:]+):", line)
        if m:
            family[m[1]] = m[3]
rows = ["| bug | property | caught by family | needs |", "|---|---|---|---|"]
missed = []
for name in sorted(os.listdir(os.path.join(V, "seeded"))):
    with open(os.path.join(V, "seeded", name, "meta.json")) as f:
        meta = json.load(f)
    if name not in family:
        missed.append(name)
    rows.append("| %s | %s | %s | %s |" % (name, meta["property"], family.get(name, "(see below)"), meta["needs"].replace("|", "/")))
path = os.path.join(V, "DESIGN.md")
with open(path) as f:
    text = f.read()
text = re.sub(r"<!-- seeds -->.*<!-- end -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", text, flags=re.S)
with open(path, "w") as f:
    f.write(text)
print(len(rows) - 2, "bugs, without a result:", missed)
