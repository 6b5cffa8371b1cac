#!/usr/bin/env python3
"""tables.py: rewrite the generated parts of DESIGN.md (repaired defects, seeded bugs)"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
fixed = []
for x in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", x)
    if m:
        fixed.append(f"* `{m[2]}` ({m[1]}) {m[3]}")
s = re.sub(r"(Repaired, each in a `fix:` commit[^\n]*\n\n).*?(\n\n)", lambda m: m[1] + "\n".join(fixed) + m[2], s, count=1, flags=re.S)
rows = []
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    rows.append("| " + " | ".join(x.replace("|", "/").replace("\n", " ") for x in (i, d["needs"], d["what_it_breaks"])) + " |")
s = re.sub(r"(\| id \| needs \| breaks \|\n\|[-| ]*\n)(\|[^\n]*\n?)*", lambda m: m[1] + "\n".join(rows) + "\n", s, count=1)
open(p, "w").write(s)
