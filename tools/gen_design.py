#!/usr/bin/env python3
"""Fills the lists of repairs and planted bugs in DESIGN.md from known_findings.json and seeded/ (run by hand before a commit)."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def block(name, text, s):
    b = f"<!-- {name} -->\n{text}\n<!-- /{name} -->"
    if f"@{name}@" in s: return s.replace(f"@{name}@", b)
    return re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda m: b, s, flags=re.S)
s = open(f"{R}/DESIGN.md").read()
fixes = "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"**\1** `\2` ", f["what"]) for f in sorted(json.load(open(f"{R}/known_findings.json"))["findings"], key=lambda f: f["property"]))
rows = ["| change | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = block("SEEDS", "\n".join(rows), block("FIXES", fixes, s))
open(f"{R}/DESIGN.md", "w").write(s)
