#!/usr/bin/env python3
"""MANIFEST.json from checks.json, properties.jsonl and not_applicable.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/not_applicable.json"))
checks = []
for p in props:
    i = p["id"]
    if i not in cfg:
        assert any(n["property"] == i for n in na), i
        continue
    c = cfg[i]
    tech = "contract-based deductive verification (Verus) of the functions extracted from /repo on every run; executable form of the same contract on the compiled crates for failing inputs" if c["contracts"] else "bounded check of the executable contract on the compiled crates"
    note = c.get("note", "Every obligation of the functions under contract is discharged by Verus/Z3 for all inputs; the executable contract is bounded and never counted as proved.") + " Assumes: " + "; ".join(c.get("assumptions", [])) + "."
    e = {"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
         "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", tech), "level": c["level"], "level_note": note}
    if c.get("theorems"): e["theorems"] = c["theorems"]
    checks.append(e)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the verified text is extracted from the unmodified sources and the executable contracts use public API only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
