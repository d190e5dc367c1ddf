#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties and the reasons for the others"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl", encoding="utf8")]
CLAIMED = open(V + "/tools/claimed.txt").read().split()
NA = {
 "C20": "the JSON is produced by encoding/json through reflection over struct tags and run-time types; no contract on functions of this repository expresses it (the repository's part is the Marshal call), so deductive verification of the code in /repo decides nothing about it",
}
TECH = "contract-based deductive verification: verification conditions from the SSA form of /repo's current Go code (per-function contracts, loop invariants, frame conditions), discharged by z3; failed obligations replayed by a search against the real code"
NOTE = "Every obligation is unbounded (all inputs, all iterations) and is regenerated from the current source on every run. Assumed: the contracts given to standard library functions, the SSA builder, z3, memory not exhausted, texts below 2^62 bytes. The concrete search that runs beside the proof is bounded and counts for nothing but failing inputs."
EXTRA = {}
try: EXTRA = json.load(open(V + "/tools/notes.json"))
except OSError: pass
checks = []; na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = {"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
             "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")}
        if i in EXTRA.get("tech", {}): c["technique"] = EXTRA["tech"][i]
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its contracts are not written yet")})
m = {"version": 1, "setup_cmd": "python3-vt setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), ensure_ascii=False, indent=1)
