#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the contracts."""
import json, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tags = {}
for f in glob.glob(V + "/contracts/*.vc"):
    for m in re.finditer(r"^@\w+\[([^\]]*)\]", open(f).read(), re.M):
        for t in m.group(1).split(","):
            tags.setdefault(t.strip(), set()).add(os.path.basename(f)[:-3])
checks, na = [], []
NOTES = json.load(open(V + "/lib/notes.json")) if os.path.exists(V + "/lib/notes.json") else {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in tags:
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {i}",
            "technique": "contract-based deductive verification (Verus) of mechanically extracted code",
            "level": "proof",
            "level_note": NOTES.get(i, "") or ("All obligations of the contracts tagged %s in %s, for all inputs, states and loop iterations. Trusted: the near-sdk shim contracts (contracts/rt.rs), the extraction by vx, Verus/Z3. A panicking call rolls back; calls that must not panic have obligations of their own." % (i, ", ".join(sorted(tags[i])))),
        })
    else:
        na.append({"property": i, "reason": NOTES.get("na_" + i, "contracts not written yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: vx reads the unmodified source, the native harness compiles it as a path dependency."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
