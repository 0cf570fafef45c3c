#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json
AI = "abstract interpretation of the source (go/ssa), with a domain of regular languages, linear forms and civil time, against an independent reference resolution"
NOTE = ("A deductive static argument over the current source: every string of the analysed classes is covered, whatever its digits. "
        "Trusted: go/ssa, the interpreter's transfer functions and its models of the standard library, and the reference resolution. "
        "Strings of the grammar outside the analysed classes (listed in DESIGN.md) are not covered; units the analysis gives up on are listed as undecided and never reported as violations.")
C = {}
for i in "C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C21 C24".split():
    C[i] = (AI, NOTE)
CUSTOM = {}
NA = {}
exec(open(__file__.replace("mkmanifest.py", "manifest_custom.py")).read())
C.update(CUSTOM)
m = {"version": 1, "setup_cmd": "./check.sh",
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                 "technique": t, "level": "other", "level_note": n} for i, (t, n) in sorted(C.items())],
     "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())],
     "notes": "One checker (checker/, Go, vendored dependencies) decides every property from /repo's current source; check.sh builds and runs it. No hooks in /repo."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
