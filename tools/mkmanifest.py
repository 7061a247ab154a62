"""writes MANIFEST.json; run by hand when the claimed set changes"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(HERE, "tools", "claimed.txt")).read().split("\n")
claimed, na = [], []
for l in CLAIMED:
    if l.startswith("+"):
        p, note = l[1:].split(" ", 1)
        claimed.append((p, note))
    elif l.startswith("-"):
        p, note = l[1:].split(" ", 1)
        na.append((p, note))
T = "contract-based deductive verification: contracts on the Go functions, verification conditions generated from go/ssa of /repo's current source, discharged by z3 and exact polynomial arithmetic"
m = {"version": 1, "setup_cmd": "cd frontend && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null . && python3-vt -c 'import z3, sympy'",
     "checks": [{"property": p, "quick_cmd": "python3-vt engine/run.py %s --tier quick" % p, "thorough_cmd": "python3-vt engine/run.py %s --tier thorough" % p,
                 "technique": T, "level": "proof", "level_note": note} for p, note in claimed]}
m["not_applicable"] = [{"property": p, "reason": n} for p, n in na]
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
