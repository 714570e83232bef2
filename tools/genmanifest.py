#!/usr/bin/env python3
# Regenerates MANIFEST.json. CLAIMED lists the properties with a registered check.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(root, "tools/claimed.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("Bounded: every path of the real Go code (go/ssa of /repo's current tree) up to the harness bounds is executed "
        "symbolically and every assertion decided by z3 for all inputs of the path; counterexamples are replayed on the natively compiled code "
        "before they are reported, and a sample of paths is re-run natively to validate the encoding. Trusted: the SSA interpreter and its "
        "models of standard-library leaf functions, go/ssa, z3. Nothing is claimed outside the bounds listed in the evidence.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED["checks"]:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "symbolic execution of the real " + ("Python code over exact reals" if i == "C18" else "Go code from go/ssa") + "; z3 decides each assertion over all inputs within bounds; " + CLAIMED["checks"][i],
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": CLAIMED["na"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Each check builds /verif/engine (a symbolic executor for Go SSA) and runs the harness package /verif/harness/<id> against /repo's working tree (C18: /verif/pysym, a symbolic executor for the Python analysis; C25: /verif/harness_mbt). Tier from VERIF_TIER. No hooks in /repo: in-package access goes through build overlays."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
