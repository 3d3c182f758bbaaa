"""Writes MANIFEST.json from contracts/props.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.props import NOT_APPLICABLE, PROPS

BASE = ("Every obligation generated from the current source of the functions under contract (and of every function they "
        "call) is discharged by Verus/Z3, for all inputs. Trusted: the front end /verif/pyv (semantics of the Python "
        "subset), Verus and Z3, the axioms listed in the evidence. ")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import sys; sys.path.insert(0, \".\"); from pyv import prove; prove.world_spec()' && verus --version",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks: python3-vt -m pyv.check; see DESIGN.md. known_findings.txt lists repaired defects.",
}
for p in ids:
    if p in PROPS:
        m["checks"].append({
            "property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "contract-based deductive verification (contracts on the Python functions, obligations discharged by Verus/Z3)",
            "level": PROPS[p].get("level", "proof"), "level_note": BASE + PROPS[p].get("note", "")})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no contracts yet for the functions it depends on")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
