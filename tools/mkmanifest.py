#!/usr/bin/env python3-vt
"""writes MANIFEST.json from the registry (claimed properties) and the list of reasons below"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import props
P = props.props()
REASONS = {
    "C21": "Backward stability is a statement about rounding errors; the contracts used here treat kernel arithmetic as uninterpreted, and no installed deductive back end carries a rounding-error analysis of C/BLAS code.",
    "C22": "Convergence of the iterative eigenvalue/singular-value routines to the right values is a numerical property (bisection with rounded Sturm counts, bulge chasing); no contract within reach of the verifier expresses accuracy of floating-point iterations.",
    "C23": "The panel is a busy-waiting multi-threaded algorithm on shared memory; termination and agreement under all interleavings is a concurrency/liveness property that function contracts cannot decide.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in P:
        p = P[i]
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s" % i, thorough_cmd="python3-vt check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=p.technique, level=p.level, level_note=p.note))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, "No check built yet.")))
m = dict(version=1, setup_cmd="python3-vt -B -c 'import z3, numpy, scipy, lark'", checks=checks, not_applicable=na,
         notes="Every check extracts the functions from /repo's current sources on each run; see DESIGN.md. No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
