#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
    "P31": "a bound on accumulated rounding over arbitrarily long programs needs floating-point semantics without a "
           "bound on the number of moves: no bounded symbolic execution can decide it, and sampling is not this "
           "technique (single rounding steps that abort planning are covered by P11's 'rounded norms' cases)",
    "P32": "the oracle is the real firmware on real hardware; it is not part of this codebase and cannot be encoded",
}
NOTE = ("bounded symbolic execution of the current sources in /repo: every assertion on every path within the stated "
        "bounds is an SMT query over all values of the symbolic inputs; counterexamples are replayed on the unpatched "
        "code. Trusts the symbolic shims for numpy/yaml/io (symx/shims.py), the polynomial normal form, z3 and cvc5; "
        "numbers are reals unless a case models rounding.")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python /verif/check.py {i} quick",
                           thorough_cmd=f"/opt/venv/bin/python /verif/check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", level="model_checking",
                           technique="symbolic execution of the Python source with SMT (z3, cvc5) over all inputs within bounds",
                           level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "harness not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/setup_check.py", checks=checks, not_applicable=na,
         notes="No hooks are needed: the engine loads /repo's sources itself (symx/loader.py) and drives the public API. "
               "Bounds per property are in DESIGN.md and in the evidence files.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
