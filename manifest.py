#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (what is claimed) and properties.jsonl."""
import json, os
import props
V = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "not_applicable.json")))
checks = []
for p in P:
    if p["id"] in props.PROPS:
        q = props.PROPS[p["id"]]
        checks.append(dict(
            property=p["id"], quick_cmd="python3 check.py run " + p["id"], thorough_cmd="python3 check.py run " + p["id"],
            evidence_file="evidence/%s.json" % p["id"], level="model_checking",
            technique="symbolic execution of the compiler's IR of the real code, SMT (z3)",
            level_note="Decided for every input within the bounds: %s. Not covered: %s. Trusts the engine (its paths are "
                       "replayed natively, its queries sampled with cvc5), rustc's IR for riscv64 and the stand-ins "
                       "listed in DESIGN.md." % (q["bounds"], q.get("outside", "nothing else"))))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks,
         not_applicable=[n for n in NA if n["property"] not in props.PROPS],
         notes="No hooks in /repo: everything goes through the public interface of koopa and libkoopa.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [p["id"] for p in P if p["id"] not in props.PROPS and p["id"] not in [n["property"] for n in NA]])
