#!/usr/bin/env python3
"""Adds or replaces a line of properties.jsonl, read from stdin as JSON."""
import json, sys
d = json.load(sys.stdin)
L = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
L[d["id"]] = d
with open("/verif/properties.jsonl", "w") as f:
    for k in sorted(L):
        f.write(json.dumps(L[k]) + "\n")
