#!/usr/bin/env python3
"""mkseed.py FILE: each entry of SEEDS in FILE is edited into /tmp/seed/repo, checked and stored."""
import json, os, runpy, shutil, subprocess, sys
V = "/verif/seeded"
m = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for s in m["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(V, s["id"])
    os.makedirs(d, exist_ok=True)
    for f, a, b in s["edits"]:
        p = os.environ.get("SEED_REPO", "/tmp/seed/repo") + "/" + f
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    if "main" in s:
        open(d + "/main.rs", "w").write(s["main"])
    if "c" in s:
        open(d + "/main.c", "w").write(s["c"])
    shutil.copy("/verif/tools/demo.sh" if "demo" not in s else s["demo"], d + "/demo.sh")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("==", s["id"], flush=True)
    subprocess.run(["bash", "/verif/tools/seed.sh", s["id"]])
