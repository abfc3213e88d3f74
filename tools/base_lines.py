#!/usr/bin/env python3
"""Each line that a planted change removes must be one of the original repository."""
import glob, subprocess
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None
    bad = []
    n = 0
    for l in open(d):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = subprocess.run(["git", "-C", "/repo", "show", "4f5a775:" + l[6:]], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:] not in f:
                bad.append(l)
    print(d.split("/")[-2], "removed", n, "bad", bad)
