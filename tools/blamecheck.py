#!/usr/bin/env python3
"""Development helper: do the planted bugs only change lines of the original repository?"""
import os, re, subprocess, sys
R = os.environ.get("SEED_REPO", "/repo")
base = subprocess.run(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
cache = {}
def blame(f):
    if f not in cache:
        out = subprocess.run(["git", "-C", R, "blame", "-l", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        cache[f] = [l.split()[0].lstrip("^") for l in out]
    return cache[f]
for i in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
    f = None; n = 0; bad = []; removed = 0
    for l in open(f"/verif/seeded/{i}/patch.diff"):
        if l.startswith("--- "): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            removed += 1
            if not base.startswith(blame(f)[n - 1][:39]): bad.append((f, n))
            n += 1
        elif l.startswith(" "): n += 1
    if bad or not removed: print(i, "removed", removed, "bad", bad)
