#!/usr/bin/env python3
"""Development helper: runs tools/seed.py on several planted bugs in parallel, each in
a private mount namespace where copies of /repo and /verif take their places.
seedpar.py [-j N] [--nocheck] ID..."""
import json, os, queue, re, subprocess, sys, threading
args = sys.argv[1:]
n = 3
if "-j" in args:
    i = args.index("-j"); n = int(args[i + 1]); del args[i:i + 2]
flags = [a for a in args if a.startswith("--")]
ids = [a for a in args if not a.startswith("--")]
q = queue.Queue()
for i in ids: q.put(i)
n = min(n, len(ids))
lock = threading.Lock()
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
def work(k):
    w, v = f"/tmp/seedw{k}", f"/tmp/seedv{k}"
    if not os.path.isdir(w): sh(f"cp -a /repo {w}")
    sh(f"git -C {w} fetch -q /repo HEAD; git -C {w} reset -q --hard {head}")
    if not os.path.isdir(v): sh(f"cp -a /verif {v}")
    sh(f"rsync -a --delete --exclude .git --exclude build --exclude evidence --exclude replay /verif/ {v}/") if sh("which rsync").returncode == 0 else sh(
        f"cd /verif && tar cf - --exclude=./.git --exclude=./build --exclude=./evidence --exclude=./replay . | tar xf - -C {v}")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        inner = f"mount --bind {w} /repo && mount --bind {v} /verif && python3 /verif/tools/seed.py {' '.join(flags)} {i}"
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", inner], capture_output=True, text=True, cwd="/tmp")
        m = re.search(r"(CAUGHT|MISSED)[^\n]*?(?:kind=(\S+)|$)", r.stdout)
        if m and "--nocheck" not in flags:
            with lock:
                f = "/verif/tools/seed_results.json"
                d = json.load(open(f)) if os.path.exists(f) else {}
                d[i] = ("caught: " + m[2] if m[1] == "CAUGHT" else "missed")
                json.dump(d, open(f, "w"), indent=0, sort_keys=True)
        with lock: print((r.stdout + r.stderr[-600:]).strip()[:1200], flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
