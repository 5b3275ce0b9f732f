#!/usr/bin/env python3
"""Development helper for planted bugs (seeded/): seed.py test ID... [--nocheck]
Confirms that the patch builds, passes the tests, that the demo tells the trees
apart, and runs the property's check on the patched tree."""
import json, subprocess, sys, os, time
V = "/verif"
def sh(cmd, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, cwd="/repo")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    nocheck = "--nocheck" in sys.argv
    assert sh("git status --porcelain --untracked-files=no")[1].strip() == "", "repo dirty"
    sh("bash /opt/vp/build.sh")
    clean = {i: sh(f"bash {V}/seeded/{i}/demo.sh", 300) for i in args}
    for i in args:
        d = f"{V}/seeded/{i}"
        meta = json.load(open(d + "/meta.json"))
        try:
            rc, out = sh(f"git apply {d}/patch.diff")
            if rc: print(i, "PATCH FAILS", out); continue
            rc, out = sh("bash /opt/vp/build.sh")
            if rc: print(i, "BUILD FAILS", out[-1500:]); continue
            rc, out = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
            failed = [l for l in out.splitlines() if l.startswith("FAIL")]
            dc, dout = sh(f"bash {d}/demo.sh", 300)
            res, first = "-", ""
            if not nocheck:
                t = time.time()
                rc, out = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {V}/bin/check.py {meta['property']}")
                viol = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
                res = "CAUGHT" if rc == 1 and viol else f"MISSED(rc={rc})"
                k = [l for l in out.splitlines() if "kind" in l or "VIOL" in l]
                first = f"{time.time()-t:.0f}s " + (k[0][:200] if k else out[-200:])
            print(f"{i}: clean demo rc={clean[i][0]} patched demo rc={dc} tests failed={failed} {res} {first}", flush=True)
            if clean[i][0]: print("   clean demo:", clean[i][1][-600:])
            if not dc: print("   patched demo:", dout[-300:])
        finally:
            sh("git checkout -- .")
    sh("bash /opt/vp/build.sh")
main()
