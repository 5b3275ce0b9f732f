#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Runs the monitors of one property against /repo's working tree.  Exit 0: held on
everything observed; 1: violated (VIOLATION line printed); 2: the check itself
could not give an answer.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from specs import SPECS

VERIF = vbuild.VERIF
NCPU = os.cpu_count() or 8

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:suppressions=" + os.path.join(VERIF, "harness/tsan.supp"),
    "LC_ALL": "C.UTF-8", "TZ": "UTC",
}


def known_findings():
    """Lines 'finding: property=<id> kind=<regex> detail=<regex> -- text' (fixed: lines suppress nothing)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) kind=(\S+) detail=(.*?) -- (.*)$", line.strip())
            if m:
                out.append(dict(property=m[1], kind=re.compile(m[2] + r"\Z"),
                                detail=re.compile(m[3], re.S), text=m[4]))
    return out


def summarize_stderr(path):
    try:
        s = open(path, errors="replace").read()
    except OSError:
        return "", ""
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([^\n]*)", s)
    if m:
        loc = re.sub(r"0x[0-9a-f]+|pid=\d+", "", m[2])
        what = re.sub(r"[^A-Za-z0-9_-]+", "-", loc.split("/")[0].split(" in ")[0]).strip("-")
        return (m[1] + ":" + what)[:120], s[-6000:]
    m = re.search(r"runtime error: ([^\n]*)", s)
    if m:
        return "UBSan:" + re.sub(r"[^A-Za-z]+", "-", m[1])[:60], s[-6000:]
    m = re.search(r"(Assertion `[^']*' failed|terminate called[^\n]*)", s)
    if m:
        return "abort:" + re.sub(r"[^A-Za-z]+", "-", m[1])[:80], s[-4000:]
    return "", s[-3000:]


class Shard:
    def __init__(self, spec, run, exe, seed, tier, first, count, work, name):
        self.__dict__.update(spec=spec, run=run, exe=exe, seed=seed, tier=tier,
                             first=first, count=count, work=work, name=name)
        self.viols, self.errors, self.inconclusive = [], [], []
        self.evals, self.distinct, self.samples, self.counters = 0, set(), [], {}
        self.cases = 0

    def one(self, first, count, timeout, tag):
        out = os.path.join(self.work, f"{self.name}-{tag}.out")
        err = os.path.join(self.work, f"{self.name}-{tag}.err")
        scratch = os.path.join(self.work, f"scratch-{self.name}-{tag}")
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, **ENV)
        env.update(self.run.get("env", {}))
        env["VERIF_SCRATCH"] = scratch
        env["TMPDIR"] = scratch
        cmd = [self.exe, self.run["mode"], "--seed", str(self.seed), "--first", str(first),
               "--count", str(count), "--tier", self.tier, "--timeout", str(timeout), "--out", out]
        hard = timeout * 4 + self.run.get("hard", 600)
        with open(err, "wb") as e:
            p = subprocess.Popen(cmd, stdout=e, stderr=e, stdin=subprocess.DEVNULL, env=env,
                                 start_new_session=True, cwd=scratch)
            try:
                rc = p.wait(timeout=hard)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        last, done = None, False
        viols, hang, herr, hmsg = [], None, None, ""
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r["t"] == "case":
                    last = r["i"]
                    self.cases += 1
                elif r["t"] == "viol":
                    viols.append(r)
                elif r["t"] == "hang":
                    hang, hmsg = r["i"], r.get("msg", "")
                elif r["t"] == "error":
                    herr = r["msg"]
                elif r["t"] == "sum":
                    done = True
                    self.evals += r["evaluations"]
                    self.distinct.update(r["distinct"])
                    self.samples += r["samples"]
                    for k, v in r["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
        shutil.rmtree(scratch, ignore_errors=True)
        return dict(rc=rc, last=last, done=done, viols=viols, hang=hang, hmsg=hmsg, herr=herr, err=err, cmd=cmd)

    def go(self):
        first, end, restarts = self.first, self.first + self.count, 0
        timeout = self.run.get("timeout", 60)
        while first < end:
            r = self.one(first, end - first, timeout, f"r{restarts}")
            for v in r["viols"]:
                self.viols.append((v["kind"], v["msg"], v["i"], r["cmd"]))
            if r["done"] and r["rc"] == 0:
                break
            if r["herr"] or r["rc"] == 77:
                self.errors.append(r["herr"] or "harness error, see " + r["err"] + ": " + summarize_stderr(r["err"])[1][-800:])
                break
            at = r["hang"] if r["hang"] is not None else r["last"]
            if at is None:
                self.errors.append(f"harness did not start (rc {r['rc']}): " + summarize_stderr(r["err"])[1][-800:])
                break
            if r["hang"] is not None or r["rc"] == "timeout":
                # a timeout decides nothing by itself: run the case again, alone
                r2 = self.one(at, 1, timeout * 2, f"h{restarts}")
                for v in r2["viols"]:
                    self.viols.append((v["kind"], v["msg"], v["i"], r2["cmd"]))
                if r2["hang"] is not None or r2["rc"] == "timeout":
                    self.viols.append(("hang", "the case did not finish in two runs (limits %d s, %d s) %s" % (timeout, 2 * timeout, r2["hmsg"]), at, r2["cmd"]))
                    hung = sum(1 for v in self.viols if v[0] == "hang")
                    if hung >= 1:
                        break
                else:
                    self.inconclusive.append(at)
            else:
                kind, tail = summarize_stderr(r["err"])
                if not kind:
                    kind = "signal-%s" % (-r["rc"]) if isinstance(r["rc"], int) and r["rc"] < 0 else "exit-%s" % r["rc"]
                if r["rc"] == -signal.SIGKILL:
                    self.errors.append("harness was killed (memory?)")
                    break
                self.viols.append(("crash:" + kind, tail, at, r["cmd"]))
            first = at + 1
            restarts += 1
            if restarts > 12:
                break
        return self


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
    spec = SPECS[prop]
    t0 = time.time()
    try:
        exes = vbuild.build(sorted({(r["variant"], r["harness"]) for r in spec["runs"]}))
    except Exception as e:
        print(f"ERROR property={prop}: {e}")
        return 2
    tb = time.time() - t0
    base = os.environ.get("TMPDIR", "/tmp")
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
    try:
        return run(prop, spec, exes, tier, seed, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, spec, exes, tier, seed, work, t0, tb):
    shards = []
    for n, r in enumerate(spec["runs"]):
        total = r["quick"] if tier == "quick" else r.get("thorough", r["quick"] * 20)
        k = min(r.get("shards", NCPU), total) or 1
        per = (total + k - 1) // k
        for j in range(k):
            a = j * per
            c = min(per, total - a)
            if c > 0:
                shards.append(Shard(spec, r, exes[(r["variant"], r["harness"])], seed, tier, a, c,
                                    work, f"{n}-{r['mode']}-{r['variant']}-{j}"))
    par = spec.get("parallel", NCPU)
    with ThreadPoolExecutor(max_workers=par) as ex:
        list(ex.map(lambda s: s.go(), shards))

    evals = sum(s.evals for s in shards)
    distinct = set()
    counters, samples, errors, viols, inconclusive = {}, [], [], [], 0
    for s in shards:
        distinct |= s.distinct
        errors += s.errors
        viols += [v + (s.run,) for v in s.viols]
        inconclusive += len(s.inconclusive)
        for k, v in s.counters.items():
            counters[k] = counters.get(k, 0) + v
        if s.samples:
            samples.append(s.samples[0])
    for s in shards:
        samples += s.samples[1:2]
    samples = samples[:6]

    known = [k for k in known_findings() if k["property"] == prop]
    seen_known, fresh = set(), {}
    for kind, msg, i, cmd, r in viols:
        hit = next((k for k in known if k["kind"].match(kind) and k["detail"].search(msg)), None)
        if hit:
            seen_known.add(hit["text"])
        else:
            fresh.setdefault(kind, (msg, i, cmd, r))
    for k in known:
        # listed findings are reported on every run, seen or not in this sample
        print(f"KNOWN-FINDING: property={prop} {k['text']}" + ("" if k["text"] in seen_known else " (not hit in this run)"))

    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=spec["rule"], samples=samples)
    cov["cases_run"] = sum(s.cases for s in shards)
    cov["inconclusive_cases"] = inconclusive
    cov["build_s"] = round(tb, 1)
    for k in sorted(counters):
        cov["seen_" + k] = counters[k]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if fresh:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for n, (kind, (msg, i, cmd, r)) in enumerate(list(fresh.items())[:5]):
            safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", kind)[:60]
            path = f"replay/{prop}-{safe}.json"
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=prop, kind=kind, case=i, seed=seed, tier=tier, message=msg,
                               build=f"bin/vbuild.py {r['variant']}:{r['harness']}",
                               rerun=f"build/{r['variant']}/{r['harness']} {r['mode']} --seed {seed} --tier {tier} --first {i} --count 1",
                               env=ENV), f, indent=1)
            print(f"  kind={kind} case={i}: " + msg[:1500].replace("\n", "\n    "))
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(f"ERROR property={prop}: " + "; ".join(errors)[:3000])
        return 2
    mins = dict(spec.get("require", {}))
    low = [k for k, v in mins.items() if counters.get(k, 0) < v]
    if evals == 0 or not distinct or low or inconclusive > max(2, cov["cases_run"] // 10):
        print(f"ERROR property={prop}: too little was observed (evaluations {evals}, missing {low}, inconclusive {inconclusive})")
        return 2
    print(f"OK property={prop} evaluations={evals} distinct={len(distinct)} build={tb:.0f}s total={time.time()-t0:.0f}s "
          + " ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    return 0


if __name__ == "__main__":
    sys.exit(main())
