#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> quick|thorough, or check.py replay FILE.

Builds the harness package of the property against /repo's working tree, runs its
tests (rapid properties over generated cases) in several processes with seeds derived
from VERIF_SEED, merges what they covered into evidence/<ID>.json and reports.

exit 0: held on everything explored; 1 and a VIOLATION line: a failing case was found;
2: nothing could be decided (build error, timeout, no memory, ...)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")

def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e.pop("GOROOT", None)
    for d in ("/opt/veriftools/go1.24.13/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "")
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    return e

def fail(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)

def conf(pid):
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)[pid]

def build(pid, c, out, race):
    pkg = "./" + pid.lower()
    cmd = ["go", "test", "-c", "-vet=off", "-ldflags=-checklinkname=0", "-o", out]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + [pkg], cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-4000:])
        fail("the harness does not build")

def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            s = os.statvfs(d)
            if os.access(d, os.W_OK) and s.f_bavail * s.f_frsize > 2 << 30:
                return d
        except OSError:
            pass
    return "/tmp"

NOTPROP = ("VERIF-INFRA:", "panic: test timed out", "fatal error: runtime: out of memory", "cannot allocate memory", "no space left on device")

def run_one(work, binary, test, shard, seed, tier, budget, timeout, extra=None):
    d = os.path.join(work, "%s.%d" % (test, shard))
    out, scr, cwd = (os.path.join(d, x) for x in ("out", "scratch", "cwd"))
    for x in (out, scr, cwd):
        os.makedirs(x)
    e = env()
    e.update(VERIF_OUT=out, VERIF_SCRATCH=scr, VERIF_TIER=tier, VERIF_RAPID_SEED=str(seed), VERIF_SHARD=str(shard),
             VERIF_BUDGET_S=str(budget), TMPDIR=scr, VERIF_BINARY=binary, GODEBUG="randautoseed=0")
    e.update(extra or {})
    log = os.path.join(d, "log")
    t0 = time.time()
    with open(log, "wb") as f:
        p = subprocess.Popen([binary, "-test.run", "^" + test + "$", "-test.v", "-test.timeout", "%ds" % timeout],
                             cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout + 30)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    shutil.rmtree(scr, ignore_errors=True)
    with open(log, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    recs = []
    for n in sorted(os.listdir(out)):
        with open(os.path.join(out, n)) as f:
            recs.append(json.load(f))
    fails = []
    for root, _, files in os.walk(os.path.join(cwd, "testdata")):
        fails += [os.path.join(root, n) for n in files if n.endswith(".fail")]
    res = dict(test=test, shard=shard, seed=seed, rc=rc, text=text, recs=recs, fails=fails, wall=time.time() - t0)
    if rc == 0:
        res["verdict"] = "ok" if recs or "[rapid] OK" in text or "--- PASS" in text else "error"
        if "no tests to run" in text:
            res["verdict"] = "error"
    elif rc is None or rc < 0 or rc == 3 or any(m in text for m in NOTPROP):
        res["verdict"] = "error"
    elif "[rapid] only generated" in text and "[rapid] failed" not in text and "[rapid] panic" not in text:
        res["verdict"] = "error"
    else:
        res["verdict"] = "violation"
    return res

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = conf(pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=scratch_base())
    try:
        rc = check(pid, tier, c, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, c, seed, work, t0):
    binary = os.path.join(work, "t.bin")
    race = bool(c.get("race"))
    try:
        build(pid, c, binary, race)
    except subprocess.TimeoutExpired:
        fail("the build took too long")
    tests = subprocess.run([binary, "-test.list", "."], cwd=work, env=env(), stdout=subprocess.PIPE, text=True).stdout.split()
    tests = [t for t in tests if t.startswith("Test")]
    if not tests:
        fail("no tests in the harness")
    quick = tier != "thorough"
    cpus = max(2, min(8, os.cpu_count() or 2))
    shards = c.get("shards", max(2, -(-cpus // len(tests)))) if quick else c.get("thorough_shards", 8)
    budget = c.get("budget", 25) if quick else c.get("thorough_budget", 240)
    timeout = budget + (240 if quick else 600)
    jobs = [(t, i) for i in range(shards) for t in tests if i < c.get("max_shards", {}).get(t, shards)]
    workers = c.get("workers", cpus)
    def go(j):
        t, i = j
        s = ((seed * 1000003 + 7919 * i + sum(map(ord, t)) * 31) % (1 << 62)) or 1
        return run_one(work, binary, t, i, s, tier, budget, timeout)
    results = []
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(go, jobs):
            results.append(r)
    bad = [r for r in results if r["verdict"] == "violation"]
    err = [r for r in results if r["verdict"] == "error"]
    known = known_findings(pid, results)
    path = None
    if bad:
        # the smallest reproduction, by the length of its fail file
        bad.sort(key=lambda r: (min([os.path.getsize(f) for f in r["fails"]] or [1 << 40]), r["test"], r["shard"]))
        path = save_replay(pid, tier, seed, bad[0])
    evidence(pid, tier, seed, c, results, bad, path, time.time() - t0)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    n = sum(x["evaluations"] for r in results for x in r["recs"])
    if bad:
        print(tail(bad[0]["text"]))
        print("%s %s: %d cases; %d of %d runs failed" % (pid, tier, n, len(bad), len(results)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if err:
        print(tail(err[0]["text"]))
        print("CHECK-ERROR: %s: rc=%s" % (err[0]["test"], err[0]["rc"]))
        return 2
    if n == 0:
        print("CHECK-ERROR: no case was evaluated")
        return 2
    print("%s %s: held on %d cases (%d runs, %.0f s)" % (pid, tier, n, len(results), time.time() - t0))
    return 0

def tail(text, n=6000):
    return text if len(text) <= n else text[:1000] + "\n...\n" + text[-(n - 1000):]

def known_findings(pid, results):
    """Probes print 'VERIF-KNOWN <finding id>' when a listed finding still fails."""
    seen = set()
    for r in results:
        seen |= set(re.findall(r"VERIF-KNOWN (\S+)", r["text"]))
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        k = json.load(f)
    return ["%s: %s" % (x["id"], x["what"]) for x in k["known"] if x["property"] == pid and x["id"] in seen]

def save_replay(pid, tier, seed, r):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-seed%d.json" % (pid, r["test"], seed))
    data = dict(property=pid, test=r["test"], tier=tier, verif_seed=seed, rapid_seed=r["seed"], shard=r["shard"],
                how="python3 /verif/check.py replay " + p, log=tail(r["text"], 20000))
    if r["fails"]:
        with open(r["fails"][0]) as f:
            data["failfile"] = f.read()
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p

def replay(path):
    with open(path) as f:
        d = json.load(f)
    pid = d["property"]
    c = conf(pid)
    work = tempfile.mkdtemp(prefix="verif-replay-", dir=scratch_base())
    try:
        binary = os.path.join(work, "t.bin")
        build(pid, c, binary, bool(c.get("race")))
        extra = {}
        if d.get("failfile"):
            ff = os.path.join(work, "case.fail")
            with open(ff, "w") as f:
                f.write(d["failfile"])
            extra["VERIF_FAILFILE"] = ff
        r = run_one(work, binary, d["test"], d["shard"], d["rapid_seed"], d["tier"], 240, 600, extra)
        print(tail(r["text"]))
        if r["verdict"] == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, path))
            sys.exit(1)
        sys.exit(0 if r["verdict"] == "ok" else 2)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def evidence(pid, tier, seed, c, results, bad, path, wall):
    distinct, classes, samples, ev, nt, skipped, per = set(), {}, [], 0, 0, 0, {}
    for r in results:
        for x in r["recs"]:
            ev += x["evaluations"]
            nt += x["nontrivial"]
            skipped += x["skipped"]
            distinct |= {(x["test"], h) for h in x["distinct"] or []}
            for k, v in (x["classes"] or {}).items():
                k = x["test"] + "." + k
                classes[k] = classes.get(k, 0) + v
            p = per.setdefault(x["test"], {"evaluations": 0, "nontrivial": 0, "samples": []})
            p["evaluations"] += x["evaluations"]
            p["nontrivial"] += x["nontrivial"]
            p["samples"] += x["samples"] or []
    for t in sorted(per):
        samples += ["%s: %s" % (t, s) for s in per[t].pop("samples")[:2]]
    out = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=c.get("level", "exploration"),
               coverage=dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=c["rule"], samples=samples[:12],
                             nontrivial=nt, cut_by_budget=skipped, replay=path, classes=dict(sorted(classes.items())), tests=per),
               wall_s=round(wall, 1), violations=len(bad),
               assumptions=c.get("assumptions", []))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)

if __name__ == "__main__":
    main()
