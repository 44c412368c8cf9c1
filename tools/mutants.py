#!/usr/bin/env python3
"""mutants.py WORKDIR SEED COUNT [FILE...]: plants random small mutations in a copy of /repo and reports which survive the
repository's stable tests and then this framework's quick checks. Development tool: no check uses it."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
R, X = W + "/repo", W + "/verif"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GODEBUG="randautoseed=0", HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
subprocess.check_call(["git", "clone", "-q", "/repo", R]); subprocess.check_call(["git", "clone", "-q", V, X])
m = open(X + "/harness/go.mod").read().replace("=> /repo", "=> " + R); open(X + "/harness/go.mod", "w").write(m)
sh(["go", "build", "-o", W + "/mutate", "main.go"], V + "/tools/mutate")
props, files = {}, {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]: props.setdefault(f, []).append(p["id"])
extra = {"pkg/core/similarity.go": ["P02", "P03"], "pkg/core/store.go": ["P01", "P14", "P11"], "pkg/core/store_close.go": ["P14", "P01", "P04"], "pkg/core/store_query.go": ["P01", "P13"],
 "pkg/core/store_init.go": ["P01", "P03"], "pkg/core/store_index.go": ["P03", "P14", "P07"], "pkg/core/store_search.go": ["P02", "P03", "P07"], "pkg/core/store_crud.go": ["P01", "P03", "P05", "P14"], "pkg/core/embedding.go": ["P01"]}
for f, ps in extra.items(): props[f] = list(dict.fromkeys(props.get(f, []) + ps))
todo = sys.argv[4:] or [f for f in sh(["git", "ls-files", "*.go"], R).stdout.split() if not f.endswith("_test.go") and not f.startswith(("examples", "cmd")) and f in props]
pool = []
for f in todo:
    n = int(sh([W + "/mutate", R + "/" + f], R).stdout or 0)
    pool += [(f, k) for k in range(n)]
random.Random(seed).shuffle(pool)
base = json.load(open("/opt/vp/BASELINE.json")); stable = base.get("stable") or base.get("passed") or base.get("tests")
log = open(W + "/log", "a")
def say(*a):
    print(*a, flush=True); print(*a, file=log, flush=True)
done = 0
for f, k in pool:
    if done >= count: break
    sh(["git", "checkout", "-q", "."], R)
    p = subprocess.run([W + "/mutate", f, str(k)], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: continue
    open(R + "/" + f, "w").write(p.stdout)
    what = " ".join(p.stderr.split())
    if re.search(r"logger|log\.|logDim|Println|fmt\.Errorf|rows\.Close|Rollback", what): continue
    if sh(["go", "build", "./..."], R).returncode: continue
    try: t = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "60s", "./..."], R, timeout=200)
    except subprocess.TimeoutExpired: continue
    passed = set()
    for l in t.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
    if any(x not in passed for x in stable): continue
    done += 1
    got = None; t0 = time.time()
    for pid in props[f]:
        r = sh(["python3", X + "/check.py", pid, "quick"], X)
        if r.returncode == 1 and "VIOLATION" in r.stdout: got = pid; break
        if r.returncode == 2: got = pid + "?error"
    say("CAUGHT %s" % got if got else "SURVIVED %s" % ",".join(props[f]), "%ds" % (time.time() - t0), k, what)
say("DONE", done)
