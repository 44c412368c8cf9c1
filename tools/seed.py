#!/usr/bin/env python3
"""Plants a bug: seed.py SPEC.py. A spec sets id, property, needs, breaks, pkg, edits=[(file, old, new)], demo (Go test source)
and is turned into seeded/<id>/ after it was confirmed in a scratch copy of /repo. Development tool: no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# cwd: the repository. Exit 0: the property held here.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace": {"%s/PKG/zz_demo_test.go": "%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./PKG
"""
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GODEBUG="randautoseed=0")
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(spec):
    s = {}
    exec(open(spec).read(), s)
    W = tempfile.mkdtemp(prefix="seedw", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", W + "/r"])
        R = W + "/r"
        for f, old, new in s["edits"]:
            t = open(os.path.join(R, f)).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(os.path.join(R, f), "w").write(t.replace(old, new))
        diff = run(["git", "diff"], R).stdout
        assert diff.strip()
        D = os.path.join(V, "seeded", s["id"])
        tmpd = W + "/d"
        os.makedirs(tmpd)
        open(tmpd + "/patch.diff", "w").write(diff)
        open(tmpd + "/demo.sh", "w").write(DEMO.replace("PKG", s["pkg"]))
        open(tmpd + "/demo_test.go", "w").write(s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmpd + "/meta.json", "w"), indent=1)
        b = run(["go", "build", "./..."], R)
        if b.returncode:
            print("BUILD", b.stdout); return 1
        d1 = run(["bash", "-c", "repo=$PWD; sed 's#^\\[ -f /opt.*##' %s/demo.sh > %s/x.sh; cp %s/demo_test.go %s/; bash %s/x.sh" % (tmpd, W, tmpd, W, W)], R)
        t = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], R)
        passed = set()
        for l in t.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests")
        miss = [x for x in stable if x not in passed]
        run(["git", "checkout", "-q", "."], R)
        d0 = run(["bash", W + "/x.sh"], R)
        print(s["id"], "demo clean:", d0.returncode, "demo patched:", d1.returncode, "stable tests missing:", len(miss), miss[:4])
        if d0.returncode: print(d0.stdout[-1500:])
        if not d1.returncode: print(d1.stdout[-800:])
        if d0.returncode == 0 and d1.returncode and not miss:
            shutil.rmtree(D, ignore_errors=True)
            shutil.copytree(tmpd, D)
            print("KEPT", [l for l in d1.stdout.splitlines() if "zz_demo" in l or "demo_test" in l][:2])
            return 0
        return 1
    finally:
        shutil.rmtree(W, ignore_errors=True)
sys.exit(max([main(x) for x in sys.argv[1:]] + [0]))
