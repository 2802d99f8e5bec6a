#!/usr/bin/env python3
"""Makes the planted bugs listed in seeds_*.py: applies each to a scratch copy of
/repo, confirms that it builds, passes the stable tests, and that its
demonstration fails with it and passes without it, and writes seeded/<id>/."""
import sys, os, json, subprocess, shutil, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), "seeded")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
  PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
DEMO = '''#!/bin/sh
# runs demo_test.go inside the package it is about
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.23.12/bin ] && PATH=/opt/veriftools/go1.23.12/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$d/demo_test.go" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo$' ./%s
'''
def sh(cmd, cwd, timeout=200):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, timeout=timeout)
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    b = base
    for k in ("stable", "passed", "tests", "stable_tests"):
        if isinstance(b, dict) and k in b: return set(b[k])
    return set(b)
seeds = []
for f in sorted(glob.glob(os.path.join(here, "seeds_*.py"))):
    spec = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    seeds += m.SEEDS
want = sys.argv[1:]
for s in seeds:
    if want and s["id"] not in want: continue
    dst = os.path.join(out, s["id"])
    if not want and os.path.exists(os.path.join(dst, "patch.diff")): continue
    R = "/tmp/seedwork"
    subprocess.run(["rm", "-rf", R]); subprocess.run(["cp", "-a", "/repo", R], check=True)
    bad = None
    for f, o, n in s["edits"]:
        p = os.path.join(R, f); t = open(p).read()
        if t.count(o) < 1: bad = "no text %r in %s" % (o, f); break
        if t.count(o) > 1 and not s.get("first"): bad = "ambiguous text %r in %s" % (o, f); break
        open(p, "w").write(t.replace(o, n, 1))
    if bad: print(s["id"], "BAD", bad); continue
    g = sh("gofmt -l " + " ".join(sorted({f for f, _, _ in s["edits"]})), R)
    if g.stdout.strip(): print(s["id"], "gofmt:", g.stdout.strip())
    patch = sh("git diff", R).stdout
    b = sh("go build ./...", R)
    if b.returncode: print(s["id"], "BAD build", b.stderr[:600]); continue
    tmp = "/tmp/seed_out.json"
    sh("go test -json -vet=off -count=1 -timeout 60s ./... > /tmp/seed.log", R)
    sh("python3 /opt/vp/results.py %s gojson:/tmp/seed.log" % tmp, R)
    res = json.load(open(tmp))
    passed = set(res.get("passed", res.get("pass", [])))
    miss = stable() - passed
    if miss: print(s["id"], "BAD fails tests", sorted(miss)[:5]); continue
    subprocess.run(["rm", "-rf", dst]); os.makedirs(dst)
    open(os.path.join(dst, "patch.diff"), "w").write(patch)
    pkg = s["pkg"]
    open(os.path.join(dst, "demo_test.go"), "w").write(s["demo"].strip() + "\n")
    open(os.path.join(dst, "demo.sh"), "w").write(DEMO % (pkg, pkg)); os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    d1 = sh("sh %s/demo.sh" % dst, R)
    d0 = sh("sh %s/demo.sh" % dst, "/repo")
    good = d1.returncode != 0 and d0.returncode == 0
    if "build failed" in d1.stdout + d0.stdout: good = False
    print(s["id"], "ok" if good else "BAD demo patched=%d clean=%d\n%s\n%s" % (d1.returncode, d0.returncode, (d1.stdout+d1.stderr)[-600:], (d0.stdout+d0.stderr)[-900:]), flush=True)
    if not good: subprocess.run(["rm", "-rf", dst])
subprocess.run(["rm", "-rf", "/tmp/seedwork"])
