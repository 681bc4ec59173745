#!/usr/bin/env python3
"""seed.py SPEC.py...: makes planted changes from specs and confirms them.
A spec defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], pkg, test)].
For each: applies the edits in a scratch copy of /repo's HEAD, builds, runs the
stable tests, runs the demonstration with and without; keeps it in /verif/seeded."""
import json, os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken. Run with cwd at the repository root.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/@PKG@/zz_planted_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go test @RACE@-vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestPlantedDemo$' ./@PKG@ > "$tmp/log" 2>&1
rc=$?
tail -n 40 "$tmp/log"
grep -q -- "no tests to run" "$tmp/log" && exit 2
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def tests(wt):
    log = tempfile.mktemp()
    sh("go test -json -vet=off -count=1 -timeout 10m ./... > %s" % log, wt)
    out = tempfile.mktemp()
    sh("python3 /opt/vp/results.py %s gojson:%s" % (out, log), wt)
    r = json.load(open(out)); os.remove(out); os.remove(log)
    return [t for t in BASE["stable"] if t not in r["passed"]]

def one(s, wt):
    sh("git checkout -q -- . && git clean -fdq", wt)
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f); t = open(p).read()
        if t.count(old) != 1:
            return "edit of %s matches %d times: %r" % (f, t.count(old), old[:60])
        open(p, "w").write(t.replace(old, new))
    d = "/verif/seeded/" + s["id"]
    tmp = tempfile.mkdtemp()
    try:
        open(tmp + "/demo.sh", "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("@RACE@", "-race " if s.get("race") else "")); os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/demo_test.go", "w").write(s["test"])
        b = sh("for f in $(git diff --name-only); do git show HEAD:$f | gofmt -l | grep -q . || gofmt -l $f; done; go build ./...", wt)
        if b.returncode or b.stdout.strip(): return "build/fmt: " + b.stdout[-800:]
        diff = sh("git diff", wt).stdout
        # removed lines must be original ones, not lines of a fix
        own, cur = 0, None
        for l in sh("git diff -U0", wt).stdout.split("\n"):
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m and m[2] != "0":
                a, n = int(m[1]), int(m[2] or 1)
                for b in sh("git blame -s -L %d,%d HEAD -- %s" % (a, a + n - 1, cur), wt).stdout.split("\n"):
                    if b and not b.startswith("^"): own += 1; print("   not original:", b[:110])
            elif m: print("   pure insertion in", cur)
        if own: return "changes lines of a fix"
        bad = sh(tmp + "/demo.sh", wt)
        if bad.returncode == 0: return "demo passes with the change"
        if "--- FAIL" not in bad.stdout and "panic:" not in bad.stdout and "DATA RACE" not in bad.stdout and "timed out" not in bad.stdout: return "demo broke otherwise: " + bad.stdout[-800:]
        miss = tests(wt)
        if miss: return "tests broken: %s" % miss[:5]
        sh("git checkout -q -- .", wt)
        for _ in range(2):
            good = sh(tmp + "/demo.sh", wt)
            if good.returncode: return "demo fails on the unchanged tree: " + good.stdout[-1500:]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(tmp + "/demo.sh", d); shutil.copy(tmp + "/demo_test.go", d)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return "kept"
    finally:
        shutil.rmtree(tmp)

def main():
    wt = tempfile.mkdtemp(prefix="seedwt-")
    os.rmdir(wt)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    try:
        only = os.environ.get("ONLY", "").split()
        for spec in sys.argv[1:]:
            g = {}; exec(open(spec).read(), g)
            for s in g["SEEDS"]:
                if only and s["id"] not in only: continue
                print("%-28s %s" % (s["id"], one(s, wt)), flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
main()
