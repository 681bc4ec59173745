#!/usr/bin/env python3
"""mutants.py LIST.jsonl OUT.jsonl [workers]: for every mutant of the list (from mutgen):
does it build, do the stable tests still pass, and which of the checks anchored
in its file notices? Development aid; works in scratch clones of /repo."""
import json, os, shutil, subprocess, sys, tempfile, random
from multiprocessing import Pool, current_process
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMAXPROCS="3")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
anch = {}
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        anch.setdefault(f, []).append(p["id"])
EXTRA = json.load(open(ROOT + "/tools/mutmap.json")) if os.path.exists(ROOT + "/tools/mutmap.json") else {}
COST = {"C05": 5, "C09": 6, "C24": 4, "C06": 3, "C04": 3}
W = {}
def sh(cmd, cwd, to):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"
def wt():
    n = current_process().name
    if n not in W:
        d = tempfile.mkdtemp(prefix="mut-")
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
        shutil.copytree(ROOT + "/mon", d + "/mon")
        gm = open(d + "/mon/go.mod").read().replace("=> /repo", "=> " + d + "/repo")
        open(d + "/mon/go.mod", "w").write(gm)
        shutil.copy(ROOT + "/known_findings.jsonl", d)
        W[n] = d
    return W[n]
def tests(d, pkg):
    import tempfile
    log = d + "/log"
    rc, out = sh("timeout 60 go test -vet=off -count=1 -timeout 50s ./%s" % (pkg or "."), d + "/repo", 70)
    if rc != 0: return False
    rc, out = sh("timeout 90 go test -vet=off -count=1 -timeout 80s ./...", d + "/repo", 100)
    return rc == 0
def one(m):
    d = wt(); r = d + "/repo"
    p = os.path.join(r, m["file"]); src = open(p, "rb").read()
    new = src[:m["off"]] + m["new"].encode() + src[m["end"]:]
    try:
        open(p, "wb").write(new)
        pkg = os.path.dirname(m["file"])
        rc, out = sh("go build ./%s" % (pkg or "."), r, 60)
        if rc: m["res"] = "nobuild"; return m
        if not tests(d, pkg): m["res"] = "tests"; return m
        rc, out = sh("go build -o %s/vmon ." % d, d + "/mon", 120)
        if rc: m["res"] = "nobuild"; return m
        props = list(dict.fromkeys(anch.get(m["file"], []) + EXTRA.get(m["file"], [])))
        props.sort(key=lambda x: COST.get(x, 1))
        m["rc"] = []
        for q in props:
            rc, out = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 200 %s/vmon -root %s -prop %s" % (d, d, q), d, 220)
            if rc == 1 and "VIOLATION property=%s " % q in out:
                m["res"] = "caught " + q; return m
            if rc != 0: m["rc"].append([q, rc, out[-200:]])
        m["res"] = "SURVIVED"
        line = new.decode().split("\n")
        return m
    finally:
        open(p, "wb").write(src)
if __name__ == "__main__":
    ms = [json.loads(l) for l in open(sys.argv[1])]
    done = set()
    if os.path.exists(sys.argv[2]):
        for l in open(sys.argv[2]):
            x = json.loads(l); done.add((x["file"], x["off"], x["end"], x["new"]))
    ms = [m for m in ms if (m["file"], m["off"], m["end"], m["new"]) not in done]
    w = int(sys.argv[3]) if len(sys.argv) > 3 else 6
    with Pool(w) as pool, open(sys.argv[2], "a") as o:
        for m in pool.imap_unordered(one, ms):
            o.write(json.dumps(m) + "\n"); o.flush()
