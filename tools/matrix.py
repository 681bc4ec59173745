#!/usr/bin/env python3
"""matrix.py [-a] [-d DIR] [ID...]: runs checks against planted changes, in scratch copies
of /repo (development aid; the registered checks only ever see /repo itself).
-a: every check against every change; default: the change's own property.
-d: another directory of changes."""
import json, os, shutil, subprocess, sys, tempfile, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
alls = "-a" in args
if alls: args.remove("-a")
sdir = ROOT + "/seeded"
if "-d" in args:
    i = args.index("-d"); sdir = args[i+1]; del args[i:i+2]
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
RACE = re.search(r'case " ([A-Z0-9 ]*) "', open(ROOT + "/check.sh").read()).group(1).split()
checks = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
ids = args or sorted(os.listdir(sdir))
for i in ids:
    meta = json.load(open(f"{sdir}/{i}/meta.json"))
    wt = tempfile.mkdtemp(prefix="mx-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", wt + "/repo"])
        r = subprocess.run(["git", "apply", f"{sdir}/{i}/patch.diff"], cwd=wt + "/repo", stderr=subprocess.PIPE, text=True)
        if r.returncode:
            print(f"{i:30s} patch does not apply: {r.stderr.strip()[:200]}", flush=True); continue
        shutil.copytree(ROOT + "/mon", wt + "/mon")
        gm = open(wt + "/mon/go.mod").read().replace("=> /repo", "=> " + wt + "/repo")
        open(wt + "/mon/go.mod", "w").write(gm)
        if os.path.exists(ROOT + "/known_findings.jsonl"): shutil.copy(ROOT + "/known_findings.jsonl", wt)
        todo = checks if alls else [meta["property"]]
        res = []
        bins = {}
        for c in todo:
            race = "-race" if c in RACE else ""
            if race not in bins:
                b = subprocess.run(f"go build {race} -o {wt}/vmon{race} .", shell=True, cwd=wt + "/mon", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if b.returncode: res.append("BUILD " + b.stdout[-300:]); break
                bins[race] = f"{wt}/vmon{race}"
            r = subprocess.run([bins[race], "-root", wt, "-prop", c], env=dict(ENV, VMON_REPO=wt + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={c} " in r.stdout
            if alls:
                if hit: res.append(c)
                elif r.returncode != 0: res.append(f"{c}?rc{r.returncode}")
            else:
                sigs = re.findall(r"^  \[(.*?)\]", r.stdout, re.M)
                res.append(f"{c}: " + ("CAUGHT " + " | ".join(sigs[:3]) if hit else f"missed rc={r.returncode} {r.stdout.strip()[-150:] if r.returncode else ''}"))
        print(f"{i:30s} own={meta['property']} {' '.join(res)}", flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
