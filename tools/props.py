#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
   Run it after editing; the output is committed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id -> (built?, title, statement, over, quantifier text, why, files, mechanisms, technique, note, level)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", built=True, reason="", observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=files, mech=mech, technique=technique, note=" ".join(note.split()), level=level, built=built,
                  reason=reason, observe=observe or []))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for p in P:
    if not p["built"]:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none (no hooks: every monitor observes the exported API and the io.Reader/io.Writer/qfs boundaries)",
               "enable": "nothing to enable", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"] or "check under construction"} for p in P if not p["built"]],
     "notes": "check.sh rebuilds mon/ against /repo's working tree (mon/go.mod replaces github.com/qri-io/dataset by /repo) on every run; VERIF_SEED seeds every random choice."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
