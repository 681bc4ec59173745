#!/usr/bin/env python3
"""design.py RESULTS...: puts the results printed by matrix.py at the end of DESIGN.md
(later results of a change replace earlier ones)."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = ROOT + "/DESIGN.md"
s = open(p).read()
mark = "Caught by their own property's quick check"
old = {}
head, _, tail = s.partition(mark)
for l in tail.splitlines():
    m = re.match(r"\* `([^`]*)` (C\d+)(.*)", l)
    if m: old[m[1]] = (m[2], m[3])
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+)\s+own=(C\d+) C\d+: (CAUGHT|missed)\s*([^|]*)", l)
        if m:
            sig = m[4].strip()
            sig = "".join(c for c in sig if 32 <= ord(c) < 127)[:60]
            old[m[1]] = (m[2], ": " + sig if m[3] == "CAUGHT" else " **missed**")
ids = sorted(d for d in os.listdir(ROOT + "/seeded"))
out = head + mark + " (signature of the first report):\n\n"
for i in sorted(ids, key=lambda i: (old.get(i, ("?",))[0], i)):
    if i in old: out += "* `%s` %s%s\n" % (i, old[i][0], old[i][1])
    else: print("no result for", i)
open(p, "w").write(out)
