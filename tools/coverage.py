#!/usr/bin/env python3
"""coverage.py ID... [-- PREFIX...]: statements that none of the named checks' last runs reached."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
pre = a[a.index("--") + 1:] if "--" in a else [""]
ids = a[:a.index("--")] if "--" in a else a
hit = {}
for i in ids:
    for l in open(os.path.join(V, "build/coverage", i)):
        h, n, w = l.split()
        hit[w, n] = hit.get((w, n), 0) | int(h)
files = {}
for (w, n), h in hit.items():
    f, line = w.split(":")
    if f.startswith(tuple(pre)):
        files.setdefault(f, []).append((int(line), h))
for f in sorted(files):
    miss = sorted({l for l, h in files[f] if not h})
    print(f"{f}: {sum(h for _, h in files[f])} of {len(files[f])}; not reached: {miss}")
