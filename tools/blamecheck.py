#!/usr/bin/env python3
"""For each planted bug: do its lines touch lines of the original repository?
(deleted lines, or for pure insertions the lines next to them)"""
import glob, re, subprocess, sys
BASE = "8a62dc1"
cache = {}
def blame(f):
    if f not in cache:
        o = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], capture_output=True, text=True).stdout
        b = subprocess.run(["git", "-C", "/repo", "rev-list", BASE], capture_output=True, text=True).stdout.split()
        cache[f] = [l.lstrip("^")[:38] in {x[:38] for x in b} for l in o.splitlines()]
    return cache[f]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None; dele = []; ins = []
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip(): dele.append(blame(f)[n-1])
            n += 1
        elif l.startswith("+") and not l.startswith("+++"):
            b = blame(f); ins.append((b[n-2], b[n-1] if n-1 < len(b) else True))
        elif l.startswith(" "): n += 1
    ok = any(dele) if dele else any(a or b for a, b in ins)
    strong = any(dele) or any(a and b for a, b in ins)
    if not strong: print(p.split("/")[-2], "ok" if ok else "NO", "deleted orig %d of %d, insert neighbours %s" % (sum(dele), len(dele), sorted(set(ins))))
