#!/usr/bin/env python3
"""quiet.py [-p C01,C02] [names...]: run every quick check on each of the
refactorings beside this file; prints anything that is not quiet."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedtool
args = sys.argv[1:]
props = ["C%02d" % k for k in range(1, 24)]
if args[:1] == ["-p"]:
    props = args[1].split(",")
    args = args[2:]
TXT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C18 C19 C20 C23".split()
USE = {
    "update-helpers": ["C21", "C22"],
    "sets-braced": "C08 C13 C14 C15 C16 C17 C18 C19 C20 C21".split(),
    "update-serial": ["C21", "C22"],
    "targets-search": "C08 C13 C14 C15 C16 C17 C18 C19 C20 C21".split(),
    "matcher-options": "C08 C13 C16 C18 C19 C20".split(),
    "lexicon-closures": "C08 C13 C16 C19 C20".split(),
    "render-helper": "C07 C08 C10 C11 C19 C20 C23".split(),
    "logic-if": "C01 C02 C03 C08 C19 C20".split(),
    "eval-fold": "C01 C02 C03 C07 C08 C12 C18 C19 C20 C23".split(),
}
full = props
names = args or sorted(os.path.basename(f)[:-5] for f in glob.glob(seedtool.V + "/tools/refactors/*.diff"))
for n in names:
    if full is props and len(props) == 23:
        use = USE.get(n, TXT)
    else:
        use = props
    _, r = seedtool.check(n, use, 0, "quick", seedtool.V + "/tools/refactors/%s.diff" % n)
    bad = {k: v for k, v in r.items() if v[0] != "quiet"}
    print(n, "all quiet" if not bad else bad, "(%d s)" % sum(v[1] for v in r.values()), flush=True)
