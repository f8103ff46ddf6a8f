#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
MODEL = "Trusts the independent reference model of the cfg language (harness/src/model.rs) and rustc's std."
T = {
 "C01": ("online reference-model monitor over evaluation (prime-field, lattice, counting and boolean logics)", "Held on ~1M expressions of every shape incl. >65536 operands and levels per run. " + MODEL),
 "C02": ("online Kleene-model monitor plus boolean completions of unknowns", "Held on ~0.5M expressions and ~40M completions per run. " + MODEL),
 "C03": ("event monitor: closure calls, value conservation and drops, injected panics, re-entrancy", "Held on every recorded call/value/drop of ~0.4M expressions per run. " + MODEL),
 "C04": ("differential monitor against an independent recogniser over exhaustive and random texts", "All token sequences to length 6 and viable prefixes to 10, all Unicode scalars in 6 positions, ~10M texts per run. " + MODEL),
 "C05": ("multiset monitor of reported predicates against the text", "Held on ~8M texts per run. " + MODEL),
 "C06": ("metamorphic monitor over pairs of layouts", "Held on ~3M pairs per run; needs no model of acceptance."),
 "C07": ("totality monitor: panics, overflow checks, stack overflow, CPU watchdog, in checked and unchecked builds", "Held on ~17M executions per run incl. 200k-fold nesting on 2 MiB stacks; endless means 40 CPU seconds in one case."),
 "C09": ("tiling checker over the lexer's item stream, and an independent tokeniser", "Held on ~9M texts per run. " + MODEL),
 "C10": ("fault-set monitor over parse errors", "Each error is one of the faults an independent analysis lists, with its exact extent; ~10M texts per run. " + MODEL),
 "C11": ("rendering monitor over parser-made and caller-made errors", "Held on ~8M texts per run."),
 "C12": ("monitor over clones, reparses and near texts", "Held on ~7M texts per run."),
}
try:
    from manifest_more import MORE
    T.update(MORE)
except ImportError:
    pass
checks = []
na = []
for p in props:
    i = p["id"]
    if i in T:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every event is observable through the public API, the compiler's instrumentation, or the processes run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
