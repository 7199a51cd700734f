#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
import registry
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {"P29": "Cython bindings: the property is about CPython reference counts and generated extension code; the code under test is not C/C++ source in the repository but Cython, and encoding CPython's object runtime is out of reach of symbolic execution here."}
checks = []
na = []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if pid not in registry.CHECKS:
        na.append({"property": pid, "reason": "no check registered yet"})
        continue
    q = [i for i in registry.CHECKS[pid]["instances"] if not i.thorough]
    checks.append({
        "property": pid,
        "level": "model_checking",
        "level_note": "Holds for every value within the bounds of each instance (listed with its bound in the evidence file; %d instances in the quick check); inputs beyond those bounds are not covered. Trusted: own symbolic executor, Z3, clang's IR, the C library models." % len(q),
        "technique": "bounded symbolic execution of the clang IR of the real sources, path conditions and assertions decided by Z3, counterexamples replayed natively",
        "quick_cmd": "python3 run_check.py %s" % pid,
        "thorough_cmd": "python3 run_check.py %s --thorough" % pid})
m = json.load(open(os.path.join(root, "MANIFEST.json")))
m["checks"], m["not_applicable"] = checks, na
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
