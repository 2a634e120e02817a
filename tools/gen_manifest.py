#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and catalogue.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import catalogue as c

CONC = {"C01", "C02", "C04", "C05", "C06", "C28", "C29"}
NOTE = (
    "Exhaustive within the stated bounds (jobs in the evidence): the real code, compiled to LLVM IR on every run, is executed symbolically and every "
    "path is explored; Z3 decides which branches and which assertion failures are feasible. %s Counterexamples are reported only after the same inputs%s "
    "failed in a native run of the same IR. Trusted: rustc/LLVM, the executor (checked against native runs of its completed paths), Z3, the harness' oracle."
)
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in c.QUICK:
        na.append(dict(property=p, reason=c.NOT_APPLICABLE[p]))
        continue
    conc = p in CONC
    checks.append(dict(
        property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
        technique="symbolic execution of the crate's LLVM IR (rustc output) with Z3%s; counterexamples replayed natively" % (
            ", interleavings of threads at atomic operations explored with a pre-emption bound" if conc else ""),
        level="model_checking",
        level_note=NOTE % ("Interleavings are sequentially consistent with a pre-emption bound; data races are found by vector clocks." if conc else
                           "Values, indices, kinds of change, pending points and ends of the inputs are symbolic.", " and schedule" if conc else ""),
    ))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
         notes="One engine (engine/, a symbolic executor for LLVM IR on top of Z3), one harness crate (harness/), catalogue.py lists the jobs and bounds. No hooks in /repo: the harness uses the public API only.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
