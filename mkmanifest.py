#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os

BASE = "symbolic execution of the LLVM IR of /repo's current sources, SMT (z3) verdicts"
CLAIMS = {
    "C01": ("equivalence with the published algorithm", ""),
    "C02": ("equivalence with the published algorithm", ""),
    "C03": ("equivalence of split and unsplit streaming runs", ""),
    "C04": ("equivalence with the published algorithm", ""),
    "C05": ("equivalence with the published algorithm", ""),
    "C06": ("equivalence with the reference algorithm", ""),
    "C07": ("equivalence with the reference algorithm", ""),
    "C08": ("chosen variant under an arbitrary CPUID", ""),
    "C09": ("bounds of every memory access on every path", ""),
    "C10": ("bounds of every memory access on every path", ""),
    "C11": ("written and read objects of every path", ""),
    "C12": ("two-run equality over addresses and surrounding bytes", ""),
    "C13": ("equality of the value between configurations", ""),
    "C14": ("alignment of every memory access on every path", ""),
    "C15": ("verdict for every set of returned hash values", ""),
    "C16": ("verdict for every set of returned hash values and CPUID answer", ""),
    "C17": ("two-run equality over context copies and prior contents", ""),
    "C18": ("reduced configurations: dispatch, self-checks, values", ""),
    "C19": ("injectivity of one absorbed block", ""),
    "C20": ("absence of undefined arithmetic and uninitialised influence on every path", ""),
}
NA = {}
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Every input within the bounds printed in the evidence file, decided by the solver over the "
        "code's own IR; no claim beyond the bounds. Trusted: clang's front end, the IR semantics and "
        "rewrites in engine/ (sampled re-proof and native traces each run), z3.")
doc = {"version": 1,
       "setup_cmd": "python3-vt -m compileall -q engine && python3-vt -c 'import z3'",
       "checks": [{"property": i, "quick_cmd": "./check.py %s" % i,
                   "thorough_cmd": "./check.py %s --thorough" % i,
                   "technique": "%s: %s" % (BASE, CLAIMS[i][0]),
                   "level": "model_checking",
                   "level_note": (CLAIMS[i][1] + " " + NOTE).strip()} for i in ids if i in CLAIMS],
       "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")}
                          for i in ids if i not in CLAIMS]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
