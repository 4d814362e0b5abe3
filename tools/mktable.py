#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and the recorded catches."""
import glob, json, os
ALSO = {"c03-simulate-truncates": "C13", "c06-view-caches-shape": "C04", "c07-precision-capped": "C13", "c08-swallow-format": "C03",
        "c09-comma-separators": "C10", "c10-streamed-growth": "C09, C07", "c14-tolerance-restored": "C01", "c15-swap-cols-scratch": "C01",
        "c14-grow-uninitialised": "C14", "c04-adjoint-scratch": "C03", "c13-dangling-state": "C04", "c14-found-kept": "C03",
        "c06-contiguous-shortcut": "C04", "c12-local-counter": "C01"}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| change | needs | caught by |\n|---|---|---|")
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    print("| %s | %s | %s |" % (i, m["needs"], ", ".join([m["property"]] + ([ALSO[i]] if i in ALSO else []))))
