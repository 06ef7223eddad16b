#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and sub-checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import subchecks, gen_properties
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C16": "Generated Python programs against exact models in Python (fractions and interval root isolation); held on the generated programs only.",
 "C17": "Generated thread programs under ThreadSanitizer and with injected delays; held on the schedules that occurred only.",
}
TECH = {
 "C16": "property-based testing (hypothesis): generated Python programs against an exact model",
 "C17": "property-based testing: generated multi-threaded histories under ThreadSanitizer, with a registry invariant as oracle",
}
NA = {}
checks = []
for p in gen_properties.PROPS:
    i = p["id"]
    if i not in subchecks.CHECKS:
        NA.setdefault(i, "its check is still being built")
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        technique=TECH.get(i, "property-based testing: generated fields, elements and operation sequences against an independent exact model (Sturm sequences and rational interval arithmetic in GMP), under address and undefined behaviour sanitizers, with shrinking"),
        level="exploration", level_note=NOTE.get(i, "Held on every generated case (tens of thousands to millions per run); no claim beyond the generated cases.")))
m = dict(version=1, setup_cmd="python3 tools/build_lib.py asan", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="Every check builds libeantic and the harness from /repo's working tree into /verif/build. No hooks are needed in /repo: its commits are fixes of genuine defects, listed in known-findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
