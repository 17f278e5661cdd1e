#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = "contract-based deductive verification: verification conditions from the LLVM IR of the real code, z3/cvc5"
CLAIMED = {}
NA = {}


def claim(pid, level, note):
    CLAIMED[pid] = (level, note)


exec(open(__file__.replace("manifest.py", "claims.py")).read())
m = {"version": 1,
     "setup_cmd": "python3-vt -c 'import z3, cvc5' && clang++-18 --version >/dev/null && opt-18 --version >/dev/null",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s quick" % p,
                 "thorough_cmd": "python3-vt check.py %s thorough" % p, "technique": T if l == "proof" else
                 "contract-based deductive verification where it reaches, bounded native check of the same contracts elsewhere",
                 "level": l, "level_note": n} for p, (l, n) in sorted(CLAIMED.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(__file__.replace("tools/manifest.py", "MANIFEST.json"), "w"), indent=1)
