#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/engine")
try:
    import prove
    proved = prove.PROVED
except ImportError:
    proved = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = {"C23": "The Python module is Boost.Python binding code: template instantiations over the CPython API. No contract language for that API is within reach of a deductive verifier here, and its callees are not in the C++ library under contract; the C++ operations it forwards to are covered by the other properties."}
checks = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    if i in proved:
        tech, lvl, note = proved[i]
    else:
        tech, lvl, note = ("bounded search against an independent oracle on the real code (stand-in until contracts are discharged)", "exploration",
                           "Bounded: random histories on the real code under ASan/UBSan against an independent oracle. Nothing is proved.")
    checks.append(dict(property=i, quick_cmd="python3-vt check.py " + i, thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level=lvl, level_note=note))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5'", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in na.items()])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
