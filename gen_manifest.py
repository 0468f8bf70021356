#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = os.environ.get("CLAIM", "").split() or ["C%02d" % k for k in range(1, 20)] + ["C21"]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Verus discharges the contracts on the functions of /repo/src (extracted on every run) that the property depends on, for all inputs and without bound. "
        "Assumed: the contracts of std, nom, base64, tokio/async-std, anyhow, hostname and log in spec/shim.rs, the extraction itself, Verus and Z3. "
        "A bounded exploration of the real crate runs beside it to find concrete failing inputs and stands in, labelled bounded, where a changed function leaves the verifier's reach.")
NA = {"C20": "Against a server that never stops sending a wait need not end, and no measure over an infinite input decreases; a bound on memory is a resource property the verifier's contracts do not speak of. Termination on every finite history is C21."}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in NA: m["not_applicable"].append({"property": i, "reason": NA[i]})
    elif i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "contract-based deductive verification of the extracted real code with Verus", "level": "proof", "level_note": NOTE})
    else: m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
