#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of check.py."""
import json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
 "h_regex": "Randomized search with shrinking: matchers are compared with an independently written position automaton on all reachable state pairs over both ends of every symbol interval, so each generated program is decided for all inputs; programs are sampled. Trusts regex-syntax's parser.",
 "h_core": "Randomized search with shrinking over inputs and operation histories against a reference model; sampled, not exhaustive.",
 "h_nolog": "Randomized search with shrinking against a reference model, on a build without the logger feature; sampled, not exhaustive.",
 "h_gen": "Random definitions are expanded by the macros, compiled with the local toolchain and run on random inputs against a reference interpreter; sampled, not exhaustive.",
 "h_examples": "The repository's example front ends are built and run on generated programs against direct evaluators; sampled, not exhaustive.",
 "h_bad": "Random definitions, each broken in one way, are compiled with the local toolchain against the library; sampled, not exhaustive.",
}
TECH = {
 "h_regex": "property-based testing against a reference automaton",
 "h_core": "model-based property testing (generated histories)",
 "h_nolog": "model-based property testing (no-logger build)",
 "h_gen": "generated definitions vs reference interpreter (PBT)",
 "h_examples": "generated programs vs direct evaluation (PBT)",
 "h_bad": "generated invalid definitions must be rejected (PBT)",
}
src = open(os.path.join(HERE, "check.py")).read()
ns = {}
exec(src[src.index("# property -> harness"):src.index("ASSUME = {")], ns)
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, rest = [], []
for i in ids:
    if i not in ns["CRATES"]:
        rest.append(i); continue
    cs = ns["CRATES"][i] + (["h_gen"] if i in ns["GEN"] else [])
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
      "technique": "; ".join(dict.fromkeys(TECH[c] for c in cs)), "level": "exploration", "level_note": " ".join(dict.fromkeys(NOTE[c] for c in cs))})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in rest],
     "notes": "No hooks: everything is reached through public interfaces. VERIF_SEED and VERIF_TIER are read by check.py."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(rest), "not claimed")
