#!/usr/bin/env python3
# Regenerates MANIFEST.json from the table of claimed checks.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
sys.path.insert(0, here)
try:
    from claims import CLAIMS
except ImportError:
    CLAIMS = {}
NA = {
 "N01": "A pure function of instruction and operands: no schedule, clock, I/O or fault can change the result, so seeded simulation has nothing to vary; needs the specification suite or translation validation instead.",
 "N02": "A pure function of the input bytes; input fuzzing or proof would decide it, not schedule/fault simulation. (Fault behaviour of loading is P13.)",
 "N04": "The littlefs sources are an external git submodule that is absent here and cannot be fetched, so the backend cannot be compiled, let alone crashed.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Not claimed yet: the check is still being built.")))
m = dict(version=1, setup_cmd="./check --setup",
    hooks=dict(guard="TOYWASM_ENABLE_SIM_HOOKS", enable="sim/build.py compiles /repo's sources with -DTOYWASM_ENABLE_SIM_HOOKS",
        source_commits=[l.strip() for l in open(os.path.join(here, "hook_commits"))] if os.path.exists(os.path.join(here, "hook_commits")) else []),
    checks=checks, not_applicable=na,
    notes="All checks run the deterministic simulator in sim/; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
