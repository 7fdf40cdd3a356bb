#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "sh engine/build.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "MG_VX_BUFFER_COPY_SIZE", "enable": "-DMG_VX_BUFFER_COPY_SIZE=2, which vx.py passes to the compiler for the checks of buffers", "source_commits": ["b59b43d"]},
     "notes": "Every check compiles the current sources of /repo to LLVM IR together with a harness, executes them symbolically "
              "(engine/vxsym) and lets a SAT solver decide all assertions for every input / schedule within the bounds; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS and checks.CHECKS[i]["insts"] and checks.CHECKS[i]["bounds"]:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 vx.py %s" % i, "thorough_cmd": "python3 vx.py %s --tier thorough" % i,
                            "technique": c.get("technique") or "symbolic execution of the LLVM IR of the real code with state merging, bit-blasted and decided by a SAT solver (bounded model checking)",
                            "level": c["level"], "level_note": "Bounded: " + c["bounds"] + ". Outside: " + c["outside"] + ". " + " ".join(c["assumptions"])})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check has been built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
