#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import props
TECH = "symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3), counterexamples replayed natively"
NOTE = ("Every path of the repository's code reached by the harness is executed symbolically, within the bounds listed per run in the evidence; every "
        "branch, memory bound, initialisation and assertion query is decided for all values by a byte-domain decision procedure or Z3. Trusts clang's IR, the "
        "engine, Z3 and the models of libc/libstdc++ named in the evidence; witnesses of passing paths are re-run on the native build to validate them.")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": NOTE + (" " + props.PROPS[i]["note"] if props.PROPS[i].get("note") else "")})
    else:
        na.append({"property": i, "reason": getattr(props, "NOT_APPLICABLE", {}).get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile the unmodified sources of /repo. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
