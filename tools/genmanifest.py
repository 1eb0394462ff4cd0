#!/usr/bin/env python3
# Writes MANIFEST.json from harness/checks.json (what is claimed) and properties.jsonl.
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.load(open(os.path.join(here, "harness/checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = {}
common = ("Bounded: holds for every value of the symbolic inputs within the bounds listed per harness in the evidence file (field harnesses[].bound) and in DESIGN.md; "
  "nothing is claimed beyond them. Trusted: the SSA builder of golang.org/x/tools, the engine in /verif/engine (each run replays sampled paths and every counterexample against the natively compiled code), z3, and the standard-library stand-ins listed in DESIGN.md. ")
out = {"version": 1, "setup_cmd": "bash check.sh warm", "checks": [], "not_applicable": []}
for i in ids:
    c = checks.get(i)
    if not c:
        out["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet")})
        continue
    out["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
      "technique": c.get("technique", "symbolic execution of the Go SSA of the real code, path conditions and assertions decided by z3"),
      "level": "model_checking", "level_note": common + c.get("note", "")})
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
