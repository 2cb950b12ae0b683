#!/usr/bin/env python3
"""Write MANIFEST.json: tools/manifest.py C01 C02 ... (claimed properties)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "MANIFEST.json")
m = json.load(open(path))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
fixed_na = {p["property"]: p["reason"] for p in m["not_applicable"] if p["reason"] != "Check not built yet."}
claimed = sys.argv[1:]
m["setup_cmd"] = "bash check.sh --build"
m["checks"] = [{
    "property": i,
    "quick_cmd": f"bash check.sh {i}",
    "thorough_cmd": f"bash check.sh {i}",
    "evidence_file": f"evidence/{i}.json",
    "technique": "deterministic simulation with fault injection",
    "level": "exploration",
    "level_note": "Seeded exploration of histories, schedules and faults against an independent reference model; "
                  "single-fault positions of the sweep workloads are enumerated completely. Nothing is proven beyond "
                  "the executions run. Trusted: the reference model and the simulated environment (see DESIGN.md).",
} for i in claimed]
m["not_applicable"] = [
    {"property": p["id"], "reason": fixed_na.get(p["id"], "Check not built yet.")}
    for p in props if p["id"] not in claimed
]
m["notes"] = ("One simulator (sim/) decides all checks; replay a reported file with: sim/target/release/sim replay FILE. "
              "No hooks in the code under test are needed.")
json.dump(m, open(path, "w"), indent=1)
open(path, "a").write("\n")
