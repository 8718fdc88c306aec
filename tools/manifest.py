#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from checks import CHECKS

TECH = {"asan": "runtime monitoring: model-based workload with oracle, under AddressSanitizer + UBSan",
        "tsan": "race detection: stress workload with offline log checker, under ThreadSanitizer",
        "plain": "runtime monitoring: model-based workload with oracle"}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    spec = CHECKS[i]
    vs = sorted({r["variant"] for r in spec["runs"]})
    tech = spec.get("technique") or "; ".join(TECH[v] for v in vs)
    note = spec.get("note") or ("Holds on every history explored (seeded random and directed workloads of fixed size); "
                                "trusts the oracle in /verif/harness and the compiler's sanitizers.")
    checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {i}",
                   "technique": tech, "level": "exploration",
                   "level_note": note + "".join(f" Assumes: {a}." for a in spec.get("assumptions", []))})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "No check has been built for it (yet)."} for i in ids if i not in CHECKS],
     "notes": "No hooks are needed in /repo: all monitors observe the public interface of the library, compiled "
              "from the working tree with sanitizers. Replays: the replay file names the command that runs the case again."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks;", len(m["not_applicable"]), "not claimed")
