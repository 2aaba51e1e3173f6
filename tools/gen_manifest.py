"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))

checks, missing = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(VERIF, "harness", "checks", pid.lower() + ".py")):
        missing.append(pid)
        continue
    mod = importlib.import_module("checks." + pid.lower())
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./check {pid} --tier quick",
            "thorough_cmd": f"./check {pid} --tier thorough",
            "technique": getattr(mod, "TECHNIQUE", "property-based testing (Hypothesis-driven generation) against an oracle"),
            "level": getattr(mod, "LEVEL", "exploration"),
            "level_note": mod.NOTE if hasattr(mod, "NOTE") else mod.RULE,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import hypothesis, jsonschema'",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in missing],
    "notes": "Every check runs ./check, imports hyperpack from /repo's working tree and needs no build. "
    "./check replay FILE reruns a replay file. No hooks in /repo: only fix commits.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
