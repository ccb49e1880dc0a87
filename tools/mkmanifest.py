"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from einrv import checks

NOTE = ("Runs the real code (imported from /repo's working tree) on seeded workloads and judges every observed result; "
        "finds violations within what the workloads reach, and gives no guarantee beyond it. ")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="./check --selftest",
    checks=[dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                 technique="runtime monitoring: " + checks.CHECKS[i].technique, level="exploration",
                 level_note=NOTE + "Trusts: " + "; ".join(checks.CHECKS[i].assumptions))
            for i in ids if i in checks.CHECKS],
    not_applicable=[dict(property=i, reason="no check has been built yet") for i in ids if i not in checks.CHECKS],
    notes="No hooks in /repo: the monitors observe through the public API, callbacks passed to it, and process-level counters.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
