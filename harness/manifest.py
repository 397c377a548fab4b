"""Write MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
PY = "/opt/venv/bin/python"
TECH = {
    "C18": "TLA+ model of lazy generation (TLC), schedules replayed into the real code by a deterministic scheduler",
}
NOTE = {
    "C18": "Every interleaving of the model's threads at its atomic steps is explored; the real code is driven through sampled and model-generated schedules with switches at every source line of serde and of the generated code. Trusted: the scheduler's line granularity.",
}
TECH_DEF = "TLA+ specification checked with TLC; seeded and TLC-generated behaviours replayed into the real code and validated by TLC"
NOTE_DEF = ("Every call of the recorded behaviours must have exactly the outcome the TLA+ specification gives in that state; "
            "bounded families are explored exhaustively by TLC and replayed, larger compositions are sampled from a seed. "
            "Assumes the tables of standard library conversions and the third-party codecs; corners listed in DESIGN.md are left unconstrained.")
checks = []
for p in sorted(PROPS):
    checks.append({"property": p, "quick_cmd": f"{PY} harness/check.py {p}",
                   "thorough_cmd": f"VERIF_TIER=thorough {PY} harness/check.py {p}",
                   "technique": TECH.get(p, TECH_DEF), "level": "model_checking",
                   "level_note": NOTE.get(p, NOTE_DEF)})
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = [{"property": i, "reason": "no check built yet"} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": f"{PY} harness/selftest.py", "checks": checks,
           "not_applicable": na,
           "notes": "Known findings and repaired defects: known-findings.json. Replay a violation: harness/check.py --replay FILE."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
