"""Writes MANIFEST.json from bin/registry.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS  # noqa: E402

NOTE = ("TLC explores the specification within the bounds of bin/registry.py and checks its invariants; the behaviours it exports and random ones are "
        "run on the library, and TLC validates every recorded call against the specification. Beyond the bounds: sampling. "
        "See DESIGN.md for what is left unspecified.")
TECH = "model-based verification: TLA+ specification checked by TLC; spec behaviours replayed on the library and recorded traces validated by TLC"

ids = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "sh bin/setup.sh",
     "checks": [{"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"python3 bin/check.py {p} --thorough",
                 "technique": TECH + CHECKS[p].get("technique", ""), "level": "model_checking",
                 "level_note": CHECKS[p].get("note", NOTE)} for p in ids if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet (work in progress)"} for p in ids if p not in CHECKS]}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
