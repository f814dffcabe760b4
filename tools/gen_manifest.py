"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "nothing to enable: /repo carries no hooks; the checks read its sources and build scratch copies", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": r} for k, r in NOT_APPLICABLE.items()],
     "notes": "Contracts live in contracts/*.vspec and are spliced into /repo's current sources on every run (tools/weave.py)."}
for k, p in sorted(PROPS.items()):
    m["checks"].append({"property": k, "quick_cmd": "python3 tools/check.py " + k,
                        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + k,
                        "evidence_file": "evidence/%s.json" % k,
                        "technique": p.get("technique") or ("contract-based deductive verification of the extracted functions (Verus)"
                                     + ("" if p["level"] == "proof" else ", bounded harness for functions outside the verifier's reach")),
                        "level": p["level"], "level_note": p["level_note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
