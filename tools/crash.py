"""crash.py ID TIER WHAT OUT: the evidence of a run that the code under test ended."""
import json, os, sys

id, tier, what, out = sys.argv[1:]
json.dump({
    "property": id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
    "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [what], "exhaustive": False},
    "assumptions": [], "wall_s": 0, "violations": 1,
}, open(out, "w"), indent=2)
