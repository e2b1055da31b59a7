#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in tools/props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, TECHNIQUE
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_APPLICABLE]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"hook_needed": p["hook"]} if "hook" in p else {})},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
         if l.split(" ", 1)[1].startswith("verif:")]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "cfg(subsweep_verif)",
        "enable": "the build scripts in /verif/harness set --cfg subsweep_verif and SUBSWEEP_VERIF_HOOKS, which names the folder of the included hook sources (/verif/hooks)",
        "source_commits": hooks,
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": TECHNIQUE[p["tech"]],
        "level": "model_checking",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
    "notes": "Each check rebuilds from /repo's working tree; see DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
