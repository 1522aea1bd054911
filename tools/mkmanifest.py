#!/usr/bin/env python3
"""MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import plan
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--grep=^verif:"], capture_output=True, text=True).stdout.splitlines()
m = {
    "version": 1,
    "setup_cmd": "python3 bin/check.py --setup",
    "hooks": {"guard": "cfg(zkp_verif)", "enable": 'RUSTFLAGS="--cfg zkp_verif" cargo build (bin/check.py does it for /verif/harness)', "source_commits": [h.split()[0] for h in reversed(hooks)]},
    "checks": [], "not_applicable": [],
    "notes": "TLA+ checked with TLC; every check model checks the specification, generates behaviours from it, replays them and its own scenarios on the code and validates the recorded traces against the specification.",
}
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {i}",
            "technique": "TLA+ specification: TLC model checking, TLC-generated behaviours replayed on the code, recorded traces validated by TLC",
            "level": "model_checking",
            "level_note": plan.PLAN[i].get("note", "The specification satisfies the property for all sessions of the checked small configurations; the code agrees with the specification on every recorded step of the replayed and driven scenarios (arkworks, the hash functions' randomness and TLC are trusted)."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
