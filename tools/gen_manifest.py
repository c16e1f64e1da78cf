#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, F, M = "exploration", "fault_enumeration", "model_checking"
checks = json.load(open(os.path.join(here, "tools", "checks.json")))
out = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": [
        {
            "property": c["id"],
            "quick_cmd": f"bash run.sh {c['id']} quick",
            "thorough_cmd": f"bash run.sh {c['id']} thorough",
            "evidence_file": f"evidence/{c['id']}.json",
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["note"],
        }
        for c in checks
    ],
    "not_applicable": [],
    "notes": "All checks drive the public API of the library built from /repo's working tree; no hooks in /repo. "
             "run.sh replay <file> re-runs one violating case.",
}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
