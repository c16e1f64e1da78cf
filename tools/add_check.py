#!/usr/bin/env python3
"""add_check.py ID LEVEL TECHNIQUE NOTE - registers (or replaces) a check and rewrites MANIFEST.json."""
import json, os, runpy, sys
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "checks.json")
checks = [c for c in json.load(open(path)) if c["id"] != sys.argv[1]]
checks.append(dict(zip(("id", "level", "technique", "note"), sys.argv[1:5])))
checks.sort(key=lambda c: c["id"])
with open(path, "w") as f:
    f.write("[\n" + ",\n".join(" " + json.dumps(c) for c in checks) + "\n]\n")
runpy.run_path(os.path.join(here, "gen_manifest.py"))
