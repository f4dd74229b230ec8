#!/usr/bin/env python3
"""crash.py <property> <tier> <replay file> <stderr>: record a run that the code under test ended."""
import json
import sys

prop, tier, path, err = sys.argv[1:]
text = open(err, errors="replace").read()[:4000]
with open(path, "w") as f:
    json.dump({"property": prop, "tier": tier, "case": "", "message": "the code under test ends the process:\n" + text,
               "replay_with": "./run.sh replay " + path}, f, indent=1)
