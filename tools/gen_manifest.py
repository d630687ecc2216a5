#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "engine"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
NOTE = "Decided statically from /repo's current source; constructs the analysis does not understand are reported as undecided in the evidence and never as violations."
json.dump({"version": 1, "setup_cmd": "true",
  "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "technique": registry.CHECKS[i]["technique"],
    "level": "other", "level_note": registry.CHECKS[i]["rule"] + " " + NOTE} for i in ids if i in registry.CHECKS],
  "not_applicable": [{"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in registry.CHECKS]},
  open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
