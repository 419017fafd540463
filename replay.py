#!/usr/bin/env python3
"""replay.py FILE: run the recorded failing input of a violation against the un-instrumented code in /repo."""
import json
import sys
from run import worker, collect

with open(sys.argv[1]) as f:
    d = json.load(f)
doc = collect(worker("replay", d["property"], {"items": [{"unit": d["unit"], "inputs": d["inputs"]}]}, 300))
print(json.dumps(doc, indent=1))
sys.exit(1 if any(r.get("result") == "violated" for r in doc.get("results", [])) else 0)
