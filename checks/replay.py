#!/usr/bin/env python3
"""usage: replay.py FILE  -- re-runs a recorded failing input on the real code"""
import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
v = json.load(open(sys.argv[1]))
if v["kind"] != "failing-input":
    print(json.dumps(v, indent=1))
    sys.exit(1)
mod, h = v["harness"].split(":")
rp = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") \
    else sys.executable
with tempfile.TemporaryDirectory() as t:
    json.dump({"module": mod, "harness": h, "seed": 0, "time": 60, "max": 1,
               "only_seed": v["seed"], "hints": [v["hint"]]},
              open(t + "/j", "w"))
    env = dict(os.environ, PYTHONPATH=VERIF)
    subprocess.run([rp, "-m", "pyvc.replay", t + "/j", t + "/o"], cwd=VERIF,
                   env=env, check=True)
    r = json.load(open(t + "/o"))
print(json.dumps(r, indent=1))
sys.exit(1 if r["violation"] else 0)
