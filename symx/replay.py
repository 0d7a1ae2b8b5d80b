#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample against /repo's real code."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
job = json.load(open(sys.argv[1]))
p = subprocess.run(["/opt/venv/bin/python", "-s", os.path.join(HERE, "worker.py"), "con", job["property"]], input=json.dumps(job) + "\n", stdout=subprocess.PIPE, text=True)
r = json.loads(p.stdout.splitlines()[-1])
print(json.dumps(r, indent=1))
if r["outcome"] in ("fail", "exception"):
    print("VIOLATION property=%s replay=%s" % (job["property"], sys.argv[1]))
    sys.exit(1)
