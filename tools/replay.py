#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness from /repo's current tree and run the recorded inputs on it."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
if "inputs" not in r:
    print(json.dumps(r, indent=1)); sys.exit(1)
s = tempfile.mkdtemp(prefix="vp-replay-")
try:
    check.gen_config(s)
    bad, out = check.native_replay(r["unit"], r["entry"], r["inputs"], s, r["defs"], r["config"])
    print(out)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(s, ignore_errors=True)
