#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import spec
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("verification:")]
checks = []
for i in ids:
    if i in spec.PROPERTIES:
        p = spec.PROPERTIES[i]
        np = sum(1 for j in p["jobs"] if j.get("level", "proof") == "proof")
        nb = len(p["jobs"]) - np
        note = p["note"] or ""
        bounds = sorted({"%s: %s" % (j["name"], j["bound"]) for j in p["jobs"] if j.get("bound")})
        if bounds:
            note += " Bounded stand-ins (not counted as proved): " + "; ".join(bounds) + "."
        note += " Trusted: CBMC and its C library models; malloc never fails; LP64 little endian, sequential."
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p["technique"] or "contract-based deductive verification with CBMC",
                       "level": p["level"], "level_note": note.strip()})
na = [{"property": i, "reason": spec.NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in spec.PROPERTIES]
m = {"version": 1, "setup_cmd": "cbmc --version && goto-instrument --version && gcc --version",
     "hooks": {"guard": "PASSGEN_VERIFY", "enable": "goto-cc -DPASSGEN_VERIFY (tools/check.py passes it when it applies loop contracts)", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "properties.jsonl is written by tools/mkprops.py, this file by tools/mkmanifest.py; the proof jobs of each property are listed in tools/spec.py."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
