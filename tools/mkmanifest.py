#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness lists."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = subprocess.run([V + "/target/release/ptcheck", "list"], capture_output=True, text=True).stdout.split()
NOTE = {}
exec(open(V + "/tools/notes.py").read())
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "cfg(pt_verif)", "enable": "RUSTFLAGS=--cfg pt_verif (set by run.sh); adds a module of re-exports to src/lib.rs", "source_commits": hook},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input searches by one engine (harness/src/engine.rs): tape generators, explicit oracles, shrinking, replay files (./run.sh replay FILE)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
