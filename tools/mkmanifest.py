#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that the harness registers."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
ids = subprocess.run([os.path.join(root, ".build/vh"), "list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "checks.json")))
checks = []
for p in props:
    i = p["id"]
    if i not in ids: continue
    n = notes[i]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=n["technique"], level="exploration", level_note=n["note"]))
na = [dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in ids]
m = dict(version=1, setup_cmd="./build.sh all", checks=checks, not_applicable=na,
    notes="Runtime monitoring only: every check builds the Go harness in harness/ against /repo's working tree and runs the real code in a watched worker process; no hooks in /repo are needed. See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
