#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
C = {}
def c(id, technique, note, level="exploration"):
    C[id] = dict(property=id, quick_cmd=f"./run.sh {id} quick", thorough_cmd=f"./run.sh {id} thorough",
                 evidence_file=f"evidence/{id}.json", technique=technique, level=level, level_note=note)
exec(open(os.path.join(root, "tools", "checks.py")).read())
NA = {}
for l in props:
    if l not in C and l not in NA:
        NA[l] = "No check is built yet."
out = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="--cfg vimwiki_monitor", enable="RUSTFLAGS=\"--cfg vimwiki_monitor\" when building the harness in /verif/harness (see tools/env.sh)",
        source_commits=["4acc484", "62a9ddc", "155510f"]),
    checks=[C[i] for i in props if i in C],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="Every check builds the harness against /repo's working tree. Exit 0 held, 1 violated, 2 no answer (build failed, or too little was observed).")
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(C), "checks,", len(NA), "not claimed")
