#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
C = {}
def c(id, technique, note):
    C[id] = (technique, note)
exec(open("tools/claims.py").read())
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
hooks = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "bash tools/run.sh build P02",
     "hooks": {"guard": "cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by tools/run.sh for harness_int only)", "source_commits": hooks},
     "checks": [{"property": p, "quick_cmd": f"bash tools/run.sh check {p}", "thorough_cmd": f"bash tools/run.sh thorough {p}",
                 "evidence_file": f"evidence/{p}.json", "technique": C[p][0], "level": "exploration", "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in C],
     "notes": "Every check builds its harness from /repo's working tree. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
