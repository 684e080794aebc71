#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(H); sys.path.insert(0, H)
from config import CHECKS, NA
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hooks:")]
checks = []
for i in ids:
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 lib/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 lib/check.py {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=c.get("technique", "contract-based deductive verification: Kani contracts and native contract evaluation"), level=c["level"], level_note=c.get("note", "Contracts on the real functions; see DESIGN.md.")))
na = [dict(property=i, reason=NA.get(i, "No contract within reach of the installed verifiers decides it yet.")) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="bash lib/setup.sh", hooks=dict(guard="cfg(any(kani, sunscreen_verif))", enable="cargo kani sets cfg(kani); native harness builds use RUSTFLAGS='--cfg sunscreen_verif'", source_commits=hooks),
    checks=checks, not_applicable=na, notes="See DESIGN.md."), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
