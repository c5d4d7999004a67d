#!/usr/bin/env python3
"""Writes known-findings.json. `fixed` entries suppress nothing; `open` ones are matched by the exact violation key."""
import json, pathlib, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
exec((root / "tools/known_src.py").read_text())
out = {"findings": []}
for p, subject, what in FIXED:
    c = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--fixed-strings", "--grep", subject], capture_output=True, text=True).stdout.split()
    assert len(c) == 1, (subject, c)
    out["findings"].append({"property": p, "status": "fixed", "key": "", "commit": c[0], "what": f"fixed: property={p} {c[0]} {what}"})
for p, key, what in OPEN:
    out["findings"].append({"property": p, "status": "open", "key": key, "what": what})
(root / "known-findings.json").write_text(json.dumps(out, indent=1) + "\n")
