#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks registered in harness/src/main.rs and the notes below."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
claimed = re.findall(r'Property \{ id: "(C\d\d)"', (root / "harness/src/main.rs").read_text())
DEC = ("exhaustive enumeration of operations on the real Decimal over a boundary lattice, against an exact integer oracle",
       "Every pair/history inside the stated lattice and depth is executed on the real code; values between lattice points are not. Trusts the 512-bit integer oracle.")
TECH = {
 "C01": ("explicit-state enumeration of operand pairs and operation histories on the real Decimal vs exact integers", DEC[1]),
 "C02": ("explicit-state enumeration of operand pairs and scales on the real Decimal vs exact rational oracle", DEC[1]),
 "C03": DEC,
 "C04": ("exhaustive enumeration of all strings up to a length over the number alphabet, vs an independent grammar", "All strings to the stated length and all templates are parsed by the real code; longer arbitrary strings are not."),
 "C05": DEC,
 "C06": ("exhaustive enumeration of table-factor products, powers of two +- neighbours and dense grids on the real ln", "Accuracy envelope checked at every enumerated argument; oracle is IEEE double logarithm (relative error 1e-16)."),
}
exec((root / "tools/manifest_extra.py").read_text()) if (root / "tools/manifest_extra.py").exists() else None
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "hooks": {"guard": "none", "enable": "no hooks: the checks use only public items of the crate, with a path dependency on /repo/programs/hmmcl-sandbox", "source_commits": []},
 "checks": [{
   "property": p, "quick_cmd": f"bash run.sh check {p} quick", "thorough_cmd": f"bash run.sh check {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": TECH[p][0], "level": "model_checking", "level_note": TECH[p][1],
 } for p in props if p in claimed],
 "not_applicable": [{"property": p, "reason": "no check has been built for it yet"} for p in props if p not in claimed],
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
