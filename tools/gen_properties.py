#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that statements stay easy to edit)."""
import json, os
P = "programs/hmmcl-sandbox/src/"
DEC = P + "decimal.rs"
POOL = P + "cl_pool/mod.rs"
COMP = P + "cl_pool/cl_components.rs"
MATH = P + "cl_pool/cl_math.rs"
FPOOL = P + "cl_pool_float/mod.rs"
FMATH = P + "cl_pool_float/cl_math.rs"
FCOMP = P + "cl_pool_float/cl_components.rs"
PY = P + "cl_python/v3_pool.py"
BM = P + "state/tick_bitmap.rs"
DEP = P + "instructions/deposit.rs"
WIT = P + "instructions/withdraw.rs"
POS = P + "instructions/manage_position.rs"
TIC = P + "instructions/manage_tick.rs"
INI = P + "instructions/initialize_pool.rs"
BMI = P + "instructions/manage_bitmap.rs"
FEE = P + "instructions/manage_fee.rs"
LIB = P + "lib.rs"
rows = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    rows.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(__file__), "properties_src.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
print(len(rows), "properties")
