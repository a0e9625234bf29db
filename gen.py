#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, sys
from props import PROPS, NOT_APPLICABLE, NOTES
from specs import SPECS
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert len(p["statement"]) > 20 and p["statement"].count(". ") <= 2, (p["id"], "statement longer than three sentences")
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
na = {n["property"] for n in NOT_APPLICABLE}
assert set(SPECS) | na == set(ids) and not (set(SPECS) & na), (set(SPECS) ^ set(ids)) - na
checks = []
for i in ids:
    if i in SPECS:
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} quick", thorough_cmd=f"./check.py {i} thorough",
            technique="symbolic execution of the compiled LLVM IR with Z3 (bounded)", level="model_checking",
            level_note="Within the stated input bounds every path of the real compiled code is covered and every branch and assertion is decided by Z3; counterexamples are replayed natively. Trusted: rustc's IR generation, the interpreter in /verif/engine (validated by native replay of sampled paths), Z3, the reference implementation in the harness. "
                + " ".join(SPECS[i]["assumptions"][:-2])))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NOT_APPLICABLE,
    hooks=dict(guard="none", enable="No hooks: the harness crates include /repo's source files by path.", source_commits=[]),
    notes=NOTES), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(NOT_APPLICABLE), "not applicable")
