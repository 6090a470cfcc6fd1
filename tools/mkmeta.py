"""Writes properties.jsonl and MANIFEST.json from the tables in this file and tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, CLAIMED, NOT_APPLICABLE, LEVEL  # noqa

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        pid, title, statement, over, text, why, files, mech = p
        assert len(title) <= 80, (pid, len(title))
        assert statement.count(". ") <= 2, (pid, statement.count(". "))
        f.write(json.dumps(dict(
            id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))) + "\n")

PY = "/opt/venv/bin/python"
checks = []
for p in PROPS:
    pid = p[0]
    if pid not in CLAIMED:
        continue
    lvl, note = LEVEL[pid]
    checks.append(dict(property=pid, quick_cmd=f"{PY} check.py {pid}", thorough_cmd=f"{PY} check.py {pid} --thorough",
                       technique=("contract-based deductive verification of the real C code (clang AST of pack.c executed symbolically on exact bit-vectors, loop invariants, z3); contracts also executed on the compiled functions" if pid == "C17" else "contract-based deductive verification of the real code (own VC generator over the Python source, z3/cvc5/polynomial back ends); bounded contract execution labelled where out of reach"),
                       level=lvl, level_note=note))
man = dict(version=1, setup_cmd=f"{PY} selftest.py", checks=checks,
           not_applicable=[dict(property=p[0], reason=NOT_APPLICABLE.get(p[0], "check not built yet")) for p in PROPS if p[0] not in CLAIMED])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "claimed")
