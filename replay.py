#!/opt/venv/bin/python
"""replay.py FILE: re-run the recorded failing input of a contract on the real code."""
import json
import sys

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, "/repo/src")
import pvc  # noqa
from pvc import reg
from pvc.conc import run_once

d = json.load(open(sys.argv[1]))
con = [c for c in reg.load_contracts(d["property"]) if c.name == d["contract"]][0]
r, info, E = run_once(con, d.get("seed") or 0, values=d.get("inputs"))
print(r, info)
sys.exit(1 if r == "violation" else 0)
