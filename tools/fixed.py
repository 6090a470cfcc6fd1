"""tools/fixed.py PROP CONTRACT WHAT — record /repo's HEAD commit (a fix:) in known_findings.json (development helper)."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
prop, con, what = sys.argv[1:4]
h = sys.argv[4] if len(sys.argv) > 4 else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=7", "HEAD"], text=True).strip()
d = json.load(open(p))
d["findings"].append(dict(property=prop, contract=con, status="fixed", commit=h, what=f"fixed: property={prop} {h} {what}"))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
