"""dev runner: python -m pvc.dev {sym|conc} PROP [name] [opts]"""
import os
import sys
import time

sys.path.insert(0, "/verif")
import pvc  # noqa

mode, prop = sys.argv[1], sys.argv[2]
name = sys.argv[3] if len(sys.argv) > 3 else None
if mode == "sym":
    from pvc import load

    load.install()
from pvc import reg

cons = [c for c in reg.load_contracts(prop) if name in (None, "all") or name in c.name]
for c in cons:
    if mode == "sym":
        if c.mode != "proof":
            continue
        from pvc.run import run_contract

        run, secs = run_contract(c, deadline=time.time() + float(os.environ.get("TL", "120")), qtimeout=float(os.environ.get("QT", "6")))
        n = len(run.results)
        ok = sum(r["status"] == "proved" for r in run.results)
        print(f"{c.name}: paths={run.paths} inf={run.infeasible} obls={n} proved={ok} {run.backends} {secs:.1f}s queries={run.queries}/{run.query_s:.1f}s")
        for r in run.results:
            if r["status"] != "proved":
                print("   ", r["status"], r["name"], r.get("note", "")[:300].replace("\n", " "), f"{r['secs']:.1f}s")
        for u in sorted(set(run.unsupported))[:6]:
            print("    UNSUP", u)
    else:
        from pvc.conc import run_once

        t = time.time()
        st = {}
        N = int(os.environ.get("N", c.opts.get("cases", 50)))
        shown = 0
        reached = {}
        for s in range(N):
            r, info, E = run_once(c, s)
            st[r] = st.get(r, 0) + 1
            for k in E.reached:
                reached[k] = reached.get(k, 0) + 1
            if r in ("violation", "error") and shown < 3:
                shown += 1
                print("   ", s, r, info)
        print(f"{c.name}: {st} n={len(reached)} {time.time()-t:.1f}s")
