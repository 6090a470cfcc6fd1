"""Worker process: runs the contracts of one property, symbolically or concretely.

    python -m pvc.worker sym|conc|small PROP OUT.json JSONOPTS
"""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pvc  # noqa: E402,F401


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)


def task_sym(con, opts):
    from pvc.run import run_contract

    tl = opts.get("tl", con.opts.get("timeout", 90)) * opts.get("scale", 1)
    run, secs = run_contract(con, deadline=time.time() + tl, qtimeout=con.opts.get("qtimeout", 6.0) * opts.get("scale", 1))
    res = run.results
    return dict(
        paths=run.paths, infeasible=run.infeasible, obligations=len(res),
        proved=sum(r["status"] == "proved" for r in res), backends=run.backends,
        open=[r for r in res if r["status"] != "proved"][:20],
        unsupported=sorted(set(run.unsupported))[:10], n_unsupported=len(run.unsupported),
        names=sorted({r["name"] for r in res}), queries=run.queries,
        solver_s=round(run.query_s + sum(r["secs"] for r in res), 3), stubs=sorted(run.stubs), secs=round(secs, 2))


def task_small(con, opts):
    """Concrete small dims: decidable queries, counter-models."""
    from pvc.run import run_contract
    import itertools
    import random

    rng = random.Random(opts.get("seed", 1))
    found = []
    t_end = time.time() + opts.get("tl", 60)
    tried = 0
    while time.time() < t_end and tried < 40 and not found:
        table = {}

        def small(name, lo, hi):
            if name not in table:
                table[name] = max(lo, min(hi, 1 + rng.randrange(3))) if tried else max(lo, min(hi, 2))
            return table[name]

        tried += 1
        run, _ = run_contract(con, small=small, deadline=min(t_end, time.time() + 20), qtimeout=5.0, stop_first=True, max_paths=200)
        for r in run.results:
            if r["status"] == "failed" and r.get("model") is not None:
                m = dict(r["model"])
                m.update({k: v for k, v in table.items()})
                found.append(dict(obligation=r["name"], note=r.get("note", ""), values=m))
    return dict(found=found[:5], tried=tried)


def task_conc(con, opts):
    from pvc.conc import run_once

    n = int(opts.get("cases", con.opts.get("cases", 40)) * opts.get("scale", 1))
    t_end = time.time() + opts.get("tl", con.opts.get("conc_tl", 60) * max(1, opts.get("scale", 1) / 4))
    seed0 = opts.get("seed", 1) * 1000003
    st = dict(ok=0, reject=0, error=0)
    reached, viol, errs, samples, distinct = {}, [], [], [], set()
    i = 0
    rej_run = 0
    while st["ok"] < n and time.time() < t_end and i < 50 * n + 200:
        r, info, E = run_once(con, seed0 + i, tier=opts.get("tier", "quick"))
        i += 1
        if r == "violation":
            viol.append(dict(info, seed=seed0 + i - 1, inputs=E.inputs))
            break
        st[r] += 1
        if r == "error":
            errs.append(info)
            if len(errs) > 3:
                break
        if r == "ok":
            for k in E.reached:
                reached[k] = reached.get(k, 0) + 1
            key = hash(json.dumps(E.inputs, sort_keys=True, default=str))
            distinct.add(key)
            if len(samples) < 1:
                samples.append({k: (v if len(json.dumps(v, default=str)) < 200 else "...") for k, v in list(E.inputs.items())[:12]})
            if con.opts.get("enumerate") and len(distinct) >= con.opts["enumerate"]:
                break
    return dict(evaluations=st["ok"], rejected=st["reject"], errors=errs[:3], violations=viol, reached=reached,
                distinct=len(distinct), samples=samples)


def task_replay(con, opts):
    from pvc.conc import run_once

    out = []
    for v in opts["values"]:
        r, info, E = run_once(con, 7, values=v["values"])
        if r == "violation":
            out.append(dict(info, inputs=E.inputs))
            break
    return dict(violations=out)


TASKS = dict(sym=task_sym, small=task_small, conc=task_conc, replay=task_replay)


def child(mode, con, opts, path):
    os.setpgid(0, 0)
    _limit()
    try:
        r = TASKS[mode](con, opts)
    except MemoryError:
        r = dict(crash="memory limit")
    except BaseException as e:  # noqa: B036
        r = dict(crash=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-1500:])
    with open(path, "w") as f:
        json.dump(r, f, default=str)
    os._exit(0)


def main():
    mode, prop, out, opts = sys.argv[1], sys.argv[2], sys.argv[3], json.loads(sys.argv[4])
    if mode in ("sym", "small"):
        from pvc import load

        load.install()
    from pvc import reg

    cons = reg.load_contracts(prop)
    only = opts.get("only")
    todo = [c for c in cons if (only is None or c.name in only)]
    if mode in ("sym", "small"):
        todo = [c for c in todo if c.mode == "proof"]
    if mode == "conc":
        todo = [c for c in todo if not c.opts.get("sym_only")]
    import pyuvdata  # noqa: F401  import once, then fork

    res = {}
    ctx = mp.get_context("fork")
    jobs = int(opts.get("jobs", 4))
    running = []
    todo = list(todo)
    hard = opts.get("hard", 300)
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            p = f"{out}.{c.name}"
            o = dict(opts)
            if mode == "replay":
                o["values"] = opts["values"].get(c.name, [])
            pr = ctx.Process(target=child, args=(mode, c, o, p))
            pr.start()
            running.append((pr, c, p, time.time()))
        for item in list(running):
            pr, c, p, t0 = item
            if not pr.is_alive():
                pr.join()
                try:
                    with open(p) as f:
                        res[c.name] = json.load(f)
                    os.unlink(p)
                except Exception:
                    res[c.name] = dict(crash=f"worker died (exit {pr.exitcode})")
                running.remove(item)
            elif time.time() - t0 > hard:
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except Exception:
                    pr.kill()
                pr.join()
                res[c.name] = dict(crash="time limit")
                running.remove(item)
        time.sleep(0.02)
    meta = {c.name: dict(mode=c.mode, funcs=c.funcs, opts={k: v for k, v in c.opts.items() if isinstance(v, (int, float, str, list, bool))}) for c in cons}
    with open(out, "w") as f:
        json.dump(dict(results=res, meta=meta), f, default=str)


if __name__ == "__main__":
    main()
