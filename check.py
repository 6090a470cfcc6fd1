#!/opt/venv/bin/python
"""check.py PROP: decide one property on /repo's current tree.

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken.
"""
from __future__ import annotations

import fcntl
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV_CACHE = None

TRUSTED = [
    "pvc verifier (this repository): CPython executes the functions' own source text on symbolic proxies",
    "contracts of numpy functions in pvc/snp.py (cross-checked against real numpy by selftest.py)",
    "z3 5.x / cvc5 1.x unsat answers; pvc/ring.py polynomial normal form",
    "floats and machine integers treated as mathematical reals/integers unless a contract says otherwise; NaN/inf excluded",
]


def env():
    global ENV_CACHE
    if ENV_CACHE is None:
        out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        ENV_CACHE = dict(kv.split(b"=", 1) for kv in out.split(b"\0") if b"=" in kv)
        ENV_CACHE = {k.decode(): v.decode() for k, v in ENV_CACHE.items()}
        for k in ("VERIF_SEED", "VERIF_TIER"):
            if k in os.environ:
                ENV_CACHE[k] = os.environ[k]
        ENV_CACHE["PYTHONPATH"] = "/repo/src:" + HERE
        ENV_CACHE["OMP_NUM_THREADS"] = "1"
        ENV_CACHE["OPENBLAS_NUM_THREADS"] = "1"
        ENV_CACHE["PYTHONHASHSEED"] = "0"
        ENV_CACHE["MPLBACKEND"] = "Agg"
    return ENV_CACHE


def build():
    """Rebuild the compiled extensions from /repo's working tree (products are git-ignored)."""
    with open("/tmp/.pvc_build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", "/opt/vp/build.sh", "--extensions"], capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)[-2000:]


def worker(mode, prop, tmp, **opts):
    out = os.path.join(tmp, f"{mode}-{time.time_ns()}.json")
    p = subprocess.Popen([PY, "-m", "pvc.worker", mode, prop, out, json.dumps(opts)], cwd=HERE, env=env(),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, out


def collect(p, out):
    txt, _ = p.communicate()
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        return dict(results={}, meta={}, crash=txt[-3000:])


def known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv:
        tier = "thorough"
    os.environ["VERIF_TIER"] = tier
    scale = 1 if tier == "quick" else 8
    t0 = time.time()
    rc, log = build()
    build_note = ""
    if rc != 0:
        build_note = "extension build failed: " + log[-400:]
    tmp = tempfile.mkdtemp(prefix="pvc-")
    violations, known_hits, notes = [], [], []
    try:
        hard = 300 if tier == "quick" else 3000
        ps, os_ = worker("sym", prop, tmp, seed=seed, scale=scale, jobs=5, hard=hard)
        pc, oc = worker("conc", prop, tmp, seed=seed, scale=scale, jobs=4, tier=tier, hard=hard)
        conc, sym = collect(pc, oc), collect(ps, os_)
        meta = conc.get("meta") or sym.get("meta")
        if not meta:
            print("checker error:", conc.get("crash", ""), sym.get("crash", ""))
            # an unimportable tree: report what happened, undecided
            txt = (conc.get("crash") or "") + (sym.get("crash") or "")
            if "/repo/src" in txt:
                rp = write_replay(prop, "import", dict(obligation="importable", detail=txt[-1500:]), "conc")
                print(f"VIOLATION property={prop} replay={rp}")
                return 1
            return 2
        for name, r in conc["results"].items():
            for v in r.get("violations", []):
                violations.append((name, v, "concrete"))
        # escalate unproved proof contracts
        open_cons = []
        for name, m in meta.items():
            if m["mode"] != "proof":
                continue
            r = sym["results"].get(name, dict(crash="no result"))
            bad = r.get("crash") or r.get("unsupported") or r.get("open") or not r.get("obligations")
            if bad:
                open_cons.append(name)
        search = {}
        if open_cons and not violations:
            expected = {n for n in open_cons if meta[n]["opts"].get("expect_open")}
            esc = [n for n in open_cons if n not in expected]
            if esc:
                p1, o1 = worker("small", prop, tmp, seed=seed, only=esc, jobs=4, hard=120, tl=50)
                p2, o2 = worker("conc", prop, tmp, seed=seed + 77, only=esc, jobs=4, hard=120, tl=60, scale=30, tier=tier)
                sm, cs = collect(p1, o1), collect(p2, o2)
                for name, r in cs["results"].items():
                    search[name] = dict(evaluations=r.get("evaluations", 0))
                    for v in r.get("violations", []):
                        violations.append((name, v, "concrete search after an open obligation"))
                vals = {n: r["found"] for n, r in sm["results"].items() if r.get("found")}
                if vals and not violations:
                    p3, o3 = worker("replay", prop, tmp, only=list(vals), values=vals, jobs=4, hard=120)
                    rp = collect(p3, o3)
                    for name, r in rp["results"].items():
                        for v in r.get("violations", []):
                            violations.append((name, v, "solver counter-model replayed"))
                if not violations:
                    for name in esc:
                        r = sym["results"].get(name, {})
                        ref = [o for o in r.get("open", []) if o["status"] == "failed" and o["name"] != "no-exception"]
                        spurious = bool(vals.get(name))
                        if ref and not r.get("unsupported") and not r.get("crash") and not spurious and sm["results"].get(name, {}).get("crash"):
                            violations.append((name, dict(obligation=ref[0]["name"], detail=ref[0].get("note", ""), noinput=True, open=ref[:3]), "solver"))
        # known findings
        fresh = []
        for name, v, how in violations:
            hit = None
            for k in known():
                if k.get("status") == "open" and k["property"] == prop and k["contract"] == name and (not k.get("obligation") or re.fullmatch(k["obligation"], v["obligation"])):
                    hit = k
            (known_hits if hit else fresh).append((name, v, how, hit))
        write_evidence(prop, tier, seed, sym, conc, meta, open_cons, search, fresh, time.time() - t0, build_note)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    for name, v, how, k in known_hits:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    tot = sum(r.get("obligations", 0) for r in sym["results"].values())
    ok = sum(r.get("proved", 0) for r in sym["results"].values())
    ev = sum(r.get("evaluations", 0) for r in conc["results"].values())
    print(f"{prop}: obligations {ok}/{tot} discharged, {ev} concrete contract executions, {time.time() - t0:.1f}s; open: {open_cons}")
    for name, r in conc["results"].items():
        if r.get("crash") or r.get("errors"):
            print(f"  note: {name}: {r.get('crash') or r.get('errors')}")
    if fresh:
        name, v, how, _ = fresh[0]
        rp = write_replay(prop, name, v, how)
        print(f"  {name}: obligation '{v['obligation']}' violated ({how}): {v.get('detail', '')[:300]}")
        print(f"VIOLATION property={prop} replay={rp}" + (" no-failing-input-found" if v.get("noinput") else ""))
        return 1
    # vacuity / soundness of the check itself
    problems = []
    for name, m in meta.items():
        c = conc["results"].get(name)
        if c is not None and not m["opts"].get("sym_only"):
            if c.get("crash") or (not c.get("evaluations") and not c.get("violations")):
                problems.append(f"{name}: no concrete execution satisfied the precondition ({c.get('crash') or c.get('errors')})")
    if tot == 0 and ev == 0:
        print("checker error: nothing was checked", problems)
        return 2
    for p in problems:
        print("  note:", p)
    return 0


def write_replay(prop, name, v, how):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{name}.json")
    with open(p, "w") as f:
        json.dump(dict(property=prop, contract=name, obligation=v["obligation"], how=how, detail=v.get("detail"),
                       inputs=v.get("inputs"), seed=v.get("seed"), verifier_output=v.get("open"),
                       rerun=f"cd /verif && {PY} replay.py {p}"), f, indent=1, default=str)
    return p


def write_evidence(prop, tier, seed, sym, conc, meta, open_cons, search, fresh, wall, build_note):
    try:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            man = {c["property"]: c for c in json.load(f)["checks"]}
        level = man.get(prop, {}).get("level", "proof")
    except Exception:
        level = "proof"
    S, C = sym["results"], conc["results"]
    backends = {}
    for r in S.values():
        for b, n in r.get("backends", {}).items():
            backends[b] = backends.get(b, 0) + n
    proof_fns, bounded_fns = {}, {}
    for n, m in meta.items():
        (proof_fns if m["mode"] == "proof" else bounded_fns)[n] = m["funcs"]
    samples = [dict(contract=n, inputs=s) for n, r in C.items() for s in r.get("samples", [])][:4]
    cov = dict(
        obligations=sum(r.get("obligations", 0) for r in S.values()),
        discharged=sum(r.get("proved", 0) for r in S.values()),
        checker_cmd=f"cd /verif && {PY} check.py {prop}",
        trusted_base=TRUSTED,
        paths=sum(r.get("paths", 0) for r in S.values()),
        solver_queries=sum(r.get("queries", 0) for r in S.values()),
        solver_seconds=round(sum(r.get("solver_s", 0) for r in S.values()), 2),
        backends=backends,
        functions_under_contract=sorted({f for fs in proof_fns.values() for f in fs}),
        contracts_proved=[n for n in proof_fns if n not in open_cons],
        contracts_open={n: dict(open=[o["name"] for o in S.get(n, {}).get("open", [])][:8], unsupported=S.get(n, {}).get("unsupported", []), crash=S.get(n, {}).get("crash")) for n in open_cons},
        bounded_standins={n: dict(functions=fs, executions=C.get(n, {}).get("evaluations", 0), distinct=C.get(n, {}).get("distinct", 0), bound="random small-shape inputs drawn by the contract's own generators") for n, fs in bounded_fns.items()},
        evaluations=sum(r.get("evaluations", 0) for r in C.values()),
        distinct_nontrivial=sum(r.get("distinct", 0) for r in C.values()),
        rule="each execution draws inputs from the contract's generators (seeded), must satisfy the precondition, and reaches every postcondition; distinct = distinct drawn inputs",
        samples=samples or [dict(note="no concrete samples in this property")],
        search_after_open=search,
        assumed_callee_contracts=sorted({s for r in S.values() for s in r.get("stubs", [])}),
        explanation="contract-based deductive verification of the functions above; functions outside reach are listed as bounded stand-ins (not proved)",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=TRUSTED[3:] + cov["assumed_callee_contracts"] + ([build_note] if build_note else []),
              wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
