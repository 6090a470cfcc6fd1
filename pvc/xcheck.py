"""Cross-check of the verifier's numpy contracts against real numpy.

Each expression is evaluated (a) by numpy on concrete arrays, (b) by the verifier on arrays whose
length and elements are *symbolic constants* pinned to the same values by hypotheses; the solver must
accept `result == numpy's result` as a consequence of the contracts' axioms and must not be able to
prove a falsified result (which would mean the axioms are inconsistent).
"""
from __future__ import annotations

import random
import sys
import time

import numpy as np
import z3

import pvc  # noqa: F401
from pvc import core, snp
from pvc.core import Ctx, PathAbort, SInt, Unsupported, i_term, num_bin, tobool
from pvc.run import Run, SymE, discharge

EXPRS = [
    ("sum", "f1", lambda np, a: np.sum(a)),
    ("sum axis0", "f2", lambda np, a: np.sum(a, axis=0)),
    ("sum axis1 keepdims", "f2", lambda np, a: np.sum(a, axis=1, keepdims=True)),
    ("min", "f1", lambda np, a: np.min(a)),
    ("max", "i1", lambda np, a: np.max(a)),
    ("any", "b1", lambda np, a: np.any(a)),
    ("all", "b1", lambda np, a: np.all(a)),
    ("all axis", "b2", lambda np, a: np.all(a, axis=1)),
    ("nonzero", "b1", lambda np, a: np.nonzero(a)[0]),
    ("nonzero int", "i1", lambda np, a: np.nonzero(a > 1)[0]),
    ("mask", "i1", lambda np, a: a[a > 1]),
    ("unique", "i1", lambda np, a: np.unique(a)),
    ("argsort", "f1", lambda np, a: np.argsort(a)),
    ("isin", "i1", lambda np, a: np.isin(a, [0, 2])),
    ("where", "i1", lambda np, a: np.where(a > 1, a, -a)),
    ("flip", "i1", lambda np, a: a[::-1]),
    ("slice", "i1", lambda np, a: a[1:]),
    ("stride", "i1", lambda np, a: a[::2]),
    ("fancy", "i1", lambda np, a: a[np.array([0, 0])]),
    ("transpose", "f2", lambda np, a: np.transpose(a)),
    ("squeeze", "f2", lambda np, a: a[:1].squeeze(axis=0)),
    ("concat", "i1", lambda np, a: np.concatenate((a, a + 1))),
    ("append", "i1", lambda np, a: np.append(a, 7)),
    ("logical", "b1", lambda np, a: np.logical_or(a, np.logical_not(a))),
    ("diff", "i1", lambda np, a: np.diff(a)),
    ("arange", "i1", lambda np, a: np.arange(a.size)),
    ("zeros_like", "f2", lambda np, a: np.zeros_like(a)),
    ("ix", "f2", lambda np, a: a[np.ix_(np.array([0]), np.array([1, 0]))]),
    ("reshape", "f2", lambda np, a: a.reshape(a.shape[0], 1, a.shape[1])),
    ("cumsum?", "i1", lambda np, a: np.max(np.abs(a))),
    ("repeat", "i1", lambda np, a: np.repeat(a, 2)),
    ("tile", "i1", lambda np, a: np.tile(a, 2)),
    ("intersect", "i1", lambda np, a: np.intersect1d(a, [0, 1])),
    ("setdiff", "i1", lambda np, a: np.setdiff1d(a, [0, 1])),
    ("mean", "f1", lambda np, a: np.mean(a)),
    ("einsum", "f2", lambda np, a: np.einsum("ij->ji", a)),
    ("swapaxes", "f2", lambda np, a: np.swapaxes(a, 0, 1)),
    ("moveaxis", "f2", lambda np, a: np.moveaxis(a, 0, -1)),
    ("clip", "i1", lambda np, a: np.clip(a, 0, 1)),
    ("mod", "i1", lambda np, a: np.mod(a, 2)),
    ("floor_divide", "i1", lambda np, a: a // 2),
]


def setitem(np, a):
    b = a.copy()
    b[1:] = b[:-1] * 2
    return b


def setmask(np, a):
    b = a.copy()
    b[b > 1] = 9
    return b


def setfancy(np, a):
    b = a.copy()
    b[np.array([1, 0])] = np.array([5, 6])
    return b


EXPRS += [("setslice", "i1", setitem), ("setmask", "i1", setmask), ("setfancy", "i1", setfancy)]


def draw(kind, rng):
    n = rng.randint(2, 3)
    shp = (n,) if kind[1] == "1" else (n, 2)
    k = int(np.prod(shp))
    if kind[0] == "b":
        v = [rng.random() < 0.5 for _ in range(k)]
    elif kind[0] == "i":
        v = [rng.randint(-1, 3) for _ in range(k)]
    else:
        v = [rng.randint(-3, 3) / 2 for _ in range(k)]
    return np.array(v, dtype={"b": bool, "i": np.int64, "f": float}[kind[0]]).reshape(shp)


def one(name, kind, fn, a, small):
    want = fn(np, a)
    run = Run(qtimeout=4.0)
    st = []
    while run.work:
        c = Ctx(run, run.work.pop())
        core.CTX = c
        try:
            E = SymE(c, run, (lambda nm, lo, hi: a.shape[0]) if small else None)
            n = E.dim("n", 0)
            if not small:
                E.assume(num_bin("eq", n, a.shape[0]))
            s = E.array("a", (n,) + a.shape[1:], kind[0])
            for ix in np.ndindex(*a.shape):
                E.assume(num_bin("eq", s.at(*ix), a[ix].item()))
            got = fn(snp.SYMNP, s)
            w = np.asarray(want)
            g = core_lift(got)
            if g.ndim != w.ndim:
                return "BAD ndim"
            for p in range(w.ndim):
                E.ensure("shape", num_bin("eq", g.shape[p], int(w.shape[p])))
            for ix in np.ndindex(*w.shape):
                x, y = g.at(*ix), w[ix].item()
                if isinstance(y, float):  # numpy rounds
                    E.ensure("value", E.And(num_bin("le", num_bin("sub", x, y), 1e-9), num_bin("le", num_bin("sub", y, x), 1e-9)))
                else:
                    E.ensure("value", num_bin("eq", x, y))
        except PathAbort:
            core.CTX = None
            continue
        except Unsupported as e:
            core.CTX = None
            return "unsupported " + str(e)[:60]
        for nm, goal, nh, local in c.obls:
            r, *_ = discharge(run, c.hyps + local, goal, c.sums)
            st.append(r)
            if r == "failed" and small:
                return f"BAD: numpy {w.tolist()} refuted by the contract"
        sv = z3.Solver()
        sv.set("timeout", 3000)
        sv.add(*c.hyps)
        if small and sv.check() == z3.unsat and c.obls:
            st.append("vacuous-path")
        core.CTX = None
    if small and st and all(x == "vacuous-path" for x in st):
        return "BAD: contradictory axioms"
    return "ok" if all(x in ("proved", "vacuous-path") for x in st) else "undecided"


def core_lift(x):
    from pvc.sarr import lift

    return lift(x)


def main():
    rng = random.Random(5)
    bad, und, ok, t0 = [], [], 0, time.time()
    for name, kind, fn in EXPRS:
        for rep in range(2):
            a = draw(kind, rng)
            r = one(name, kind, fn, a, small=bool(rep))
            if r.startswith("BAD"):
                bad.append((name, a.tolist(), r))
            elif r == "ok":
                ok += 1
            else:
                und.append((name, rep, r))
    print(f"numpy contracts cross-check: {ok} agreed, {len(und)} undecided, {len(bad)} wrong, {time.time() - t0:.1f}s")
    for u in und:
        print("  undecided:", u)
    for b in bad:
        print("  WRONG:", b)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
