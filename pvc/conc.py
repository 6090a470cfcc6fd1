"""Concrete run of a contract on the real, unmodified package.

Used (a) to replay solver counter-models, (b) to search a failing input when an
obligation is not discharged, (c) as the cross-check of the verifier's numpy
model against CPython + numpy, (d) as the bounded stand-in of contracts whose
function is outside the verifier's reach.
"""
from __future__ import annotations

import itertools
import os
import random
import traceback
import warnings

import numpy as np


class Reject(BaseException):
    pass


class Violation(Exception):
    def __init__(self, name, detail=""):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


class ConcE:
    mode = "conc"

    def __init__(self, seed=0, values=None, tier="quick"):
        self.rng = random.Random(seed)
        self.np_rng = np.random.default_rng(seed)
        self.values = values
        self.inputs = {}
        self.reached = {}
        self.tier = tier
        self.seed = seed
        self.trivial = False

    # ---- inputs
    def _get(self, name, draw, enc=lambda v: v, dec=lambda v: v):
        if self.values is not None and name in self.values:
            v = dec(self.values[name])
        else:
            v = draw()
        self.inputs[name] = enc(v)
        return v

    def dim(self, name, lo=1, hi=4):
        return self._get(name, lambda: self.rng.randint(lo, hi), dec=int)

    def int(self, name, lo=None, hi=None, interesting=(), **k):
        def draw():
            a = -50 if lo is None else int(lo)
            b = a + 100 if hi is None else int(hi)
            u = self.rng.random()
            if interesting and u < 0.5:
                cand = [x for x in interesting if a <= x <= b]
                if cand:
                    return self.rng.choice(cand)
            if u < 0.6:
                return min(b, max(a, self.rng.choice([a, b, a + 1, b - 1])))
            return self.rng.randint(a, b)

        return self._get(name, draw, dec=int)

    def real(self, name, lo=None, hi=None, interesting=(), **k):
        def draw():
            a = -10.0 if lo is None else float(lo)
            b = a + 20.0 if hi is None else float(hi)
            u = self.rng.random()
            if interesting and u < 0.3:
                return float(self.rng.choice(list(interesting)))
            return self.rng.uniform(a, b)

        return self._get(name, draw, dec=float)

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5, dec=bool)

    def cplx(self, name, **k):
        return complex(self.real(name + ".re"), self.real(name + ".im"))

    def choice(self, name, options):
        options = list(options)
        j = self._get(name, lambda: self.rng.randrange(len(options)), enc=lambda v: {"choice": v}, dec=lambda v: v["choice"] if isinstance(v, dict) else v)
        return options[j]

    def _enc(self, a):
        if a.dtype.kind == "c":
            return {"re": a.real.tolist(), "im": a.imag.tolist(), "shape": list(a.shape)}
        return {"flat": a.ravel().tolist(), "shape": list(a.shape), "kind": a.dtype.kind}

    def _dec(self, v):
        if "re" in v:
            return (np.array(v["re"]) + 1j * np.array(v["im"])).reshape(v["shape"])
        kd = {"i": np.int64, "f": float, "b": bool, "U": str, "u": np.int64}[v["kind"]]
        return np.array(v["flat"], dtype=kd).reshape(v["shape"])

    def array(self, name, shape, kind="f", lo=None, hi=None, distinct=False, sorted=False, dtype=None, pool=None, **k):
        shape = tuple(int(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))

        def draw():
            n = int(np.prod(shape))
            r = self.rng
            if pool is not None:
                vals = [r.choice(list(pool)) for _ in range(n)]
                if distinct:
                    pl = list(pool)
                    r.shuffle(pl)
                    if n > len(pl):
                        raise Reject()
                    vals = pl[:n]
            elif kind == "b":
                p = r.choice([0.2, 0.5, 0.8])
                vals = [r.random() < p for _ in range(n)]
            elif kind == "i":
                a = (0 if lo is None else int(lo))
                b = (a + max(3, 2 * n) if hi is None else int(hi))
                if distinct:
                    if b - a + 1 < n:
                        raise Reject()
                    vals = r.sample(range(a, b + 1), n) if b - a < 10**6 else [r.randint(a, b) for _ in range(n)]
                else:
                    if b < a:
                        raise Reject()
                    vals = [r.randint(a, b) for _ in range(n)]
            elif kind == "f":
                a = -4.0 if lo is None else float(lo)
                b = a + 8.0 if hi is None else float(hi)
                if distinct:
                    vals = [r.uniform(a, b) for _ in range(n)]
                else:
                    base = [r.uniform(a, b) for _ in range(max(1, n))]
                    vals = [r.choice(base) if r.random() < 0.1 else base[i] for i in range(n)]
            elif kind == "c":
                vals = [complex(r.uniform(-3, 3), r.uniform(-3, 3)) for _ in range(n)]
            elif kind == "U":
                vals = [f"s{r.randint(0, 2 * n + 2)}" for _ in range(n)]
                if distinct:
                    vals = [f"s{x}" for x in r.sample(range(3 * n + 1), n)]
            if sorted:
                vals.sort()
            kd = {"i": np.int64, "f": float, "b": bool, "U": str, "c": complex}[kind]
            return np.array(vals, dtype=kd).reshape(shape)

        a = self._get(name, draw, self._enc, self._dec)
        if dtype is not None:
            a = a.astype(dtype)
        return a.copy()

    def strings(self, name, n, distinct=False, pool=None):
        return self.array(name, (n,), "U", distinct=distinct, pool=pool)

    def full(self, n, v):
        return np.full(n, v)

    def argsort(self, a):
        return np.argsort(a)

    def where(self, dims, pred):
        """the increasing list of the i with pred(i)"""
        return np.array([i for i in range(dims[0]) if pred(i)], dtype=int)

    def arange(self, n):
        return np.arange(n)

    def perm(self, name, n):
        def draw():
            p = list(range(int(n)))
            self.rng.shuffle(p)
            return np.array(p, dtype=np.int64)

        return self._get(name, draw, self._enc, self._dec).copy()

    def zeros(self, n, kind):
        return np.zeros(n, {"i": np.int64, "b": bool, "f": float}[kind])

    def exp(self, x):
        return float(np.exp(x))

    def sqrt(self, x):
        return float(np.sqrt(x))

    def at_iteration(self, a, *vals):
        pass

    def bijection(self, name, n):
        P = self.perm(name, n)
        Q = np.argsort(P)
        return (lambda x: int(P[x])), (lambda x: int(Q[x]))

    def lookup(self, d, k):
        return d[k]

    # ---- logic
    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def forall(self, dims, fn):
        dims = list(dims) if isinstance(dims, (tuple, list)) else [dims]
        return all(bool(fn(*ix)) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def exists(self, dims, fn):
        dims = list(dims) if isinstance(dims, (tuple, list)) else [dims]
        return any(bool(fn(*ix)) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def eq(self, a, b, rtol=1e-8, atol=1e-9, scale=None):
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
            return a == b
        return bool(np.isclose(a, b, rtol=rtol, atol=atol if scale is None else rtol * scale, equal_nan=True))

    def same(self, a, b, **k):
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        return bool(a == b)

    def at(self, a, *idx):
        r = a[tuple(int(i) for i in idx)] if isinstance(a, np.ndarray) else None
        if r is None:
            r = a
            for i in idx:
                r = r[i]
        return r.item() if isinstance(r, np.generic) else r

    def shape(self, a):
        return np.shape(a)

    def length(self, a):
        return len(a)

    def member(self, a, x):
        return any(e == x for e in list(np.asarray(a).ravel()))

    def same_array(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))

    def old(self, a):
        return np.array(a, copy=True) if isinstance(a, np.ndarray) else (list(a) if isinstance(a, list) else a)

    def lit(self, x):
        return np.asarray(x)

    # ---- obligations
    def assume(self, cond):
        if not bool(cond):
            raise Reject()

    def lemma(self, name, cond):
        pass

    def induct(self, name, n, P, over=()):
        self.ensure_all(name, [n] + list(over), P)

    def ensure(self, name, cond, detail=None):
        self.reached[name] = self.reached.get(name, 0) + 1
        if not bool(cond):
            raise Violation(name, str(detail)[:600] if detail is not None else "postcondition is false")

    def ensure_all(self, name, dims, fn):
        dims = list(dims) if isinstance(dims, (tuple, list)) else [dims]
        self.reached[name] = self.reached.get(name, 0) + 1
        for ix in itertools.product(*[range(int(d)) for d in dims]):
            if not bool(fn(*ix)):
                raise Violation(name, f"postcondition is false at index {ix}")

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def call(self, fn, *a, allow=(), **k):
        try:
            return fn(*a, **k)
        except allow:
            raise Reject()

    def opaque(self):
        pass

    def stub(self, desc):
        pass

    def note(self, s):
        pass


def run_once(con, seed=0, values=None, tier="quick"):
    """-> (status, info, E) with status ok / reject / violation."""
    E = ConcE(seed, values, tier)
    import contextlib
    import io

    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        try:
            con.fn(E)
        except Reject:
            return "reject", None, E
        except Violation as v:
            return "violation", dict(obligation=v.name, detail=v.detail), E
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{f.filename.replace('/repo/src/', '')}:{f.lineno}" for f in tb][-5:]
            in_repo = any("/repo/" in f.filename for f in tb)
            return ("violation" if in_repo else "error"), dict(
                obligation="no-exception", detail=f"{type(e).__name__}: {str(e)[:300]} @ {' > '.join(loc)}"), E
    return "ok", None, E
