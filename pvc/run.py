"""Symbolic run of a contract: path exploration and discharge of obligations."""
from __future__ import annotations

import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np
import z3

from .core import isinstance  # noqa: A004
from . import core, snp
from .core import (
    Ctx, PathAbort, SBool, SCplx, SInt, SReal, SStr, Unsupported, bnot, i_term, is_sym, ite, kind_of,
    mkbool, num_bin, r_term, simp, tobool,
)
from .sarr import SArr, in_range, is_sarr, lift, sand, simplies, sor
from .sseq import SList


class Run:
    def __init__(self, max_depth=60, max_paths=2000, deadline=None, qtimeout=6.0):
        self.strs = {}
        self.work = [[]]
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.query_s = 0.0
        self.queries = 0
        self.paths = 0
        self.infeasible = 0
        self.deadline = deadline or (time.time() + 1e9)
        self.qtimeout = qtimeout
        self.results = []  # dicts
        self.unsupported = []
        self.exceptions = []
        self.stubs = set()
        self.backends = {}

    def push(self, prefix):
        self.work.append(prefix)


class Forall:
    def __init__(self, dims, fn):
        self.dims, self.fn = dims, fn


class SkipPath(Exception):
    pass


class SymE:
    """Contract environment in proof mode (or small-scope mode when dims are fixed)."""

    mode = "sym"

    def __init__(self, c, run, small=None):
        self.c, self.run, self.small = c, run, small
        self.tier = os.environ.get("VERIF_TIER", "quick")

    # ---- inputs
    def dim(self, name, lo=1, hi=4):
        if self.small is not None:
            return self.small(name, lo, hi)
        t = z3.Int(name)
        self.c.add(t >= lo)
        self.c.inputs.append((name, "int", t))
        return SInt(t)

    def int(self, name, lo=None, hi=None, **k):
        t = z3.Int(name)
        if lo is not None:
            self.c.add(t >= i_term(lo))
        if hi is not None:
            self.c.add(t <= i_term(hi))
        self.c.inputs.append((name, "int", t))
        return SInt(t)

    def real(self, name, lo=None, hi=None, **k):
        t = z3.Real(name)
        if lo is not None:
            self.c.add(t >= r_term(lo))
        if hi is not None:
            self.c.add(t <= r_term(hi))
        self.c.inputs.append((name, "real", t))
        return SReal(t)

    def bool(self, name):
        t = z3.Bool(name)
        self.c.inputs.append((name, "bool", t))
        return SBool(t)

    def cplx(self, name, **k):
        return SCplx(self.real(name + ".re"), self.real(name + ".im"))

    def choice(self, name, options):
        options = list(options)
        j = self.c.choose(len(options), name)
        self.c.inputs.append((name, "choice", j))
        return options[j]

    def array(self, name, shape, kind="f", lo=None, hi=None, distinct=False, sorted=False, dtype=None, pool=None, rows_distinct=None, **k):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        n = len(shape)
        c = self.c
        sort = {"b": core.B, "i": core.I, "f": core.R, "U": core.I}.get(kind)
        if kind == "c":
            fr = z3.Function(name + ".re", *([core.I] * n), core.R)
            fi = z3.Function(name + ".im", *([core.I] * n), core.R)
            fn = lambda *i: SCplx(SReal(fr(*[i_term(x) for x in i])), SReal(fi(*[i_term(x) for x in i])))
            c.inputs.append((name, "array-c", (fr, fi, shape)))
            return SArr(shape, "c", fn, dtype=dtype and np.dtype(dtype))
        f = z3.Function(name, *([core.I] * n), sort)
        wrapk = {"b": SBool, "i": SInt, "f": SReal, "U": SStr}[kind]
        fn = lambda *i: wrapk(f(*[i_term(x) for x in i]))
        c.inputs.append((name, "array-" + kind, (f, shape)))
        a = SArr(shape, kind, fn, dtype=dtype and np.dtype(dtype))

        def rng(*v):
            return sand(*[in_range(SInt(x), d) for x, d in zip(v, shape)])

        conc = all(not is_sym(d) for d in shape)

        def allc(fnb, nv, pats=None):
            if conc:
                import itertools

                for ix in itertools.product(*([range(d) for d in shape])):
                    c.add(simp(tobool(fnb(*[z3.IntVal(x) for x in ix]))))
            else:
                vs = c.binder(nv)
                c.add(c.quant(vs, fnb, patterns=[f(*vs)]))

        if kind in "if" and (lo is not None or hi is not None):
            def b(*v):
                e = fn(*[SInt(x) for x in v])
                cs = []
                if lo is not None:
                    cs.append(num_bin("le", lo, e))
                if hi is not None:
                    cs.append(num_bin("le", e, hi))
                return simplies(rng(*v), sand(*cs))

            allc(b, n)
        if pool is not None:
            allc(lambda *v: simplies(rng(*v), sor(*[num_bin("eq", fn(*[SInt(x) for x in v]), p) for p in pool])), n)
        if kind == "U":
            # codes of symbolic strings are arbitrary integers
            pass
        if distinct or sorted:
            assert n == 1
            N = shape[0]
            if conc:
                for i in range(N):
                    for j in range(i + 1, N):
                        c.add(f(i) < f(j) if sorted == "strict" else (f(i) <= f(j) if sorted and not distinct else (f(i) < f(j) if sorted else f(i) != f(j))))
            else:
                i, j = c.binder(2)
                cond = z3.And(0 <= i, i < j, j < i_term(N))
                concl = f(i) < f(j) if (sorted and distinct) or sorted == "strict" else (f(i) <= f(j) if sorted else f(i) != f(j))
                c.add(z3.ForAll([i, j], z3.Implies(cond, concl), patterns=[z3.MultiPattern(f(i), f(j))]))
                if distinct:
                    # Skolem inverse (equivalent formulation, better triggers)
                    G = z3.Function(name + "!inv", sort, core.I)
                    (q,) = c.binder(1)
                    c.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i_term(N)), G(f(q)) == q), patterns=[f(q)]))
        return a

    def strings(self, name, n, distinct=False, pool=None):
        return self.array(name, (n,), "U", distinct=distinct)

    def full(self, n, v):
        from . import snp

        return snp.function_call("full", (n, v), {})

    def argsort(self, a):
        from . import snp

        return snp.argsort(a)

    def where(self, dims, pred):
        """the increasing list of the i with pred(i)"""
        from . import snp
        from .sarr import SArr

        m = SArr((dims[0],), "b", lambda i: pred(i))
        return snp.function_call("where", (m,), {})[0]

    def arange(self, n):
        from . import snp

        return snp.function_call("arange", (n,), {})

    def perm(self, name, n):
        """An arbitrary permutation of range(n) as an index array."""
        c = self.c
        f = z3.Function(name, core.I, core.I)
        g = z3.Function(name + "!inv", core.I, core.I)
        N = i_term(n)
        c.inputs.append((name, "array-i", (f, (n,))))
        if not is_sym(n):
            for i in range(n):
                c.add(z3.And(f(i) >= 0, f(i) < n, g(f(i)) == i, f(g(i)) == i, g(i) >= 0, g(i) < n))
        else:
            (v,) = c.binder(1)
            c.add(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < N), z3.And(0 <= f(v), f(v) < N, g(f(v)) == v)), patterns=[f(v)]))
            (u,) = c.binder(1)
            c.add(z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < N), z3.And(0 <= g(u), g(u) < N, f(g(u)) == u)), patterns=[g(u)]))
        a = SArr((n,), "i", lambda i: SInt(f(i_term(i))))
        a.meta["perm"] = lambda i: core.mkint(g(i_term(i)))
        a.meta["nonneg_v"] = a.version()
        return a

    # ---- logic
    def And(self, *xs):
        return sand(*[self._t(x) for x in xs])

    def Or(self, *xs):
        return sor(*[self._t(x) for x in xs])

    def Not(self, x):
        return bnot(self._t(x))

    def Implies(self, a, b):
        return simplies(self._t(a), self._t(b))

    def Iff(self, a, b):
        return mkbool(tobool(self._t(a)) == tobool(self._t(b)))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def _t(self, x):
        if isinstance(x, Forall):
            return self._forall_term(x)
        return x

    def _forall_term(self, q):
        dims = q.dims
        if all(not is_sym(d) for d in dims):
            import itertools

            return sand(*[self._t(q.fn(*ix)) for ix in itertools.product(*[range(d) for d in dims])])
        vs = self.c.binder(len(dims))
        return SBool(self.c.quant(vs, lambda *v: simplies(
            sand(*[in_range(SInt(x), d) for x, d in zip(v, dims)]), self._t(q.fn(*[SInt(x) for x in v])))))

    def forall(self, dims, fn):
        dims = list(dims) if isinstance(dims, (tuple, list)) else [dims]
        return Forall(dims, fn)

    def exists(self, dims, fn):
        dims = list(dims) if isinstance(dims, (tuple, list)) else [dims]
        return bnot(self._forall_term(Forall(dims, lambda *v: bnot(self._t(fn(*v))))))

    def eq(self, a, b, **k):
        """Equality of scalars (exact over the reals)."""
        if type(a) is SCplx or type(b) is SCplx:
            return num_bin("eq", a, b)
        r = num_bin("eq", a, b)
        return r

    same = eq

    def at(self, a, *idx):
        if is_sarr(a):
            return a.at(*idx)
        if type(a) is SList:
            return a.arr.at(*idx)
        if any(is_sym(i) for i in idx):
            return lift(a).at(*idx)
        if isinstance(a, np.ndarray):
            v = a[tuple(idx)]
            return v.item() if isinstance(v, np.generic) else v
        r = a
        for i in idx:
            r = r[i]
        return r

    def shape(self, a):
        return lift(a).shape

    def length(self, a):
        return lift(a).shape[0]

    def member(self, a, x):
        return snp.member(lift(a), x)

    def same_array(self, a, b):
        """Same shape and elementwise equal."""
        a, b = lift(a), lift(b)
        if a.ndim != b.ndim:
            return False
        sh = sand(*[num_bin("eq", x, y) for x, y in zip(a.shape, b.shape)])
        fa, fb = a.snapshot(), b.snapshot()
        if a.ndim == 0:
            return num_bin("eq", fa(), fb())
        return sand(sh, self._forall_term(Forall(list(a.shape), lambda *i: num_bin("eq", fa(*i), fb(*i)))))

    def old(self, a):
        """Copy of the current contents."""
        return a.copy() if is_sarr(a) else (SList(a.arr.copy()) if type(a) is SList else (a.copy() if isinstance(a, np.ndarray) else a))

    def lit(self, x):
        return lift(x)

    # ---- obligations
    def assume(self, cond):
        cond = self._t(cond)
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathAbort("assume false")
            return
        self.c.cuts.append(len(self.c.hyps))
        self.c.add(tobool(cond))

    def lemma(self, name, cond):
        """Prove cond (an obligation), then use it."""
        cond = self._t(cond)
        self.ensure("lemma:" + name, cond)
        if not isinstance(cond, (bool, np.bool_)):
            self.c.cuts.append(len(self.c.hyps))
            self.c.add(tobool(cond))

    def induct(self, name, n, P, over=()):
        """Induction lemma on k, for arbitrary fixed j in `over`: P(0, j), P(k, j) -> P(k+1, j) are obligations;
        then forall k in [0, n), j: P(k, j) is used."""
        c = self.c
        over = list(over)
        js = [SInt(c.fresh("j")) for _ in over]
        loc = [tobool(in_range(j, d)) for j, d in zip(js, over)]
        with c.local(loc):
            base = tobool(self.Implies(n > 0, self._t(P(0, *js))))
        self._obl("induction base:" + name, base, loc)
        k = c.fresh("ind_" + name.replace(" ", "_"))
        K = SInt(k)
        loc = loc + [tobool(in_range(K, n)), tobool(num_bin("lt", num_bin("add", K, 1), n))]
        with c.local(loc):
            pk = tobool(self._t(P(K, *js)))
        loc.append(pk)
        with c.local(loc):
            goal = tobool(self._t(P(num_bin("add", K, 1), *js)))
        self._obl("induction step:" + name, goal, loc)
        self.assume(self.forall([n] + over, P))

    def ensure(self, name, cond, **k):
        c = self.c
        if isinstance(cond, Forall):
            if all(not is_sym(d) for d in cond.dims):
                cond = self._forall_term(cond)
            else:
                return self.ensure_all(name, cond.dims, cond.fn)
        if isinstance(cond, (bool, np.bool_)):
            t = z3.BoolVal(bool(cond))
        else:
            t = tobool(cond)
        self._obl(name, t, [])

    def ensure_all(self, name, dims, fn):
        c = self.c
        dims = list(dims) if isinstance(dims, (tuple, list)) else [dims]
        vs = [c.fresh("sk_" + name.replace(" ", "_")) if is_sym(d) else None for d in dims]
        loc = []
        import itertools

        conc = [[SInt(v)] if v is not None else list(range(d)) for v, d in zip(vs, dims)]
        for v, d in zip(vs, dims):
            if v is not None:
                loc.append(tobool(in_range(SInt(v), d)))
        with c.local(loc):
            terms = []
            for ix in itertools.product(*conc):
                r = fn(*ix)
                if isinstance(r, Forall):
                    r = self._t(r)
                terms.append(tobool(r))
        goal = z3.And(*terms) if len(terms) != 1 else terms[0]
        self._obl(name, goal, loc)

    def _obl(self, name, t, local):
        c = self.c
        t = simp(t)
        c.obls.append((name, t, len(c.hyps), list(local)))

    def raises(self, exc, fn):
        """True when fn() raises exc."""
        try:
            fn()
        except exc:
            return True
        return False

    def call(self, fn, *a, allow=(), **k):
        """Call real code; exceptions in `allow` end the path quietly (documented rejection)."""
        try:
            return fn(*a, **k)
        except allow:
            raise PathAbort("documented rejection")

    def opaque(self):
        """Complex products and quotients become uninterpreted in this contract (weaker hypotheses, easier obligations)."""
        self.c.opaque = True
        for a in core.cplx_axioms():
            self.c.add(a)

    def zeros(self, n, kind):
        return SArr((n,), kind, lambda i: {"i": 0, "b": False, "f": 0.0}[kind])

    def exp(self, x):
        return core.sexp(x)

    def sqrt(self, x):
        return core.ssqrt(x)

    def at_iteration(self, a, *vals):
        """Instantiate the contract of the loop nest that filled a at iteration vals."""
        sc = getattr(a.buf, "scatter", None)
        if sc is None:
            raise Unsupported("not written by a loop nest")
        self.c.add(sc[1](vals))

    def bijection(self, name, n):
        """An arbitrary bijection of range(n), as a pair of functions (f, inverse); facts are added per use."""
        f, g = z3.Function(name, core.I, core.I), z3.Function(name + "!inv", core.I, core.I)

        def use(F, G):
            def at(x):
                t = i_term(x)
                self.c.add(z3.Implies(z3.And(t >= 0, t < n), z3.And(F(t) >= 0, F(t) < n, G(F(t)) == t)))
                return core.mkint(F(t))

            return at

        self.c.inputs.append((name, "array-i", (f, (n,))))
        return use(f, g), use(g, f)

    def lookup(self, d, k):
        from .kern import dict_lookup

        return dict_lookup(d, k) if is_sym(k) else d[k]

    def stub(self, desc):
        self.run.stubs.add(desc)

    def note(self, s):
        self.c.notes.add(s)


# ------------------------------------------------------------------ discharge
def _cvc5(hyps, goal, timeout):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    if "lambda" in txt or "Array" in txt:
        return "unknown"
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", f"--tlimit={int(timeout * 1000)}", f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


def _split(goal, depth=0):
    """conjuncts of the goal."""
    if z3.is_and(goal):
        out = []
        for ch in goal.children():
            out.extend(_split(ch))
        return out
    return [goal]


def discharge(run, hyps, goal, sums=()):
    """-> (status, backend, secs, model|None); status in proved/failed/unknown."""
    t0 = time.time()
    if z3.is_true(goal):
        return "proved", "simplifier", 0.0, None
    parts = _split(goal)
    if len(parts) > 1:
        worst, be, model = "proved", set(), None
        for p in parts:
            st, b, _, m = discharge(run, hyps, p, sums)
            be.add(b)
            if st != "proved":
                return st, b, time.time() - t0, m
        return "proved", "+".join(sorted(be)), time.time() - t0, None
    from . import ring

    st = ring.prove(hyps, goal)
    if st:
        return "proved", "ring", time.time() - t0, None
    extra = []
    if sums:
        extra = sum_congruence(run, hyps, goal, sums)
    allh = list(hyps) + list(extra)
    subs = list(relevant(allh, goal))
    r = None
    # escalating rounds: several hypothesis subsets (dropping hypotheses is sound), short limits first
    for rnd in (0.12, 1.0):
        for sub, tl in subs:
            s = z3.Solver()
            s.set("timeout", int(min(tl * rnd, run.qtimeout) * 1000))
            s.add(*sub)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return "proved", "z3", time.time() - t0, None
        s = z3.Solver()
        s.set("timeout", int((run.qtimeout if rnd == 1.0 else 0.6) * 1000))
        s.add(*allh)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", time.time() - t0, None
        if r == z3.sat:
            return "failed", "z3", time.time() - t0, s.model()
        if rnd < 1:
            g2 = z3.simplify(goal, som=True)
            for q in (0, 1):
                inst = ground_instances(allh, goal, [h for h in allh[-6:] if not z3.is_quantifier(h)], q)
                if inst is None:
                    break
                s = z3.Solver()
                s.set("timeout", 2500)
                s.add(*inst)
                s.add(z3.Not(g2))
                if s.check() == z3.unsat:
                    return "proved", "z3", time.time() - t0, None
    if time.time() < run.deadline:
        r2 = _cvc5(list(hyps) + extra, goal, min(run.qtimeout, 8))
        if r2 == "unsat":
            return "proved", "cvc5", time.time() - t0, None
        if r2 == "sat":
            return "failed", "cvc5", time.time() - t0, None
    return "unknown", "z3,cvc5", time.time() - t0, None


def _int_consts(ts):
    out, seen, st = {}, set(), list(ts)
    inv = {}
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.sort() == core.I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.get_id()] = x
            st.extend(x.children())
    return list(out.values())


def _inv_funs(hyps):
    out = {}
    seen, st = set(), list(hyps)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 1 and d.domain(0) == core.I and d.range() == core.I and "inv" in d.name():
                out[d.name()] = d
            st.extend(x.children())
    return list(out.values())


def _strip(h):
    """(vars, body) of a universally quantified hypothesis, through implications with ground premises."""
    if z3.is_quantifier(h) and h.is_forall() and all(h.var_sort(i) == core.I for i in range(h.num_vars())):
        return h
    return None


def ground_instances(hyps, goal, local, rnd):
    """Instances of the quantified hypotheses at the goal's index constants (adding instances is sound)."""
    C = [x for x in _int_consts([goal] + list(local)) if "!" in x.decl().name()]
    if not C or len(C) > 8:
        return None
    terms = list(C)
    if rnd:
        for f in _inv_funs(hyps)[:4]:
            terms += [f(x) for x in C]
        terms += [x + 1 for x in terms] + ([x - 1 for x in terms] if len(terms) < 5 else [])
    import itertools

    out = []
    q = []
    for h in hyps:
        (q if _strip(h) is not None else out).append(h)
    ground = len(out)
    for h in q:
        nv = h.num_vars()
        if len(terms) ** nv > 150:
            continue
        for tup in itertools.product(terms, repeat=nv):
            out.append(z3.simplify(z3.substitute_vars(h.body(), *reversed(tup)), som=True))
            if len(out) - ground > 1200:
                return out
    return out


_SYM = {}


def _symbols(t):
    k = t.get_id()
    if k in _SYM:
        return _SYM[k][1]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
    _SYM[k] = (t, out)
    return out


def relevant(hyps, goal):
    """Subsets of the hypotheses by shared symbols (dropping hypotheses is sound)."""
    S = set(_symbols(goal))
    n = len(hyps)
    prev = -1
    for lvl, tl in ((0, 1.5), (1, 3.0), (2, 4.0)):
        sub = [h for h in hyps if _symbols(h) <= S]
        if len(sub) == n:
            return
        if len(sub) != prev:
            prev = len(sub)
            yield sub, tl
        S2 = set(S)
        for h in hyps:
            sy = _symbols(h)
            if sy & S:
                S2 |= sy
        S = S2


def _subterms(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        if z3.is_quantifier(x):
            continue
        st.extend(x.children())
    return out


def sum_congruence(run, hyps, goal, sums):
    """Prove pointwise equality of summands of pairs of sum terms in the goal -> equality of sums."""
    ids = {x.get_id() for x in _subterms(goal)}
    here = [s for s in sums if s[0].get_id() in ids]
    uniq = {}
    for s in here:
        uniq[s[0].get_id()] = s
    here = list(uniq.values())
    out = []
    for i in range(len(here)):
        for j in range(i + 1, len(here)):
            a, b = here[i], here[j]
            if len(a[1]) != len(b[1]):
                continue
            body_b = z3.substitute(b[3], *zip(b[2], a[2]))
            rng = z3.And(*[z3.And(v >= 0, v < d) for v, d in zip(a[2], a[1])])
            g = z3.And(*[x == y for x, y in zip(a[1], b[1])], z3.Implies(rng, a[3] == body_b))
            st, *_ = discharge(run, hyps, simp(g), ())
            if st == "proved":
                out.append(a[0] == b[0])
    return out


def model_inputs(c, m):
    """Concrete values of the harness inputs under model m (small-scope runs)."""
    import itertools

    inv = {v: k for k, v in c.strs.items()}

    def num(t):
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.numerator_as_long()) / float(v.denominator_as_long())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise Unsupported("model value")

    def strv(code):
        k = -1 - code
        return inv.get(k, f"s{code}")

    out = {}
    for name, kind, t in c.inputs:
        if kind in ("int", "real", "bool"):
            out[name] = num(t)
        elif kind == "choice":
            out[name] = {"choice": t}
        elif kind == "array-c":
            fr, fi, shape = t
            a = np.zeros([int(d) for d in shape], complex)
            for ix in itertools.product(*[range(d) for d in a.shape]):
                zi = [z3.IntVal(x) for x in ix]
                a[ix] = complex(num(fr(*zi)), num(fi(*zi)))
            out[name] = {"re": a.real.tolist(), "im": a.imag.tolist(), "shape": list(a.shape)}
        else:
            f, shape = t
            k = kind[-1]
            sh = [int(d) for d in shape]
            vals = []
            for ix in itertools.product(*[range(d) for d in sh]):
                v = num(f(*[z3.IntVal(x) for x in ix]) if sh else f)
                vals.append(strv(v) if k == "U" else v)
            out[name] = {"flat": vals, "shape": sh, "kind": k}
    return out


def run_contract(con, small=None, deadline=None, qtimeout=6.0, stop_first=False, max_paths=2000):
    """Symbolically execute con on every path; discharge all obligations."""
    run = Run(deadline=deadline, qtimeout=qtimeout, max_paths=max_paths)
    t0 = time.time()
    labels = {}
    while run.work:
        if time.time() > run.deadline:
            run.unsupported.append("time budget exhausted with paths left")
            break
        if run.paths >= run.max_paths:
            run.unsupported.append("path budget exhausted")
            break
        prefix = run.work.pop()
        c = Ctx(run, prefix)
        core.CTX = c
        E = SymE(c, run, small)
        c.E = E
        exc = None
        try:
            con.fn(E)
        except PathAbort:
            run.infeasible += 1
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if os.environ.get("PVC_TB") or "/repo/" in f.filename or "contracts" in f.filename]
            run.unsupported.append(f"{e} @ {' > '.join(loc[-(14 if os.environ.get("PVC_TB") else 4):])}")
        except RecursionError as e:
            run.unsupported.append("recursion")
        except Exception as e:  # the real code (or the shim) raised
            exc = e
        run.paths += 1
        if exc is not None:
            tb = traceback.extract_tb(exc.__traceback__)
            loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-6:]
            msg = f"{type(exc).__name__}: {str(exc)[:160]} @ {' > '.join(loc)}"
            s = z3.Solver()
            s.set("timeout", int(run.qtimeout * 1000))
            for h in c.hyps:
                s.add(h)
            r = s.check()
            if r == z3.unsat:
                run.infeasible += 1
            else:
                res = dict(name="no-exception", status="failed" if r == z3.sat else "unknown", backend="z3", secs=0.0, note=msg, path=len(run.results))
                if r == z3.sat and small is not None:
                    try:
                        res["model"] = model_inputs(c, s.model())
                    except Unsupported:
                        pass
                run.results.append(res)
        # discharge
        for name, goal, nh, local in c.obls:
            hyps = c.hyps[:nh]
            # facts added while building later goals about the same symbols are harmless: use all
            # axioms that were in place when the obligation was stated
            st, be, secs, model = discharge(run, hyps + local, goal, c.sums)
            if st != "proved":
                # ... but nothing assumed after it (a lemma must not prove itself)
                up = min([q for q in c.cuts if q >= nh], default=len(c.hyps))
                st2, be2, s2, m2 = discharge(run, c.hyps[:up] + local, goal, c.sums) if up > nh else (st, be, 0, model)
                if st2 == "proved":
                    st, be, secs, model = st2, be2, secs + s2, None
            res = dict(name=name, status=st, backend=be, secs=round(secs, 3), path=run.paths)
            run.backends[be] = run.backends.get(be, 0) + 1
            if st != "proved":
                g = str(goal)
                res["note"] = g[:400]
                if model is not None and small is not None:
                    try:
                        res["model"] = model_inputs(c, model)
                    except Unsupported:
                        pass
            run.results.append(res)
            if st != "proved" and stop_first:
                core.CTX = None
                return run, time.time() - t0
        core.CTX = None
    return run, time.time() - t0
