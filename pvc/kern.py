"""Cython kernels: the .pyx text is parsed by Cython's own parser on every run and
its functions are interpreted symbolically.

Loop rules
  * concrete trip count <= 64: unrolled.
  * independent iterations (every access to an array written in the body carries
    the loop variable, unmodified, on one fixed axis; scalars written in the body
    are written before being read): the loop is a pointwise map, valid for every
    trip count.
  * scalar folds: candidate invariants "v <= A[k] for all visited k", "v >= A[k]",
    "v is one of the A[k]" are kept when inductive (Houdini); valid for every trip count.

Dropped by the extraction: C storage layout/contiguity, GIL handling, signed overflow
(unsigned 64-bit arithmetic is modelled with wrap-around), 32-bit truncation of lengths.
"""
from __future__ import annotations

import os

import numpy as np
import z3

from . import core, snp
from .core import SBool, SCplx, SInt, SReal, Unsupported, bnot, ctx, i_term, is_sym, isinstance, ite, mkbool, num_bin, tobool
from .sarr import SArr, in_range, is_sarr, lift, sand

U64 = 2**64
_INTS = {"int", "long", "Py_ssize_t", "int64_t", "int32_t", "npy_intp", "size_t", "bint", "uint32_t", "int_like"}
_FLT = {"float64_t", "double", "float", "float32_t"}


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class V:
    """typed value: t in u64, int, f, py"""

    __slots__ = ("v", "t")

    def __init__(self, v, t):
        self.v, self.t = v, t


def wrap_u64(x):
    if not is_sym(x):
        return int(x) % U64
    c = ctx()
    t = i_term(x)
    if c.must(z3.And(t >= 0, t < U64)):
        return x
    return SInt(t % U64)


def ctype(node):
    n = type(node).__name__
    if n == "CSimpleBaseTypeNode":
        nm = node.name
        if nm in ("uint64_t", "int_or_float"):
            return "u64"
        if nm in _INTS:
            return "int"
        if nm in _FLT:
            return "f"
        return "py"
    if n == "MemoryViewSliceTypeNode":
        b = ctype(node.base_type_node)
        return "mv:" + b
    return "py"


class Kern:
    def __init__(self, path, real):
        from Cython.Compiler.TreeFragment import parse_from_strings

        self.path, self.real = path, real
        with open(path) as f:
            src = f.read()
        tree = parse_from_strings(os.path.basename(path).replace(".", "_"), src, initial_pos=(path, 1, 0))
        self.funcs = {}
        self.globals = {}
        self._scan(tree.body)

    def _scan(self, n):
        k = type(n).__name__
        if k == "StatListNode":
            for s in n.stats:
                self._scan(s)
        elif k == "CFuncDefNode":
            d = n.declarator
            while type(d).__name__ != "CFuncDeclaratorNode":
                d = d.base
            self.funcs[d.base.name] = (n, d)
        elif k == "CVarDefNode":
            t = ctype(n.base_type)
            for d in n.declarators:
                if getattr(d, "default", None) is not None and t in ("u64", "int", "f"):
                    try:
                        self.globals[d.name] = V(Interp(self, {}).ev(d.default).v, t)
                    except Unsupported:
                        pass

    def call(self, name, args, kw):
        n, d = self.funcs[name]
        env = {}
        names = []
        for i, a in enumerate(d.args):
            t = ctype(a.base_type)
            dd = a.declarator
            nm = dd.name
            if not nm:  # untyped python argument: base_type carries the name
                nm, t = a.base_type.name, "py"
            names.append(nm)
            if i < len(args):
                v = args[i]
            elif nm in kw:
                v = kw[nm]
            elif a.default is not None:
                v = Interp(self, {}).ev(a.default).v
            else:
                raise Unsupported(f"kernel {name}: missing argument {nm}")
            if isinstance(v, V):
                v = v.v
            if t == "f" and not is_sym(v):
                v = float(v)
            env[nm] = V(v, t[3:] if t.startswith("mv:") else t)
        it = Interp(self, env)
        try:
            it.ex(n.body)
        except Ret as r:
            return r.v
        return None


class Recorder:
    """Element accesses to arrays inside a loop body that is being checked/evaluated as a map."""

    def __init__(self, iv):
        self.iv = iv
        self.writes = []  # (arr, idx, guard, value)
        self.accesses = {}  # id(arr) -> list of idx (reads and writes)
        self.arrs = {}


class Interp:
    def __init__(self, K, env):
        self.K, self.env = K, env
        self.rec = None
        self.guard = None  # z3 BoolRef or None
        self.olds = {}  # buffer id -> contents at loop entry

    # ---------------------------------------------------------- statements
    def ex(self, n):
        getattr(self, "s_" + type(n).__name__, self.s_unknown)(n)

    def s_unknown(self, n):
        raise Unsupported(f"kernel statement {type(n).__name__}")

    def s_StatListNode(self, n):
        for s in n.stats:
            self.ex(s)

    def s_PassStatNode(self, n):
        pass

    def s_CVarDefNode(self, n):
        t = ctype(n.base_type)
        for d in n.declarators:
            kind = type(d).__name__
            if kind == "CPtrDeclaratorNode":  # npy_intp * dims = [...]
                dd = d.base
                default = getattr(dd, "default", None) or getattr(d, "default", None)
                self.env[dd.name] = V([self.ev(x).v for x in default.args], "py")
                continue
            if kind == "CArrayDeclaratorNode":
                m = int(self.ev(d.dimension).v)
                self.env[d.base.name] = V(LocalArr(m), t)
                continue
            if kind != "CNameDeclaratorNode":
                raise Unsupported(f"kernel declarator {kind}")
            if d.default is not None:
                self.assign_name(d.name, self.ev(d.default), t)
            else:
                self.env.setdefault("@t", {})[d.name] = t
        return

    def _vtype(self, name):
        return self.env.get("@t", {}).get(name)

    def assign_name(self, name, val, t=None):
        if t is None:
            t = self._vtype(name)
        else:
            self.env.setdefault("@t", {})[name] = t
        v = val.v
        if t is None:
            t = val.t
        if t.startswith("mv:"):
            if not is_sarr(v):
                v = lift(v) if isinstance(v, np.ndarray) else v
            new = V(v, t[3:])
        elif t == "u64":
            new = V(wrap_u64(v), "u64")
        else:
            new = V(v, t if t != "py" else val.t)
        if self.guard is not None:
            old = self.env.get(name)
            if old is not None and old is not POISON:
                new = V(ite(SBool(self.guard), new.v, old.v), new.t)
            else:
                self.env.setdefault("@partial", set()).add(name)
        self.env[name] = new

    def s_SingleAssignmentNode(self, n):
        self.store(n.lhs, self.ev(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        v = self.ev(n.rhs)
        for l in n.lhs_list:
            self.store(l, v)

    def s_InPlaceAssignmentNode(self, n):
        a, b = self.ev(n.lhs), self.ev(n.rhs)
        self.store(n.lhs, self.binop(n.operator, a, b))

    def store(self, lhs, val):
        k = type(lhs).__name__
        if k == "NameNode":
            self.assign_name(lhs.name, val)
        elif k == "IndexNode":
            base = self.ev(lhs.base)
            idx = self.index(lhs.index)
            v = val.v
            if base.t == "u64":
                v = wrap_u64(v)
            if isinstance(base.v, LocalArr):
                (j,) = idx
                if self.guard is not None and base.v.vals[int(j)] is not None:
                    v = ite(SBool(self.guard), v, base.v.vals[int(j)])
                base.v.vals[int(j)] = v
                return
            if self.rec is not None and is_sarr(base.v):
                self.rec.arrs[id(base.v.buf)] = base.v
                self.rec.accesses.setdefault(id(base.v.buf), []).append(idx)
                self.rec.writes.append((base.v, idx, self.guard, v))
                return
            if self.guard is not None:
                raise Unsupported("guarded write outside a loop")
            base.v[tuple(idx) if len(idx) > 1 else idx[0]] = v
        else:
            raise Unsupported(f"kernel assignment to {k}")

    def s_ExprStatNode(self, n):
        self.ev(n.expr)

    def s_ReturnStatNode(self, n):
        if self.guard is not None:
            raise Unsupported("return under a symbolic condition in a kernel loop")
        v = self.ev(n.value).v if n.value is not None else None
        raise Ret(v)

    def s_IfStatNode(self, n):
        if self.rec is None:
            for cl in n.if_clauses:
                if bool(self.ev(cl.condition).v):
                    self.ex(cl.body)
                    return
            if n.else_clause is not None:
                self.ex(n.else_clause)
            return
        g0 = self.guard
        neg = [] if g0 is None else [g0]
        for cl in n.if_clauses:
            c = self.ev(cl.condition).v
            if isinstance(c, (bool, np.bool_)):
                if c:
                    self.guard = z3.And(*neg) if neg else None
                    self.ex(cl.body)
                    self.guard = g0
                    return
                continue
            t = tobool(c)
            self.guard = z3.And(*(neg + [t])) if neg else t
            self.ex(cl.body)
            neg = neg + [z3.Not(t)]
        if n.else_clause is not None:
            self.guard = z3.And(*neg) if neg else None
            self.ex(n.else_clause)
        self.guard = g0

    def s_GILStatNode(self, n):
        self.ex(n.body)

    def s_WithStatNode(self, n):
        f = getattr(n.manager, "function", None)
        if getattr(f, "name", None) not in ("parallel", "nogil"):
            raise Unsupported("kernel with statement")
        self.ex(n.body)

    s_ParallelWithBlockNode = s_GILStatNode

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        if type(seq).__name__ not in ("SimpleCallNode", "GeneralCallNode") or getattr(seq.function, "name", None) not in ("range", "prange"):
            raise Unsupported("kernel loop over a non-range")
        if type(seq).__name__ == "GeneralCallNode":
            args = [self.ev(a).v for a in seq.positional_args.args]
        else:
            args = [self.ev(a).v for a in seq.args]
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        if len(args) > 2 or type(n.target).__name__ != "NameNode":
            raise Unsupported("kernel loop form")
        var = n.target.name
        if not is_sym(lo) and not is_sym(hi) and hi - lo <= 64:
            for j in range(lo, hi):
                self.env[var] = V(j, "int")
                self.ex(n.body)
            return
        if self.rec is None and (is_sym(lo) or lo != 0 or (not is_sym(hi) and type(n.body).__name__ != "SingleAssignmentNode" and inner_loops(n.body))):
            try:
                self.nest(n)
                return
            except _NotNest:
                pass
        if is_sym(lo) or lo != 0:
            raise Unsupported("symbolic kernel loop not starting at 0")
        if self.rec is not None:
            raise Unsupported("nested symbolic kernel loop")
        names = assigned_names(n.body)
        state = [x for x in names if isinstance(self.env.get(x), V) and reads_before_write(n.body, x)]
        if state:
            self.fold(n, var, hi, state)
        else:
            self.pmap(n, var, hi, names)

    # ---------------------------------------------------------- loop rules
    def body_at(self, n, var, iv, names, state=None, env=None, olds=None):
        env = self.env if env is None else env
        sub = Interp(self.K, dict(env))
        sub.olds = olds or {}
        sub.env["@t"] = dict(env.get("@t", {}))
        sub.env["@partial"] = set()
        for x in names:
            sub.env[x] = POISON
        if state:
            sub.env.update(state)
        for k, v in list(sub.env.items()):
            if isinstance(v, V) and isinstance(v.v, LocalArr):
                sub.env[k] = V(LocalArr(len(v.v.vals)), v.t)
        sub.env[var] = V(iv, "int")
        sub.rec = Recorder(iv)
        sub.ex(n.body)
        return sub

    def pmap(self, n, var, hi, names):
        c = ctx()
        i = c.fresh("kl_" + var)
        with c.local([i >= 0, i < i_term(hi)]):
            sub = self.body_at(n, var, SInt(i), names)
        rec = sub.rec
        axes = {}
        for key, accs in rec.accesses.items():
            if not any(id(w[0].buf) == key for w in rec.writes):
                continue
            nd = len(accs[0])
            ax = [p for p in range(nd) if all(len(a) == nd and is_sym(a[p]) and i_term(a[p]).eq(i) for a in accs)]
            if not ax:
                raise Unsupported("kernel loop iterations are not independent")
            axes[key] = ax[0]
        # bounds: boundscheck(False) means an out-of-range access is undefined behaviour
        for key, accs in rec.accesses.items():
            arr = rec.arrs[key]
            with c.local([i >= 0, i < i_term(hi)]):
                for a in accs:
                    for x, d in zip(a, arr.shape):
                        if not c.must(tobool(in_range(x, d))):
                            c.obls.append(("kernel-index-in-bounds", tobool(in_range(x, d)), len(c.hyps), [i >= 0, i < i_term(hi)]))
        cache = {}
        env0 = dict(self.env)
        snaps = {}

        def at(iv):
            t = i_term(iv)
            k = t.get_id()
            if k not in cache:
                cache[k] = (t, self.body_at(n, var, iv, names, env=env0, olds=snaps).rec.writes)
            return cache[k][1]

        for key, p in axes.items():
            arr = rec.arrs[key]
            if arr.vmap is not None:
                raise Unsupported("kernel writes through a view")
            snaps[key] = arr.snapshot()
        for key, p in axes.items():
            arr = rec.arrs[key]
            old = snaps[key]
            slots = [j for j, w in enumerate(rec.writes) if id(w[0].buf) == key]
            full = c.must(i_term(arr.shape[p]) == i_term(hi))

            def fn(*idx, p=p, old=old, slots=slots, hi=hi, full=full):
                iv = idx[p]
                ws = at(iv)
                cur = old(*idx)
                for j in slots:
                    _, wi, g, val = ws[j]
                    conds = []
                    if g is not None:
                        conds.append(SBool(g))
                    for q, (x, y) in enumerate(zip(idx, wi)):
                        if q != p:
                            conds.append(num_bin("eq", x, y))
                    cnd = sand(*conds) if conds else True
                    cur = val if cnd is True else (cur if cnd is False else ite(cnd, val, cur))
                if full:
                    return cur
                inr = in_range(iv, hi)
                if inr is True:
                    return cur
                return ite(inr, cur, old(*idx))

            arr.buf.fn = snp.memo(fn)
            arr.buf.version += 1
            arr.meta = {}

    def nest(self, n):
        """Scatter rule for a perfect loop nest with constant outer bounds: the innermost body runs once for an arbitrary
        iteration and may only write arrays; that no two iterations write the same element, and that every element is in
        bounds, is checked by evaluating the index terms for every iteration.  Afterwards A[idx(v)] = value(v) for every
        iteration v (instantiated by the contracts through E.at_iteration)."""
        c = ctx()
        vs, node = [], n
        env = dict(self.env)
        while True:
            seq = node.iterator.sequence
            sub = Interp(self.K, env)
            args = [sub.ev(a).v for a in (seq.args if type(seq).__name__ == "SimpleCallNode" else seq.positional_args.args)]
            lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
            if len(args) > 2 or type(node.target).__name__ != "NameNode":
                raise _NotNest()
            t = c.fresh("kn_" + node.target.name)
            vs.append((t, i_term(lo), i_term(hi), node.target.name))
            env[node.target.name] = V(SInt(t), "int")
            b = node.body
            if type(b).__name__ == "StatListNode" and len(b.stats) == 1:
                b = b.stats[0]
            if type(b).__name__ != "ForInStatNode":
                body = node.body
                break
            node = b
        if inner_loops(body):
            raise _NotNest()
        names = assigned_names(n.body)
        for x in names:
            if isinstance(self.env.get(x), V) and reads_before_write(body, x):
                raise Unsupported("scalar carried between iterations of a kernel loop nest")
        hyp = [z3.And(t >= lo, t < hi) for t, lo, hi, _ in vs]
        with c.local(hyp):
            sub = Interp(self.K, dict(env))
            sub.env["@t"] = dict(self.env.get("@t", {}))
            sub.env["@partial"] = set()
            for x in names:
                if x not in [v[3] for v in vs]:
                    sub.env[x] = POISON
            sub.rec = Recorder(None)
            sub.ex(body)
        rec = sub.rec
        dom = [()]
        for j, (t, lo, hi, _) in enumerate(vs):
            nxt = []
            for d in dom:
                rep = [(vs[q][0], z3.IntVal(d[q])) for q in range(j)]
                l, h = (core.simp(z3.substitute(x, *rep) if rep else x) for x in (lo, hi))
                if not (z3.is_int_value(l) and z3.is_int_value(h)):
                    raise Unsupported("kernel loop nest with symbolic bounds")
                nxt += [d + (q,) for q in range(l.as_long(), h.as_long())]
            dom = nxt
            if len(dom) > 10**6:
                raise Unsupported("kernel loop nest too large")
        by = {}
        for w in rec.writes:
            by.setdefault(id(w[0].buf), []).append(w)
        for key, ws in by.items():
            arr = ws[0][0]
            if arr.vmap is not None or arr.ndim != 1 or len(rec.accesses[key]) != len(ws):
                raise Unsupported("kernel loop nest: form of the accesses")
            it = core.simp(i_term(ws[0][1][0]))
            if any(not core.simp(i_term(w[1][0])).eq(it) for w in ws):
                raise Unsupported("kernel loop nest: several elements written per iteration")
            if is_sym(arr.shape[0]):
                raise Unsupported("kernel loop nest: symbolic array length")
            seen, bad = set(), None
            pyidx = term_evaluator(it, [v[0] for v in vs])
            for d in dom:
                q = pyidx(*d)
                if q in seen or not 0 <= q < int(arr.shape[0]):
                    bad = (d, q)
                    break
                seen.add(q)
            c.obls.append((f"kernel nest {arr_name(n)}: each element written at most once, in bounds {bad or ''}", z3.BoolVal(bad is None), len(c.hyps), []))
            if bad:
                raise Unsupported(f"kernel loop nest: iterations collide at {bad}")
            old = arr.snapshot()
            j = c.fresh("kj").decl()
            A = z3.Function(str(j) + "_a", z3.IntSort(), z3.BoolSort() if arr.kind == "b" else z3.IntSort())
            wrapk = mkbool if arr.kind == "b" else SInt
            arr.buf.fn = lambda q, A=A, wrapk=wrapk: wrapk(A(i_term(q)))
            arr.buf.version += 1
            arr.meta = {}

            def inst(vals, ws=ws, it=it, A=A, old=old):
                rep = [(v[0], i_term(x)) for v, x in zip(vs, vals)]
                cur = old(SInt(it))
                for _, _, g, val in ws:
                    cur = val if g is None else ite(SBool(g), val, cur)
                cur = tobool(cur) if not z3.is_int(A(it)) else i_term(cur)
                return z3.substitute(z3.Implies(z3.And(*hyp), A(it) == cur), *rep)

            arr.buf.scatter = (len(dom), inst)

    def fold(self, n, var, hi, state):
        c = ctx()
        if len(state) != 1:
            raise Unsupported("kernel fold over several scalars")
        x = state[0]
        names = [m for m in assigned_names(n.body) if m != x]
        init = self.env[x]
        i = c.fresh("kl_" + var)
        v = SInt(c.fresh("kf_" + x)) if init.t != "f" else SReal(c.fresh("kf_" + x, core.R))
        loc = [i >= 0, i < i_term(hi)]
        if init.t == "u64":  # values of the C type
            loc += [v.t >= 0, v.t < U64]
        with c.local(loc):
            sub = self.body_at(n, var, SInt(i), names, {x: V(v, init.t)})
            if sub.rec.writes:
                raise Unsupported("fold loop writes arrays")
            post = sub.env[x].v
            cands = []
            for key, accs in sub.rec.accesses.items():
                arr = sub.rec.arrs[key]
                if arr.ndim == 1 and all(is_sym(a[0]) and i_term(a[0]).eq(i) for a in accs):
                    cands.append(arr)
            if len(cands) != 1:
                raise Unsupported("fold loop shape")
            A = cands[0]
            ai = A.at(SInt(i))
            le = c.must(tobool(sand(num_bin("le", post, v), num_bin("le", post, ai))))
            ge = c.must(tobool(sand(num_bin("le", v, post), num_bin("le", ai, post))))
            one = c.must(z3.Or(tobool(num_bin("eq", post, v)), tobool(num_bin("eq", post, ai))))
        one = one and c.must(tobool(num_bin("eq", init.v, A.at(0))))
        if not (le or ge or one):
            raise Unsupported("no inductive candidate for a fold loop")
        if not c.must(i_term(A.shape[0]) == i_term(hi)):
            raise Unsupported("fold loop over part of an array")
        w = c.fresh("kw")
        r = A.at(SInt(w)) if one else (SInt(c.fresh("kr_" + x)) if init.t != "f" else SReal(c.fresh("kr_" + x, core.R)))
        if one:
            c.add(z3.And(w >= 0, z3.Implies(i_term(hi) >= 1, w < i_term(hi))))
        fa = A.snapshot()
        for ok, op in ((le, "le"), (ge, "ge")):
            if ok:
                (k,) = c.binder(1)
                c.add(c.quant([k], lambda q: core.simp(z3.Implies(z3.And(q >= 0, q < i_term(hi)), tobool(num_bin(op, r, fa(SInt(q))))))))
        self.env[x] = V(r, init.t)

    # ---------------------------------------------------------- expressions
    def ev(self, n):
        return getattr(self, "e_" + type(n).__name__, self.e_unknown)(n)

    def e_unknown(self, n):
        raise Unsupported(f"kernel expression {type(n).__name__}")

    def index(self, n):
        if type(n).__name__ == "TupleNode":
            return [self.ev(a).v for a in n.args]
        return [self.ev(n).v]

    def e_IntNode(self, n):
        return V(int(n.value, 0), "int")

    def e_FloatNode(self, n):
        return V(float(n.value), "f")

    def e_BoolNode(self, n):
        return V(bool(n.value), "py")

    def e_NoneNode(self, n):
        return V(None, "py")

    def e_UnicodeNode(self, n):
        return V(str(n.value), "py")

    e_StringNode = e_UnicodeNode

    def e_TupleNode(self, n):
        return V(tuple(self.ev(a).v for a in n.args), "py")

    def e_ListNode(self, n):
        return V([self.ev(a).v for a in n.args], "py")

    def e_DictNode(self, n):
        return V({self.ev(kv.key).v: self.ev(kv.value).v for kv in n.key_value_pairs}, "py")

    def e_NameNode(self, n):
        v = self.env.get(n.name)
        if v is POISON:
            raise Unsupported(f"scalar {n.name} carried between iterations")
        if n.name in self.env.get("@partial", ()) and self.guard is None:
            raise Unsupported(f"scalar {n.name} only conditionally assigned")
        if v is not None:
            return v
        if n.name in self.K.globals:
            return self.K.globals[n.name]
        if n.name == "pi":
            return V(np.pi, "f")
        raise Unsupported(f"kernel name {n.name}")

    def e_TypecastNode(self, n):
        return self.ev(n.operand)

    def e_CondExprNode(self, n):
        c = self.ev(n.test).v
        a, b = self.ev(n.true_val), self.ev(n.false_val)
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        return V(ite(c, a.v, b.v), a.t)

    def e_PrimaryCmpNode(self, n):
        a, b = self.ev(n.operand1), self.ev(n.operand2)
        if n.cascade is not None:
            raise Unsupported("cascaded comparison")
        op = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}.get(n.operator)
        if op is None:
            raise Unsupported(f"kernel comparison {n.operator}")
        x, y = self.unsig(a, b)
        return V(num_bin(op, x, y), "py")

    def e_BoolBinopNode(self, n):
        a = self.ev(n.operand1).v
        if isinstance(a, (bool, np.bool_)):
            if n.operator == "and" and not a:
                return V(False, "py")
            if n.operator == "or" and a:
                return V(True, "py")
            return V(self.ev(n.operand2).v, "py")
        b = self.ev(n.operand2).v
        ta, tb = tobool(a), tobool(b)
        return V(mkbool(z3.And(ta, tb) if n.operator == "and" else z3.Or(ta, tb)), "py")

    def e_NotNode(self, n):
        return V(bnot(self.ev(n.operand).v), "py")

    def e_UnaryMinusNode(self, n):
        a = self.ev(n.operand)
        return V(num_bin("sub", 0, a.v), a.t)

    def e_UnaryPlusNode(self, n):
        return self.ev(n.operand)

    def unsig(self, a, b):
        if "u64" in (a.t, b.t) and "f" not in (a.t, b.t):
            return wrap_u64(a.v), wrap_u64(b.v)
        return a.v, b.v

    def binop(self, op, a, b):
        if is_sarr(a.v) or is_sarr(b.v):
            import operator

            f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}.get(op)
            if f is None:
                raise Unsupported(f"kernel array operator {op}")
            return V(f(a.v if is_sarr(a.v) else lift(a.v) if isinstance(a.v, np.ndarray) else a.v, b.v if is_sarr(b.v) else lift(b.v) if isinstance(b.v, np.ndarray) else b.v), "py")
        t = "f" if "f" in (a.t, b.t) else ("u64" if "u64" in (a.t, b.t) else ("int" if a.t == b.t == "int" else "py"))
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "div", "//": "floordiv", "%": "mod", "**": "pow"}.get(op)
        if nm is None:
            raise Unsupported(f"kernel operator {op}")
        if nm in ("floordiv", "mod"):
            x, y = self.unsig(a, b)
            return V(num_bin(nm, x, y), t)
        if nm == "div":
            if t in ("int", "u64"):
                t = "f"
            return V(num_bin("div", a.v, b.v), t)
        if nm == "pow" and not is_sym(b.v) and not is_sym(a.v):
            return V(a.v**b.v, t)
        if nm == "pow":
            if is_sym(b.v) or int(b.v) != b.v:
                raise Unsupported("kernel power")
            e = int(b.v)
            r = 1
            for _ in range(abs(e)):
                r = num_bin("mul", r, a.v)
            return V(r if e >= 0 else num_bin("div", 1, r), t)
        return V(num_bin(nm, a.v, b.v), t)

    def _bin(self, n):
        return self.binop(n.operator, self.ev(n.operand1), self.ev(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_NumBinopNode = _bin

    def e_IndexNode(self, n):
        base = self.ev(n.base)
        if type(n.index).__name__ == "TupleNode" and is_sarr(base.v) or is_sarr(base.v):
            idx = self.index(n.index)
            if self.rec is not None:
                self.rec.arrs[id(base.v.buf)] = base.v
                self.rec.accesses.setdefault(id(base.v.buf), []).append(idx)
                # value written earlier in the same iteration
                cur = None
                ws = [w for w in self.rec.writes if w[0].buf is base.v.buf]
                if len(idx) != base.v.ndim:
                    raise Unsupported("partial indexing in a kernel loop")
                cur = self.olds[id(base.v.buf)](*idx) if id(base.v.buf) in self.olds else base.v.at(*idx)
                for _, wi, g, val in ws:
                    conds = [num_bin("eq", x, y) for x, y in zip(idx, wi)]
                    if g is not None:
                        conds.append(SBool(g))
                    cnd = sand(*conds)
                    if is_sym(cnd):
                        s = core.simp(tobool(cnd))
                        cnd = True if z3.is_true(s) else (False if z3.is_false(s) else cnd)
                    cur = val if cnd is True else (cur if cnd is False else ite(cnd, val, cur))
                return V(cur, base.t)
            r = base.v[tuple(idx) if len(idx) > 1 else idx[0]]
            return V(r, base.t)
        idx = self.index(n.index)
        if isinstance(base.v, LocalArr):
            r = base.v.vals[int(idx[0])]
            if r is None:
                raise Unsupported("uninitialised local array element")
            return V(r, base.t)
        if isinstance(base.v, np.ndarray):
            if any(is_sym(q) for q in idx):
                return V(lift(base.v).at(*idx), base.t)
            r = base.v[tuple(idx)]
            return V(r.item() if isinstance(r, np.generic) else r, base.t)
        if type(base.v) is dict and len(idx) == 1 and is_sym(idx[0]):
            return V(dict_lookup(base.v, idx[0]), "int")
        return V(base.v[tuple(idx) if len(idx) > 1 else idx[0]], base.t if base.t != "py" else "int")

    def e_AttributeNode(self, n):
        o = self.ev(n.obj)
        r = getattr(o.v, n.attribute)
        t = "py"
        if n.attribute == "T":
            t = o.t
        elif not is_sym(r) and isinstance(r, float):
            t = "f"
        return V(r, t)

    def e_SimpleCallNode(self, n):
        f = n.function
        args = [self.ev(a) for a in n.args] if not (type(f).__name__ == "AttributeNode" and f.attribute.startswith("PyArray")) else None
        if type(f).__name__ == "NameNode":
            nm = f.name
            if nm in self.K.funcs:
                r = self.K.call(nm, args, {})
                rt = ctype(self.K.funcs[nm][0].base_type)
                if nm == "max" or rt == "u64":
                    rt = "u64"
                return V(r, rt)
            x = [a.v for a in args]
            if nm in ("sin", "cos"):
                return V(core.strig(nm, x[0]) if is_sym(x[0]) else getattr(np, nm)(x[0]), "f")
            if nm == "sqrt":
                return V(core.ssqrt(x[0]) if is_sym(x[0]) else float(np.sqrt(x[0])), "f")
            if nm == "atan2":
                return V(core.satan2(*x) if any(is_sym(q) for q in x) else float(np.arctan2(*x)), "f")
            if nm == "exp":
                return V(core.sexp(x[0]) if is_sym(x[0]) else float(np.exp(x[0])), "f")
            if nm == "int":
                from .load import int_

                return V(int_(x[0]), "int")
            raise Unsupported(f"kernel call {nm}")
        if type(f).__name__ == "AttributeNode":
            o = f.obj
            if type(o).__name__ == "NameNode" and o.name == "numpy":
                if f.attribute in ("PyArray_EMPTY", "PyArray_ZEROS"):
                    dims = self.ev(n.args[1]).v
                    ty = n.args[2].attribute
                    dt = {"NPY_UINT64": np.uint64, "NPY_FLOAT64": float, "NPY_INT64": int}.get(ty)
                    if dt is None:
                        raise Unsupported(ty)
                    sh = tuple(dims)
                    r = snp.fresh_array("kempty", sh, "f" if dt is float else "i", dtype=np.dtype(dt)) if f.attribute == "PyArray_EMPTY" else lift(snp.zeros(sh, dtype=dt))
                    return V(r, "f" if dt is float else ("u64" if dt is np.uint64 else "int"))
                if f.attribute == "PyArray_Arange":
                    a = [self.ev(x).v for x in n.args[:3]]
                    return V(np.arange(*a).astype({"NPY_FLOAT64": float, "NPY_INT64": int}[n.args[3].attribute]), "py")
                if f.attribute == "PyArray_Reshape":
                    a, sh = self.ev(n.args[0]), self.ev(n.args[1]).v
                    return V(a.v.reshape(sh), a.t)
                if f.attribute == "PyArray_FROMANY":
                    if n.args[1].attribute != "NPY_FLOAT64":
                        raise Unsupported("PyArray_FROMANY")
                    a = self.ev(n.args[0]).v
                    lo, hi = self.ev(n.args[2]).v, self.ev(n.args[3]).v
                    if (lo and a.ndim < lo) or (hi and a.ndim > hi):
                        raise ValueError("object of unexpected depth")
                    return V(a if is_sarr(a) else lift(np.asarray(a, dtype=float)), "py")
                if f.attribute == "PyArray_NDIM":
                    return V(self.ev(n.args[0]).v.ndim, "int")
                if f.attribute == "PyArray_Squeeze":
                    return V(snp.function_call("squeeze", (self.ev(n.args[0]).v,), {}), "py")
            if type(o).__name__ == "NameNode" and o.name == "warnings":
                return V(None, "py")
        raise Unsupported("kernel call")


class _Poison:
    pass


def dict_lookup(d, k):
    """d[k] for a dict of integers and a symbolic key: a function symbol defined by the table, the key proved present."""
    c = ctx()
    if not all(type(a) is int and type(b) is int for a, b in d.items()):
        raise Unsupported("symbolic dictionary lookup")
    tabs = c.__dict__.setdefault("_dict_tabs", {})
    key = tuple(sorted(d.items()))
    if key not in tabs:
        F = z3.Function(f"ktab{len(tabs)}", z3.IntSort(), z3.IntSort())
        for a, b in key:
            c.add(F(z3.IntVal(a)) == b)
        x = c.fresh("kt")
        ks = sorted(d)
        if ks == list(range(ks[0], ks[-1] + 1)):  # facts over the whole table, checked here entry by entry
            lo, hi = min(d.values()), max(d.values())
            c.add(z3.ForAll([x], z3.Implies(z3.And(x >= ks[0], x <= ks[-1]), z3.And(F(x) >= lo, F(x) <= hi)), patterns=[F(x)]))
            if len(set(d.values())) == len(d):
                G = z3.Function(f"ktab{len(tabs)}!inv", z3.IntSort(), z3.IntSort())
                c.add(z3.ForAll([x], z3.Implies(z3.And(x >= ks[0], x <= ks[-1]), G(F(x)) == x), patterns=[F(x)]))
        tabs[key] = F
    t = i_term(k)
    ks = sorted(d)
    ok = z3.And(t >= ks[0], t <= ks[-1]) if ks == list(range(ks[0], ks[-1] + 1)) else z3.Or(*[t == a for a in ks])
    if not c.must(ok):
        c.obls.append(("dictionary key present", ok, len(c.hyps), []))
    return SInt(tabs[key](t))


class _NotNest(Exception):
    pass


def arr_name(n):
    return f"at line {n.pos[1]}"


def inner_loops(n):
    k = type(n).__name__
    if k == "ForInStatNode":
        return True
    if k == "StatListNode":
        return any(inner_loops(x) for x in n.stats)
    if k == "IfStatNode":
        return any(inner_loops(cl.body) for cl in n.if_clauses) or (n.else_clause is not None and inner_loops(n.else_clause))
    return False


def term_evaluator(t, vs):
    """Python function computing an integer term of the given variables exactly."""
    from fractions import Fraction
    import math

    pos = {v.get_id(): j for j, v in enumerate(vs)}
    K = z3

    def go(x):
        if x.get_id() in pos:
            return f"v{pos[x.get_id()]}"
        if z3.is_int_value(x):
            return f"({x.as_long()})"
        if z3.is_rational_value(x):
            return f"Fraction({x.numerator_as_long()},{x.denominator_as_long()})"
        a = [go(y) for y in x.children()]
        k = x.decl().kind()
        if k == K.Z3_OP_ADD:
            return "(" + "+".join(a) + ")"
        if k == K.Z3_OP_MUL:
            return "(" + "*".join(a) + ")"
        if k == K.Z3_OP_SUB:
            return "(" + "-".join(a) + ")"
        if k == K.Z3_OP_UMINUS:
            return f"(-{a[0]})"
        if k == K.Z3_OP_TO_REAL:
            return f"Fraction({a[0]})"
        if k == K.Z3_OP_TO_INT:
            return f"math.floor({a[0]})"
        if k == K.Z3_OP_IDIV and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
            return f"({a[0]}//{a[1]})"
        if k == K.Z3_OP_MOD and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
            return f"({a[0]}%{a[1]})"
        if k == K.Z3_OP_DIV and z3.is_rational_value(x.arg(1)):
            return f"(Fraction({a[0]})/{a[1]})"
        if k == K.Z3_OP_ITE:
            return f"({a[1]} if {a[0]} else {a[2]})"
        for kk, op in ((K.Z3_OP_LE, "<="), (K.Z3_OP_GE, ">="), (K.Z3_OP_LT, "<"), (K.Z3_OP_GT, ">"), (K.Z3_OP_EQ, "==")):
            if k == kk:
                return f"({a[0]}{op}{a[1]})"
        if k == K.Z3_OP_NOT:
            return f"(not {a[0]})"
        if k == K.Z3_OP_AND:
            return "(" + " and ".join(a) + ")"
        if k == K.Z3_OP_OR:
            return "(" + " or ".join(a) + ")"
        raise Unsupported(f"kernel loop nest: index term {x.decl()}")

    return eval("lambda " + ",".join(f"v{j}" for j in range(len(vs))) + ": " + go(t), {"Fraction": Fraction, "math": math})


POISON = _Poison()


class LocalArr:
    def __init__(self, n):
        self.vals = [None] * n


def assigned_names(n, out=None):
    out = [] if out is None else out

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
            return
        k = type(x).__name__
        if k in ("SingleAssignmentNode", "InPlaceAssignmentNode") and type(x.lhs).__name__ == "NameNode" and x.lhs.name not in out:
            out.append(x.lhs.name)
        if k == "ForInStatNode" and type(x.target).__name__ == "NameNode" and x.target.name not in out:
            out.append(x.target.name)
        for a in x.child_attrs or []:
            c = getattr(x, a, None)
            if c is not None:
                walk(c)

    walk(n)
    return out


def reads_before_write(body, name):
    """Conservative: may `name` be read in an iteration before being (unconditionally) written in it?"""
    state = {"written": False, "bad": False}

    def expr(x):
        if x is None or state["written"]:
            return
        if isinstance(x, list):
            for y in x:
                expr(y)
            return
        if type(x).__name__ == "NameNode" and x.name == name:
            state["bad"] = True
        for a in x.child_attrs or []:
            expr(getattr(x, a, None))

    def st(x, cond):
        k = type(x).__name__
        if k == "StatListNode":
            for y in x.stats:
                st(y, cond)
        elif k == "SingleAssignmentNode":
            expr(x.rhs)
            if type(x.lhs).__name__ == "NameNode":
                if x.lhs.name == name and not cond:
                    state["written"] = True
            else:
                expr(x.lhs)
        elif k == "IfStatNode":
            for cl in x.if_clauses:
                expr(cl.condition)
                st(cl.body, True)
            if x.else_clause is not None:
                st(x.else_clause, True)
        elif k == "ForInStatNode":
            expr(x.iterator)
            st(x.body, True)
        else:
            expr(x)

    st(body, False)
    return state["bad"]


class KernModule:
    """Stands for a compiled extension in proof mode: symbolic calls are interpreted from the .pyx text."""

    def __init__(self, path, real):
        object.__setattr__(self, "_path", path)
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_k", None)

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if not callable(real) or isinstance(real, type):
            return real
        path, mod = self._path, self

        def call(*args, **kw):
            if not any(snp.has_sym(a) for a in args) and not any(snp.has_sym(a) for a in kw.values()):
                return real(*args, **kw)
            if mod._k is None:
                object.__setattr__(mod, "_k", Kern(path, mod._real))
            if name not in mod._k.funcs:
                raise Unsupported(f"kernel function {name}")
            return mod._k.call(name, list(args), kw)

        return call
