"""Contracts (axiomatic models) of the numpy functions the real code calls.

Every handler gives the numpy result as an SArr whose elements are terms; the
facts emitted with ``ctx().side``/``add`` are the *trusted contracts* of numpy
(cross-checked against real numpy by selftest.py on every setup).
"""
from __future__ import annotations

import itertools

import numpy as np
import z3

from .core import isinstance  # noqa: A004
from . import core
from .core import (
    SBool, SCplx, SInt, SReal, SStr, Sym, Unsupported, bnot, cast_scalar, ctx,
    i_term, is_sym, ite, join_kind, kind_of, mkbool, mkint, mkreal, num_bin, r_term, tobool,
)
from .sarr import (
    SArr, dims_eq_or_fork, in_range, is_sarr, lift, same_dim, sand, simplies, smax, smin, sor,
    stack_list, _DT, check_bounds,
)
from .sseq import SList, SSet, e_term, mk, toset

EXPAND = 24  # concrete axis lengths up to this are expanded pointwise


def memo(fn):
    cache = {}

    def g(*idx):
        key = tuple(i.t.get_id() if is_sym(i) else int(i) for i in idx)
        r = cache.get(key)
        if r is None:
            v = fn(*idx)
            cache[key] = (v, idx)
            return v
        return r[0]

    return g


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e, depth + 1) for e in x.values())
    if isinstance(x, slice):
        return any(is_sym(e) for e in (x.start, x.stop, x.step))
    return False


# ---------------------------------------------------------------- broadcasting
def bdim(a, b):
    if not is_sym(a) and not is_sym(b):
        if a == b or b == 1:
            return a
        if a == 1:
            return b
        raise ValueError(f"operands could not be broadcast together: {a} vs {b}")
    if not is_sym(a) and a == 1:
        return b
    if not is_sym(b) and b == 1:
        return a
    if same_dim(a, b):
        return a if is_sym(a) and not is_sym(b) is False else (b if not is_sym(b) else a)
    c = ctx()
    if c.must(tobool(num_bin("eq", a, 1))):
        return b
    if c.must(tobool(num_bin("eq", b, 1))):
        return a
    if dims_eq_or_fork(a, b):
        return b if not is_sym(b) else a
    if bool(num_bin("eq", a, 1)):
        return b
    if bool(num_bin("eq", b, 1)):
        return a
    raise ValueError("operands could not be broadcast together (symbolic shapes)")


def broadcast_shapes(*shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = [1] * nd
    for s in shapes:
        off = nd - len(s)
        for i, d in enumerate(s):
            out[off + i] = bdim(out[off + i], d)
    return tuple(out)


def broadcast_getter(arr, shape, check=False):
    f = arr.snapshot()
    nd, off = len(shape), len(shape) - arr.ndim
    if off < 0:
        raise ValueError("could not broadcast input array")
    how = []
    for i, d in enumerate(arr.shape):
        D = shape[off + i]
        if not is_sym(d) and d == 1:
            how.append(not is_sym(D) and D == 1)
            if how[-1]:
                how[-1] = True
            continue
        if same_dim(d, D):
            how.append(True)
        elif ctx().must(tobool(num_bin("eq", d, 1))):
            how.append(False)
        else:
            if dims_eq_or_fork(d, D):
                how.append(True)
            elif bool(num_bin("eq", d, 1)):
                how.append(False)
            else:
                raise ValueError("could not broadcast input array")

    def g(*idx):
        return f(*[idx[off + i] if h else 0 for i, h in enumerate(how)])

    return g


_CMP = ("lt", "le", "gt", "ge", "eq", "ne")


def _res_kind(op, ka, kb):
    if op in _CMP or op in ("land", "lor", "lxor"):
        return "b"
    if op in ("and", "or", "xor"):
        return join_kind(ka, kb)
    if op == "div":
        k = join_kind(ka, kb)
        return k if k in "fc" else "f"
    if op == "pow":
        return join_kind(ka, kb)
    if op in ("max", "min"):
        return join_kind(ka, kb)
    if op == "atan2":
        return "f"
    k = join_kind(ka, kb)
    if k == "b" and op in ("sub",):
        raise TypeError("numpy boolean subtract")
    if k == "b" and op in ("floordiv", "mod"):
        return "i"
    return k


def scalar_op(op, x, y):
    if op in ("and", "land"):
        if op == "and" and (kind_of(x) != "b" or kind_of(y) != "b"):
            raise Unsupported("bitwise and on ints")
        return sand(_b(x), _b(y))
    if op in ("or", "lor"):
        if op == "or" and (kind_of(x) != "b" or kind_of(y) != "b"):
            raise Unsupported("bitwise or on ints")
        return sor(_b(x), _b(y))
    if op in ("xor", "lxor"):
        return mkbool(z3.Xor(tobool(x), tobool(y)))
    if op == "max":
        return ite(num_bin("ge", x, y), x, y)
    if op == "min":
        return ite(num_bin("le", x, y), x, y)
    if op == "atan2":
        return core.satan2(y=x, x=y)
    r = num_bin(op, x, y)
    if r is NotImplemented:
        raise Unsupported(f"scalar {op} on {type(x)} {type(y)}")
    return r


def _b(x):
    return mkbool(tobool(x)) if is_sym(x) else bool(x)


def elementwise(op, a, b):
    A = a if is_sarr(a) else None
    B = b if is_sarr(b) else None
    if A is None and (type(a) is SList or isinstance(a, (list, tuple, np.ndarray)) and not is_sym(a)):
        A = lift(a)
    if B is None and (type(b) is SList or isinstance(b, (list, tuple, np.ndarray)) and not is_sym(b)):
        B = lift(b)
    if A is None and B is None:
        return scalar_op(op, a, b)
    if A is None:
        A = _lift_scalar(a)
        if A is NotImplemented:
            return NotImplemented
    if B is None:
        B = _lift_scalar(b)
        if B is NotImplemented:
            return NotImplemented
    for X, Y, rev in ((A, B, False), (B, A, True)):
        if "vals" in X.meta and Y.ndim == 0 and X.kind != "U" and Y.kind != "U":
            y0 = Y.at()
            kind = _res_kind(op, A.kind, B.kind)
            g = X.snapshot()
            fop = (lambda x: cast_scalar(scalar_op(op, y0, x), kind)) if rev else (lambda x: cast_scalar(scalar_op(op, x, y0), kind))
            r = SArr(X._shape, kind, memo(lambda *i: fop(g(*i))))
            r.meta["vals"] = [(d, (lambda *i, gg=gg: fop(gg(*i)))) for d, gg in X.meta["vals"]]
            return r
    if (A.kind == "U") != (B.kind == "U") and op in ("eq", "ne"):
        shape = broadcast_shapes(A.shape, B.shape)
        return SArr(shape, "b", lambda *i: op == "ne")
    shape = broadcast_shapes(A.shape, B.shape)
    kind = _res_kind(op, A.kind, B.kind)
    fa, fb = broadcast_getter(A, shape), broadcast_getter(B, shape)
    if not shape:
        return scalar_op(op, fa(), fb())
    dt = None
    if kind == A.kind == B.kind and A.dtype == B.dtype:
        dt = A.dtype
    elif kind in "fc" and kind == A.kind and B.ndim == 0:
        dt = A.dtype
    elif kind in "fc" and kind == B.kind and A.ndim == 0:
        dt = B.dtype
    elif kind == "c" and A.dtype.kind in "fc" and B.dtype.kind in "fc":
        dt = np.result_type(A.dtype, B.dtype)
    return SArr(shape, kind, memo(lambda *i: cast_scalar(scalar_op(op, fa(*i), fb(*i)), kind)), dtype=dt)


def _lift_scalar(x):
    if isinstance(x, np.generic):
        x = x.item()
    try:
        k = kind_of(x)
    except Unsupported:
        return NotImplemented
    return SArr((), k, lambda: x)


def umap(x, f, kind=None, keep=False):
    """unary elementwise on scalar / array."""
    if type(x) is SList or (isinstance(x, (list, tuple, np.ndarray)) and not is_sym(x)):
        x = lift(x)
    if is_sarr(x):
        k = kind(x.kind) if callable(kind) else (kind or x.kind)
        src = x.snapshot()
        r = SArr(x.shape, k, memo(lambda *i: f(src(*i))), dtype=x.dtype if k == x.kind else None)
        return r if x.ndim else r.at()
    return f(x)


def _conj(v):
    if type(v) is SCplx:
        return v.conj()
    if is_sym(v):
        return v
    return np.conj(v).item()


def _real(v):
    return v.re if type(v) is SCplx else (v if is_sym(v) else np.real(v).item())


def _imag(v):
    return v.im if type(v) is SCplx else (0.0 if is_sym(v) else np.imag(v).item())


def _angle(v):
    if type(v) is SCplx:
        return core.satan2(v.im, v.re)
    raise Unsupported("angle of a real")


def _sfloor(v):
    if not is_sym(v):
        return float(np.floor(v))
    if kind_of(v) == "i":
        return v
    return mkreal(z3.ToReal(z3.ToInt(r_term(v))))


def _sceil(v):
    if not is_sym(v):
        return float(np.ceil(v))
    if kind_of(v) == "i":
        return v
    return mkreal(-z3.ToReal(z3.ToInt(-r_term(v))))


def _srint(v):
    """round half to even."""
    if not is_sym(v):
        return float(np.rint(v))
    if kind_of(v) == "i":
        return v
    t = r_term(v)
    fl = z3.ToInt(t)
    fr = t - z3.ToReal(fl)
    half = z3.RealVal("1/2")
    q = z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return mkreal(z3.ToReal(q))


def _ssign(v):
    if not is_sym(v):
        return np.sign(v).item()
    z, o, m = (0, 1, -1) if kind_of(v) == "i" else (0.0, 1.0, -1.0)
    return ite(num_bin("gt", v, 0), o, ite(num_bin("lt", v, 0), m, z))


def _tofloat(k):
    return "f" if k in "bi" else k


_PI = z3.RealVal(__import__("fractions").Fraction(float(np.pi)))

UN = {
    "absolute": (abs, lambda k: "f" if k == "c" else k),
    "negative": (lambda v: -v, None),
    "positive": (lambda v: v, None),
    "conjugate": (_conj, None),
    "sqrt": (core.ssqrt, _tofloat),
    "sin": (lambda v: core.strig("sin", v), _tofloat),
    "cos": (lambda v: core.strig("cos", v), _tofloat),
    "exp": (core.sexp, _tofloat),
    "log": (lambda v: core.suf("log", v), _tofloat),
    "log10": (lambda v: core.suf("log10", v), _tofloat),
    "tan": (lambda v: num_bin("div", core.strig("sin", v), core.strig("cos", v)), _tofloat),
    "arcsin": (lambda v: sarcsin(v), _tofloat),
    "arccos": (lambda v: core.suf("arccos", v), _tofloat),
    "arctan": (lambda v: core.satan2(v, 1.0), _tofloat),
    "floor": (_sfloor, _tofloat),
    "ceil": (_sceil, _tofloat),
    "rint": (_srint, _tofloat),
    "square": (lambda v: num_bin("mul", v, v), None),
    "sign": (_ssign, None),
    "isnan": (lambda v: False if is_sym(v) else bool(np.isnan(v)), "b"),
    "isinf": (lambda v: False if is_sym(v) else bool(np.isinf(v)), "b"),
    "isfinite": (lambda v: True if is_sym(v) else bool(np.isfinite(v)), "b"),
    "logical_not": (lambda v: bnot(_b(v)), "b"),
    "invert": (lambda v: bnot(v), None),
    "deg2rad": (lambda v: num_bin("mul", v, float(np.pi) / 180.0), _tofloat),
    "rad2deg": (lambda v: num_bin("mul", v, 180.0 / float(np.pi)), _tofloat),
    "radians": (lambda v: num_bin("mul", v, float(np.pi) / 180.0), _tofloat),
    "degrees": (lambda v: num_bin("mul", v, 180.0 / float(np.pi)), _tofloat),
    "real": (_real, lambda k: "f" if k == "c" else k),
    "imag": (_imag, lambda k: "f" if k == "c" else k),
    "angle": (_angle, lambda k: "f"),
    "reciprocal": (lambda v: num_bin("div", 1.0, v), None),
}
UN["abs"] = UN["fabs"] = UN["absolute"]
UN["conj"] = UN["conjugate"]
UN["bitwise_not"] = UN["invert"]

BIN = {
    "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div",
    "floor_divide": "floordiv", "mod": "mod", "remainder": "mod", "power": "pow",
    "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq",
    "not_equal": "ne", "logical_and": "land", "logical_or": "lor", "logical_xor": "lxor",
    "bitwise_and": "and", "bitwise_or": "or", "bitwise_xor": "xor", "maximum": "max",
    "minimum": "min", "arctan2": "atan2", "fmax": "max", "fmin": "min",
}


def sarcsin(v):
    """arcsin contract: sin(a) = v, cos(a) = sqrt(1 - v^2), |a| <= pi/2."""
    if not is_sym(v):
        return float(np.arcsin(v))
    t = core.simp(r_term(v))
    a = core.ufun("arcsin!", core.R, core.R)(t)
    s, c = r_term(core.strig("sin", SReal(a))), r_term(core.strig("cos", SReal(a)))
    ctx().side(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(s == t, c >= 0)))
    return SReal(a)


def _out(r, kw):
    out = kw.get("out")
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if not is_sarr(out):
        raise Unsupported("out= concrete array")
    g = broadcast_getter(lift(r), out.shape)
    out.update(lambda *i: True, g)
    return out


def _where_kw(r, kw, inputs):
    w = kw.get("where", True)
    if w is True:
        return r
    out = kw.get("out")
    if out is None:
        # entries where the condition is false are unspecified
        r = lift(r)
        if r.kind not in "if":
            raise Unsupported("ufunc where= without out")
        rf = ctx().fresh_fun("unspec", *[core.I] * r.ndim, core.I if r.kind == "i" else core.R) if r.ndim else None
        wrap_ = core.mkint if r.kind == "i" else core.mkreal
        if rf is None:
            out = wrap_(ctx().fresh("unspec", core.I if r.kind == "i" else core.R))
        else:
            out = SArr(r.shape, r.kind, lambda *i: wrap_(rf(*[i_term(x) for x in i])))
        return where(w, r, out)
    out = out[0] if isinstance(out, tuple) else out
    return where(w, r, out)


def ufunc_call(name, inputs, kw):
    kw = dict(kw)
    kw.pop("casting", None)
    kw.pop("dtype", None)
    for i in inputs:
        if hasattr(i, "unit") and not is_sym(i):
            return NotImplemented
    if name in UN:
        f, k = UN[name]
        r = umap(inputs[0], f, k)
    elif name in BIN:
        r = elementwise(BIN[name], *inputs[:2])
    else:
        h = HANDLERS.get(name)
        if h is None:
            raise Unsupported(f"ufunc {name}")
        return h(*inputs, **kw)
    r = _where_kw(r, kw, inputs)
    return _out(r, kw)


def function_call(name, args, kwargs):
    h = HANDLERS.get(name)
    if h is None:
        if name in UN or name in BIN:
            return ufunc_call(name, args, kwargs)
        raise Unsupported(f"numpy.{name}")
    return h(*args, **kwargs)


# ---------------------------------------------------------------- constructors
def _shape(shape):
    if is_sarr(shape):
        return tuple(shape.tolist())
    if type(shape) is SInt or isinstance(shape, (int, np.integer)):
        return (shape,)
    if isinstance(shape, np.ndarray):
        return tuple(int(s) for s in shape)
    return tuple(shape)


def _kd(dtype, default="f"):
    if dtype is None:
        return default, None
    dt = np.dtype(dtype)
    k = {"u": "i", "S": "U"}.get(dt.kind, dt.kind)
    return k, dt


_ZERO = {"b": False, "i": 0, "f": 0.0, "c": 0.0, "U": "", "O": None}
_ONE = {"b": True, "i": 1, "f": 1.0, "c": 1.0}


def _check_nonneg(shape):
    for d in shape:
        if is_sym(d) and not ctx().must(d.t >= 0):
            if bool(num_bin("lt", d, 0)):
                raise ValueError("negative dimensions are not allowed")


def full(shape, fill_value, dtype=None, **k):
    shape = _shape(shape)
    _check_nonneg(shape)
    if is_sarr(fill_value) or isinstance(fill_value, (list, tuple, np.ndarray)) and not is_sym(fill_value):
        v = lift(fill_value)
        kind, dt = _kd(dtype, v.kind)
        g = broadcast_getter(v, shape)
        return SArr(shape, kind, lambda *i: cast_scalar(g(*i), kind), dtype=dt)
    if isinstance(fill_value, np.generic):
        fill_value = fill_value.item()
    kind, dt = _kd(dtype, kind_of(fill_value))
    v = cast_scalar(fill_value, kind) if fill_value is not None else None
    r = SArr(shape, kind, lambda *i: v, dtype=dt)
    return r


def zeros(shape, dtype=None, **k):
    kind, dt = _kd(dtype)
    return full(shape, _ZERO[kind], dtype=dtype if dtype is not None else float)


def ones(shape, dtype=None, **k):
    kind, dt = _kd(dtype)
    return full(shape, _ONE[kind], dtype=dtype if dtype is not None else float)


def fresh_array(name, shape, kind, dtype=None):
    c = ctx()
    shape = _shape(shape)
    n = len(shape)
    if kind == "c":
        fr = c.fresh_fun(name + "_re", *([core.I] * n), core.R) if n else c.fresh(name + "_re", core.R)
        fi = c.fresh_fun(name + "_im", *([core.I] * n), core.R) if n else c.fresh(name + "_im", core.R)
        if n:
            fn = lambda *i: SCplx(SReal(fr(*[i_term(x) for x in i])), SReal(fi(*[i_term(x) for x in i])))
        else:
            fn = lambda: SCplx(SReal(fr), SReal(fi))
        return SArr(shape, kind, fn, dtype=dtype)
    sort = {"b": core.B, "i": core.I, "f": core.R, "U": core.I}[kind]
    f = c.fresh_fun(name, *([core.I] * n), sort) if n else c.fresh(name, sort)
    wrap = {"b": SBool, "i": SInt, "f": SReal, "U": SStr}[kind]
    fn = (lambda *i: wrap(f(*[i_term(x) for x in i]))) if n else (lambda: wrap(f))
    return SArr(shape, kind, fn, dtype=dtype)


def empty(shape, dtype=None, **k):
    kind, dt = _kd(dtype)
    shape = _shape(shape)
    _check_nonneg(shape)
    if kind == "O":
        return full(shape, None, dtype=object)
    return fresh_array("empty", shape, kind, dt)


def _like(f):
    def g(a, dtype=None, order=None, subok=None, shape=None):
        a = lift(a)
        return f(a.shape if shape is None else shape, dtype=a.dtype if dtype is None else dtype)

    return g


def full_like(a, fill_value, dtype=None, **k):
    a = lift(a)
    return full(a.shape, fill_value, dtype=a.dtype if dtype is None else dtype)


def arange(*args, dtype=None, **k):
    if len(args) == 1:
        st, en, sp = 0, args[0], 1
    elif len(args) == 2:
        (st, en), sp = args, 1
    else:
        st, en, sp = args
    if any(kind_of(x) == "f" for x in (st, en, sp)):
        raise Unsupported("float arange")
    if not is_sym(sp) and sp == 1:
        d = num_bin("sub", en, st)
        if is_sym(d) and not ctx().must(d.t >= 0):
            n = ite(num_bin("ge", d, 0), d, 0)
        else:
            n = d if is_sym(d) else max(0, d)
    else:
        from .sarr import norm_slice

        d = num_bin("sub", en, st)
        if is_sym(sp):
            if not ctx().must(sp.t > 0):
                raise Unsupported("arange step sign")
        elif sp < 0:
            d, s2 = num_bin("sub", st, en), -sp
            n = num_bin("floordiv", num_bin("add", d, s2 - 1), s2)
            n = ite(num_bin("ge", n, 0), n, 0) if is_sym(n) else max(0, n)
            return SArr((n,), "i", lambda i: num_bin("add", st, num_bin("mul", i, sp)))
        n = num_bin("floordiv", num_bin("add", d, num_bin("sub", sp, 1)), sp)
        n = ite(num_bin("ge", n, 0), n, 0) if is_sym(n) else max(0, n)
    kind, dt = _kd(dtype, "i")

    def fn(i):
        v = i if (not is_sym(sp) and sp == 1) else num_bin("mul", i, sp)
        v = v if (not is_sym(st) and st == 0) else num_bin("add", st, v)
        return cast_scalar(v, kind)

    r = SArr((n,), kind, fn, dtype=dt)
    if not is_sym(st) and st == 0 and not is_sym(sp) and sp == 1 and kind == "i":
        r.meta["perm"] = lambda i: i
    return r


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if type(x) is SList:
        x = x.arr
    if type(x) is SSet:
        return full((), 0)  # np.array(set) is a 0-d object array; never used in /repo
    if is_sarr(x):
        r = x
    elif isinstance(x, (list, tuple)) or isinstance(x, np.ndarray):
        r = lift(x)
    else:
        r = lift(x)
    if dtype is not None:
        r = astype(r, dtype)
    elif copy:
        m = r.meta
        r = r.copy()
        r.meta = dict(m)
    while r.ndim < ndmin:
        r = r[None]
    if r.ndim == 0 and ndmin == 0:
        return r
    return r


def asarray(x, dtype=None, **k):
    if is_sarr(x) and (dtype is None or np.dtype(dtype) == x.dtype):
        return x
    return array(x, dtype=dtype, copy=False)


def astype(a, dtype, copy=True, **k):
    kind, dt = _kd(dtype)
    src = a.snapshot()
    if kind == "i" and dt is not None and dt.kind == "u" and not (a.dtype is not None and a.dtype.kind == "u"):
        bits = 2 ** (8 * dt.itemsize)

        def un(*i):
            v = cast_scalar(src(*i), "i")
            if not is_sym(v):
                return v % bits
            t = core.i_term(v)
            return v if ctx().must(z3.And(t >= 0, t < bits)) else core.SInt(t % bits)

        return SArr(a.shape, "i", memo(un), dtype=dt)
    if kind == a.kind:
        r = SArr(a.shape, kind, src, dtype=dt)
        r.meta = dict(a.meta)
        return r
    if kind == "U":
        raise Unsupported("cast to string array")
    return SArr(a.shape, kind, memo(lambda *i: cast_scalar(src(*i), kind)), dtype=dt)


# ---------------------------------------------------------------- reductions
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [x % a.ndim for x in axis]
    if is_sym(axis):
        raise Unsupported("symbolic axis")
    if not -a.ndim <= axis < a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim) if hasattr(np, "exceptions") else np.AxisError(axis, a.ndim)
    return [axis % a.ndim]


def _expandable(dims):
    n = 1
    for d in dims:
        if is_sym(d):
            return False
        n *= d
    return n <= 4096 and all(d <= 64 for d in dims)


def reduce_arr(a, axis, keepdims, per, kind, dtype=None):
    """per(getter, dims) -> scalar, where getter(*inner) reads the reduced axes."""
    a = lift(a)
    axs = sorted(_axes(a, axis))
    keep = [i for i in range(a.ndim) if i not in axs]
    src = a.snapshot()
    dims = [a.shape[i] for i in axs]

    def cell(*outer):
        def getter(*inner):
            idx = [None] * a.ndim
            for p, v in zip(keep, outer):
                idx[p] = v
            for p, v in zip(axs, inner):
                idx[p] = v
            return src(*idx)

        return per(getter, dims)

    if not keep:
        v = cell()
        if keepdims:
            return SArr((1,) * a.ndim, kind, lambda *i: v, dtype=dtype)
        return v
    cm = memo(cell)
    if keepdims:
        shape = [1 if i in axs else a.shape[i] for i in range(a.ndim)]
        return SArr(shape, kind, lambda *i: cm(*[i[p] for p in keep]), dtype=dtype)
    return SArr([a.shape[i] for i in keep], kind, cm, dtype=dtype)


def _forall_cells(getter, dims, pred):
    if _expandable(dims):
        return sand(*[pred(getter(*ix)) for ix in itertools.product(*[range(d) for d in dims])])
    c = ctx()
    vs = c.binder(len(dims))
    return SBool(c.quant(vs, lambda *v: simplies(
        sand(*[in_range(SInt(x), d) for x, d in zip(v, dims)]), pred(getter(*[SInt(x) for x in v])))))


def np_all(a, axis=None, keepdims=False, out=None, **k):
    if not is_sarr(a) and not isinstance(a, (list, tuple, np.ndarray)) and type(a) is not SList:
        return _b(a)
    a = lift(a)
    if a.ndim == 0:
        return _b(a.at())
    if axis is None and "vals" in a.meta and not keepdims:
        return sand(*[_forall_cells(g, d, _b) for d, g in a.meta["vals"]])
    return reduce_arr(a, axis, keepdims, lambda g, d: _forall_cells(g, d, _b), "b")


def np_any(a, axis=None, keepdims=False, out=None, **k):
    if not is_sarr(a) and not isinstance(a, (list, tuple, np.ndarray)) and type(a) is not SList:
        return _b(a)
    a = lift(a)
    if a.ndim == 0:
        return _b(a.at())
    if axis is None and "vals" in a.meta and not keepdims:
        return sor(*[bnot(_forall_cells(g, d, lambda v: bnot(_b(v)))) for d, g in a.meta["vals"]])
    return reduce_arr(a, axis, keepdims, lambda g, d: bnot(_forall_cells(g, d, lambda v: bnot(_b(v)))), "b")


def sum_cells(getter, dims, kind):
    """sum over cells; symbolic length -> fold symbol with a congruence key."""
    if _expandable(dims):
        r = 0 if kind in "bi" else 0.0
        first = True
        for ix in itertools.product(*[range(d) for d in dims]):
            v = getter(*ix)
            v = cast_scalar(v, "i") if kind == "b" else v
            r = v if first else num_bin("add", r, v)
            first = False
        return r
    if kind == "b":
        if len(dims) == 1 and not ctx().pending_side:
            return nonzero_of(lambda i: _b(getter(i)), dims).n
        return sum_cells(lambda *i: ite(_b(getter(*i)), 1, 0), dims, "i")
    if kind == "c":
        return SCplx(sum_cells(lambda *i: _real(getter(*i)), dims, "f"), sum_cells(lambda *i: _imag(getter(*i)), dims, "f"))
    c = ctx()
    vs = c.binder(len(dims), "s")
    c.enter(vs)
    try:
        body = getter(*[SInt(v) for v in vs])
    finally:
        side = c.leave()
    ids = {v.get_id() for v in vs}
    for f in side:
        if core._mentions(f, ids):
            c.side(z3.ForAll(vs, f))
        else:
            c.side(f)
    body = cast_scalar(body, "f")
    t = core.simp(r_term(body))
    # constant body: n * c
    if not core._mentions(t, ids):
        n = 1
        for d in dims:
            n = num_bin("mul", n, d)
        r = num_bin("mul", cast_scalar(n, "f"), mkreal(t))
        return r if kind == "f" else cast_scalar(r, kind)
    lam = z3.Lambda(vs, t)
    asort = z3.ArraySort(*([core.I] * len(dims)), core.R)
    f = core.ufun(f"sum{len(dims)}!", *([core.I] * len(dims)), asort, core.R)
    term = f(*[i_term(d) for d in dims], lam)
    c.sums.append((term, [i_term(d) for d in dims], vs, t))
    v = SReal(term)
    if len(dims) == 1:
        c.side(z3.Implies(i_term(dims[0]) <= 0, term == 0))
        b1 = z3.substitute(t, (vs[0], z3.IntVal(0)))
        c.side(z3.Implies(i_term(dims[0]) == 1, term == b1))
    sv = z3.Solver()
    sv.set("timeout", 200)
    sv.add(z3.Not(t >= 0))
    if sv.check() == z3.unsat:
        # sum of non-negative terms: bounds every term, and is zero when all terms are
        rng = z3.And(*[z3.And(v_ >= 0, v_ < i_term(d)) for v_, d in zip(vs, dims)])
        c.side(term >= 0)
        c.side(z3.ForAll(vs, z3.Implies(rng, t <= term)))
        # witnesses are functions of the summand, so they may depend on enclosing bound variables
        ws = [core.ufun(f"sumw{len(dims)}_{q}!", *([core.I] * len(dims)), asort, core.I)(*[i_term(d) for d in dims], lam) for q in range(len(dims))]
        sub = list(zip(vs, ws))
        c.side(z3.Implies(term > 0, z3.And(z3.substitute(rng, *sub), z3.substitute(t, *sub) > 0)))
        sv = z3.Solver()
        sv.set("timeout", 200)
        sv.add(z3.Not(t <= 1))
        if sv.check() == z3.unsat:
            # terms within [0, 1]: the sum is at most the number of terms, and reaches it exactly when every term is one
            n = i_term(dims[0])
            for d in dims[1:]:
                n = n * i_term(d)
            pos = z3.And(*[i_term(d) >= 0 for d in dims])
            c.side(z3.Implies(pos, term <= z3.ToReal(n)))
            c.side(z3.ForAll(vs, z3.Implies(z3.And(rng, t < 1), term < z3.ToReal(n))))
            us = [core.ufun(f"sumu{len(dims)}_{q}!", *([core.I] * len(dims)), asort, core.I)(*[i_term(d) for d in dims], lam) for q in range(len(dims))]
            sub = list(zip(vs, us))
            c.side(z3.Implies(z3.And(pos, term < z3.ToReal(n)), z3.And(z3.substitute(rng, *sub), z3.substitute(t, *sub) < 1)))
    if kind == "i":
        q = core.ufun("isum!", core.R, core.I)(term)
        c.side(term == z3.ToReal(q))
        return SInt(q)
    return v


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if not is_sarr(a) and type(a) is not SList and not isinstance(a, (list, tuple, np.ndarray)):
        return a
    a = lift(a)
    if where is not None and where is not True:
        a = where_(where, a, 0)
    if a.ndim == 0:
        return a.at()
    kind = a.kind
    rk = "i" if kind == "b" else kind
    return reduce_arr(a, axis, keepdims, lambda g, d: cast_scalar(sum_cells(g, d, kind), rk), rk, a.dtype if kind == rk and kind in "fc" else None)


def where_(c, a, b):
    return where(c, a, b)


def np_mean(a, axis=None, keepdims=False, dtype=None, **k):
    a = lift(a)
    n = 1
    for i in _axes(a, axis):
        n = num_bin("mul", n, a.shape[i])
    s = np_sum(a, axis=axis, keepdims=keepdims)
    return elementwise("div", s, n)


def np_prod(a, axis=None, keepdims=False, dtype=None, **k):
    a = lift(a)

    def per(g, dims):
        if not _expandable(dims):
            raise Unsupported("prod over a symbolic axis")
        r = 1
        for ix in itertools.product(*[range(d) for d in dims]):
            r = num_bin("mul", r, g(*ix))
        return r

    if a.ndim == 0:
        return a.at()
    return reduce_arr(a, axis, keepdims, per, a.kind)


def _extremum(a, axis, keepdims, sense, want_arg):
    a = lift(a)
    if a.ndim == 0:
        return 0 if want_arg else a.at()

    def per(g, dims):
        c = ctx()
        if _expandable(dims):
            cells = list(itertools.product(*[range(d) for d in dims]))
            if not cells:
                raise ValueError("zero-size array to reduction operation which has no identity")
            best, arg = g(*cells[0]), 0
            for n, ix in enumerate(cells[1:], 1):
                v = g(*ix)
                better = num_bin("lt" if sense == "min" else "gt", v, best)
                best, arg = ite(better, v, best), ite(better, n, arg)
            return arg if want_arg else best
        for d in dims:
            if is_sym(d) and not c.must(d.t > 0):
                if c.pending_side:
                    raise Unsupported("extremum of a possibly empty axis")
                if not bool(num_bin("gt", d, 0)):
                    raise ValueError("zero-size array to reduction operation which has no identity")
        if c.pending_side:
            # the position of the extremum is a function of the values, which may depend on enclosing bound variables
            if a.kind not in "if":
                raise Unsupported("extremum under a binder")
            us = c.binder(len(dims), "x")
            c.enter(us)
            try:
                t = core.simp((i_term if a.kind == "i" else r_term)(g(*[SInt(u) for u in us])))
            finally:
                sd = c.leave()
            uid = {u.get_id() for u in us}
            for f_ in sd:
                c.side(z3.ForAll(us, f_) if core._mentions(f_, uid) else f_)
            asort = z3.ArraySort(*([core.I] * len(dims)), core.I if a.kind == "i" else core.R)
            lam = z3.Lambda(us, t)
            ws = [core.ufun(f"arg{sense}{'1' if want_arg else ''}{len(dims)}_{q}{a.kind}!", *([core.I] * len(dims)), asort, core.I)(*[i_term(d) for d in dims], lam) for q in range(len(dims))]
            sw = [mkint(w) for w in ws]
            c.side(tobool(sand(*[in_range(w, d) for w, d in zip(sw, dims)])))
        else:
            ws = [c.fresh("argx") for _ in dims]
            sw = [SInt(w) for w in ws]
            c.add(tobool(sand(*[in_range(w, d) for w, d in zip(sw, dims)])))
        best = g(*sw)
        vs = c.binder(len(dims))
        cmpn = "le" if sense == "min" else "ge"

        def body(*v):
            sv = [SInt(x) for x in v]
            r = simplies(sand(*[in_range(x, d) for x, d in zip(sv, dims)]), num_bin(cmpn, best, g(*sv)))
            if want_arg and len(dims) == 1:
                r = sand(r, simplies(sand(in_range(sv[0], dims[0]), num_bin("lt", sv[0], sw[0])), num_bin("ne", g(*sv), best)))
            return r

        c.side(c.quant(vs, body))
        if want_arg:
            if len(dims) != 1:
                raise Unsupported("flat argmin over symbolic axes")
            return sw[0]
        return best

    return reduce_arr(a, axis, keepdims, per, "i" if want_arg else a.kind, None if want_arg else a.dtype)


def np_min(a, axis=None, keepdims=False, **k):
    return _extremum(a, axis, keepdims, "min", False)


def np_max(a, axis=None, keepdims=False, **k):
    return _extremum(a, axis, keepdims, "max", False)


def argmin(a, axis=None, **k):
    return _extremum(a, axis, False, "min", True)


def argmax(a, axis=None, **k):
    return _extremum(a, axis, False, "max", True)


def count_nonzero(a, axis=None, **k):
    a = lift(a)
    src = a.snapshot()
    return np_sum(SArr(a.shape, "b", lambda *i: _b(src(*i))), axis=axis)


def cumsum(a, axis=None, **k):
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported("cumsum nd")
    f = a.snapshot()
    n = a.shape[0]
    kind = "i" if a.kind == "b" else a.kind
    if not is_sym(n):
        vals, acc = [], 0
        for i in range(n):
            acc = num_bin("add", acc, cast_scalar(f(i), kind))
            vals.append(acc)
        return stack_list(vals) if vals else SArr((0,), kind, lambda i: 0)
    c = ctx()
    if kind not in "if":
        raise Unsupported("cumsum kind")
    g = c.fresh_fun("cumsum", core.I, core.I if kind == "i" else core.R)
    c.side(g(0) == e_term(cast_scalar(f(0), kind), kind))
    (v,) = c.binder(1)
    c.side(c.quant([v], lambda x: simplies(
        sand(num_bin("lt", 0, SInt(x)), num_bin("lt", SInt(x), n)),
        num_bin("eq", mk(g(x), kind), num_bin("add", mk(g(x - 1), kind), cast_scalar(f(SInt(x)), kind)))), patterns=[g(v)]))
    return SArr((n,), kind, lambda i: mk(g(i_term(i)), kind))


# ---------------------------------------------------------------- nonzero
class NZ:
    pass


def nonzero_of(maskfn, dims):
    """Enumeration of the True cells in C order."""
    c = ctx()
    nd = len(dims)
    z = NZ()
    z.dims, z.mask = nd, maskfn
    if _expandable(dims) and all(not is_sym(maskfn(*ix)) for ix in itertools.product(*[range(d) for d in dims])):
        cells = [ix for ix in itertools.product(*[range(d) for d in dims]) if maskfn(*ix)]
        z.n = len(cells)
        cols = [lift(np.array([x[q] for x in cells], dtype=int)) if cells else SArr((0,), "i", lambda *i: 0) for q in range(nd)]
        z.w = lambda k: tuple(col.at(k) for col in cols)
        look = {ix: j for j, ix in enumerate(cells)}

        def pos(*ix):
            if all(not is_sym(x) for x in ix):
                return look.get(tuple(int(x) for x in ix), 0)
            r = 0
            for cell, j in look.items():
                r = ite(sand(*[num_bin("eq", x, y) for x, y in zip(ix, cell)]), j, r)
            return r

        z.pos = pos
        z.pos1 = pos
        z._conc = cols
        z.arrays = lambda: [_nzarr(z, q) for q in range(nd)]
        return z
    if c.pending_side:
        raise Unsupported("nonzero under a binder")
    if _expandable(dims) and np.prod([d for d in dims]) <= 16:
        # small concrete mask: exact counts as nested sums
        cells = list(itertools.product(*[range(d) for d in dims]))
        ms = [maskfn(*ix) for ix in cells]
        pre = [0]
        for m in ms:
            pre.append(num_bin("add", pre[-1], ite(m, 1, 0)))
        z.n = pre[-1]
        if is_sym(z.n):
            # fork on the count so that downstream shapes are concrete
            for cand in range(len(cells) + 1):
                if cand == len(cells) or bool(num_bin("eq", z.n, cand)):
                    z.n = cand
                    break

        def w(k):
            res = []
            for q in range(nd):
                r = 0
                for ix, m, p in reversed(list(zip(cells, ms, pre))):
                    r = ite(sand(m, num_bin("eq", p, k)), ix[q], r)
                res.append(r)
            return tuple(res)

        z.w = w

        def pos(*ix):
            r = 0
            for cell, p in zip(cells, pre):
                r = ite(sand(*[num_bin("eq", x, y) for x, y in zip(ix, cell)]), p, r)
            return r

        z.pos = z.pos1 = pos
        z.arrays = lambda: [_nzarr(z, q) for q in range(nd)]
        return z
    n = c.fresh("nnz")
    ws = [c.fresh_fun("nzw", core.I, core.I) for _ in range(nd)]
    P = c.fresh_fun("nzp", *([core.I] * nd), core.I)
    tot = 1
    for d in dims:
        tot = num_bin("mul", tot, d)
    c.add(n >= 0)
    if nd == 1:
        c.add(tobool(num_bin("le", SInt(n), tot)))
    k = c.binder(1, "nk")[0]
    sk = SInt(k)

    def ax1(x):
        ix = [SInt(w(x)) for w in ws]
        return simplies(in_range(SInt(x), SInt(n)), sand(*[in_range(i, d) for i, d in zip(ix, dims)], maskfn(*ix), SBool(P(*[w(x) for w in ws]) == x)))

    c.side(c.quant([k], ax1, patterns=[ws[0](k)]))
    vs = c.binder(nd, "ni")

    def ax2(*x):
        ix = [SInt(v) for v in x]
        p = P(*x)
        return simplies(sand(*[in_range(i, d) for i, d in zip(ix, dims)], maskfn(*ix)), sand(SBool(p >= 0), SBool(p < n), *[SBool(w(p) == v) for w, v in zip(ws, x)]))

    c.side(c.quant(vs, ax2, patterns=[P(*vs)]))
    # also triggerable through the mask itself (z3 picks patterns)
    vs2 = c.binder(nd, "nj")
    try:
        c.side(c.quant(vs2, ax2))
    except z3.Z3Exception:
        pass
    if nd == 1:
        j, l = c.binder(2)
        c.side(z3.ForAll([j, l], z3.Implies(z3.And(0 <= j, j < l, l < n), ws[0](j) < ws[0](l)), patterns=[z3.MultiPattern(ws[0](j), ws[0](l))]))
        # lemmas (induction on k, proved once on paper; see DESIGN.md): w(k) >= k, w(k) <= N-n+k
        q = c.binder(1)[0]
        N = i_term(dims[0])
        c.side(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(ws[0](q) >= q, ws[0](q) <= N - n + q)), patterns=[ws[0](q)]))
        # count = N  <=>  all true   (same lemma, contrapositive direction)
        r = c.binder(1)[0]
        allm = c.quant([r], lambda x: simplies(in_range(SInt(x), dims[0]), maskfn(SInt(x))))
        c.side(allm == (n == N))
    z.n = SInt(n)
    z.w = lambda kk: tuple(mkint(w(i_term(kk))) for w in ws)
    z.pos = lambda *ix: mkint(P(*[i_term(x) for x in ix]))
    z.pos1 = z.pos
    z.arrays = lambda: [_nzarr(z, q) for q in range(nd)]
    return z


def _nzarr(z, q):
    a = SArr((z.n,), "i", lambda k: z.w(k)[q])
    a.meta["nz"], a.meta["nzax"] = z, q
    a.meta["nonneg_v"] = a.version()
    return a


def nonzero_info(mask):
    key = mask.version()
    got = mask.meta.get("nzinfo")
    if got is not None and got[0] == key:
        return got[1]
    f = mask.snapshot()
    z = nonzero_of(lambda *i: _b(f(*i)), list(mask.shape))
    mask.meta["nzinfo"] = (key, z)
    return z


def nonzero(a):
    a = lift(a)
    return tuple(nonzero_info(a).arrays())


def flatnonzero(a):
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported("flatnonzero nd")
    return nonzero_info(a).arrays()[0]


def argwhere(a):
    a = lift(a)
    z = nonzero_info(a)
    return SArr((z.n, z.dims), "i", lambda k, q: stack_list(list(z.w(k))).at(q))


def where(cond, *rest):
    if not rest:
        return nonzero(cond)
    # inf / nan as a filling value: an unspecified number (nothing is claimed about those entries)
    x, y = (core.mkreal(ctx().fresh("nonfinite", core.R)) if isinstance(v, (float, np.floating)) and not is_sym(v) and not np.isfinite(v) else v for v in rest)
    if not any(is_sarr(v) or type(v) is SList or isinstance(v, (list, np.ndarray)) and not is_sym(v) for v in (cond, x, y)):
        return ite(_b(cond), x, y)
    C, X, Y = lift(cond), lift(x), lift(y)
    shape = broadcast_shapes(C.shape, X.shape, Y.shape)
    kind = join_kind(X.kind, Y.kind)
    fc, fx, fy = (broadcast_getter(v, shape) for v in (C, X, Y))
    dt = X.dtype if X.kind == kind and X.ndim >= Y.ndim else (Y.dtype if Y.kind == kind else None)
    if not shape:
        return ite(_b(fc()), fx(), fy())
    return SArr(shape, kind, memo(lambda *i: ite(_b(fc(*i)), cast_scalar(fx(*i), kind), cast_scalar(fy(*i), kind))), dtype=dt)


# ---------------------------------------------------------------- membership, unique, sort
def member(arr, x):
    """x in arr  (1-D or nd array)."""
    if arr.ndim == 0:
        return num_bin("eq", arr.at(), x)
    if arr.ndim > 1:
        if _expandable(arr.shape):
            return sor(*[num_bin("eq", arr.at(*ix), x) for ix in itertools.product(*[range(d) for d in arr.shape])])
        raise Unsupported("membership in nd array")
    n = arr.shape[0]
    if not is_sym(n) and n <= EXPAND:
        return sor(*[num_bin("eq", arr.at(j), x) for j in range(n)])
    kind = arr.kind
    try:
        kx = kind_of(x)
    except Unsupported:
        return False
    if kind == "U" and kx != "U" or kx == "U" and kind != "U":
        return False
    if kind == "i" and kx == "f":
        raise Unsupported("float in int array")
    mem = mem_pred(arr)
    return mem(x)


def mem_pred(arr):
    key = arr.version()
    got = arr.meta.get("mem")
    if got is not None and got[0] == key:
        return got[1]
    z = arr.meta.get("nz")
    if z is not None and z.dims == 1:
        N = None
        pred = lambda x: z.mask(x)  # noqa: E731 - index arrays of a mask: x in where(mask) <=> mask[x]
        # only valid for x in range; guarded below
        src = arr.meta.get("nzdim")
    c = ctx()
    kind = arr.kind
    n = arr.shape[0]
    f = arr.snapshot()
    sort = {"i": core.I, "f": core.R, "U": core.I, "b": core.B}.get(kind)
    if sort is None:
        raise Unsupported("membership kind " + kind)
    pend = c.pending_side
    c.pending_side = []  # the axioms define a fresh symbol: state them at top level
    try:
        M = c.fresh_fun("mem", sort, core.B)
        Wt = c.fresh_fun("memw", sort, core.I)
        (v,) = c.binder(1)
        c.side(c.quant([v], lambda x: simplies(in_range(SInt(x), n), SBool(M(e_term(f(SInt(x)), kind))))))
        u = c.fresh("mx", sort)
        c.side(c.quant([u], lambda x: simplies(SBool(M(x)), sand(in_range(SInt(Wt(x)), n), SBool(e_term(f(SInt(Wt(x))), kind) == x))), patterns=[M(u)]))
    finally:
        c.pending_side = pend

    def pred(x):
        return SBool(M(e_term(cast_scalar(x, kind) if kind in "if" and kind_of(x) in "bif" and kind_of(x) != kind else x, kind)))

    pred.wit = lambda x: mkint(Wt(e_term(x, kind)))
    arr.meta["mem"] = (key, pred)
    return pred


def isin(a, b, invert=False, **k):
    if type(b) is SSet or isinstance(b, (set, frozenset)) and not is_sym(b):
        # numpy treats a set as a 0-d object: never what is meant
        raise Unsupported("isin with a set")
    b = lift(b)
    if b.ndim > 1 and not _expandable(b.shape):
        raise Unsupported("isin nd")
    r = umap(a, lambda v: member(b, v), "b")
    if invert:
        r = ~r if is_sarr(r) else bnot(r)
    return r


def first_index(arr, x):
    """list.index: first position or ValueError."""
    n = arr.shape[0]
    if not bool(member(arr, x)):
        raise ValueError("value is not in list")
    if not is_sym(n) and n <= EXPAND:
        r = n - 1
        for j in range(n - 2, -1, -1):
            r = ite(num_bin("eq", arr.at(j), x), j, r)
        return r
    c = ctx()
    w = c.fresh("ix")
    f = arr.snapshot()
    c.add(tobool(sand(in_range(SInt(w), n), num_bin("eq", f(SInt(w)), x))))
    (v,) = c.binder(1)
    c.side(c.quant([v], lambda j: simplies(sand(num_bin("le", 0, SInt(j)), num_bin("lt", SInt(j), SInt(w))), num_bin("ne", f(SInt(j)), x))))
    return SInt(w)


def _dup(v):
    r = v.copy()
    r.meta.update(v.meta)
    return r


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = lift(a)
    if axis is not None:
        if a.ndim == 2 and axis in (0, 1):
            return unique_rows(a, axis, return_index, return_inverse, return_counts)
        raise Unsupported("unique axis")
    if a.ndim != 1:
        if _expandable(a.shape):
            a = ravel(a)
        else:
            raise Unsupported("unique of an nd symbolic array")
    c = ctx()
    kind = a.kind
    n = a.shape[0]
    f = a.snapshot()
    got = a.meta.get("uniq")
    if got is not None and got[0] == a.version():
        U = got[1]
    elif not (return_index or return_inverse or return_counts) and (is_sym(n) or n > 8) and kind in "ifU":
        # axioms of the unique values are stated when an element or the length is first used;
        # until then the result is only known as "same set of values as a"
        ver = a.version()
        cache = c._cache.setdefault("uniq", {})
        if (ver, kind) in cache and not c.pending_side:
            return _dup(cache[ver, kind])
        box = {}

        def force():
            if "U" not in box:
                pend, c.pending_side = c.pending_side, []
                try:
                    box["U"] = _unique_core(a, f, n, kind)
                finally:
                    c.pending_side = pend
                a.meta["uniq"] = (ver, box["U"])
                c.add(tobool(num_bin("eq", box["U"].n, un0)))
            return box["U"]

        un0 = SInt(c.fresh("nuniq"))
        c.add(z3.And(un0.t >= 0, un0.t <= i_term(n), z3.Implies(i_term(n) > 0, un0.t > 0)))
        vals = SArr((un0,), kind, lambda i: force().w(i), dtype=a.dtype)
        vals.meta["distinct"] = True
        vals.meta["vals"] = [((n,), f)]
        vals.meta["lazy"] = force
        if not c.pending_side:
            cache[ver, kind] = vals
            return _dup(vals)
        return vals
    else:
        if c.pending_side:
            raise Unsupported("unique under a binder")
        U = _unique_core(a, f, n, kind)
        a.meta["uniq"] = (a.version(), U)
    un, W, P, FI = U.n, U.w, U.pos, U.first
    vals = SArr((un,), kind, lambda i: W(i), dtype=a.dtype)
    vals.meta["distinct"] = True
    vals.meta["uniqof"] = U
    out = [vals]
    if return_index:
        ia = SArr((un,), "i", lambda i: FI(i))
        ia.meta["nonneg_v"] = ia.version()
        out.append(ia)
    if return_inverse:
        iv = SArr((n,), "i", lambda i: P(f(i)))
        iv.meta["nonneg_v"] = iv.version()
        out.append(iv)
    if return_counts:
        ca = memo(lambda i: np_sum(elementwise("eq", a, W(i))))
        out.append(SArr((un,), "i", ca))
    return out[0] if len(out) == 1 else tuple(out)


class _U:
    pass


def _unique_core(a, f, n, kind):
    c = ctx()
    u = _U()
    if not is_sym(n) and n <= 8:
        # small concrete array: decide the equality/ordering pattern by forking
        vals = [f(i) for i in range(n)]
        reps = []
        cls = []
        for i, v in enumerate(vals):
            for r, j in enumerate(reps):
                if bool(num_bin("eq", v, vals[j])):
                    cls.append(r)
                    break
            else:
                reps.append(i)
                cls.append(len(reps) - 1)
        order = list(range(len(reps)))
        if kind != "U":
            # insertion sort with forking comparisons
            srt = []
            for r in order:
                p = len(srt)
                while p > 0 and bool(num_bin("lt", vals[reps[r]], vals[reps[srt[p - 1]]])):
                    p -= 1
                srt.insert(p, r)
            order = srt
        elif all(not is_sym(v) for v in vals):
            order = sorted(order, key=lambda r: vals[reps[r]])
        sv = [vals[reps[r]] for r in order]
        fi = [reps[r] for r in order]
        u.n = len(sv)
        W = stack_list(sv) if sv else SArr((0,), kind, lambda i: 0)
        FIa = lift(np.array(fi, dtype=int)) if fi else SArr((0,), "i", lambda i: 0)
        u.w = lambda i: W.at(i)
        u.first = lambda i: FIa.at(i)

        def pos(x):
            r = 0
            for j, v in enumerate(sv):
                r = ite(num_bin("eq", x, v), j, r)
            return r

        u.pos = pos
        return u
    sort = {"i": core.I, "f": core.R, "U": core.I, "b": core.B}.get(kind)
    if sort is None or kind == "b":
        raise Unsupported("unique of kind " + kind)
    un = c.fresh("nuniq")
    W = c.fresh_fun("uqw", core.I, sort)
    P = c.fresh_fun("uqp", sort, core.I)
    FI = c.fresh_fun("uqf", core.I, core.I)
    N = i_term(n)
    c.add(z3.And(un >= 0, un <= N, z3.Implies(N > 0, un > 0)))
    k = c.binder(1)[0]
    c.side(c.quant([k], lambda x: simplies(
        in_range(SInt(x), SInt(un)),
        sand(in_range(SInt(FI(x)), n), SBool(e_term(f(SInt(FI(x))), kind) == W(x)), SBool(P(W(x)) == x))), patterns=[W(k)]))
    k2 = c.binder(1)[0]
    c.side(c.quant([k2], lambda x: simplies(
        in_range(SInt(x), SInt(un)),
        sand(in_range(SInt(FI(x)), n), SBool(e_term(f(SInt(FI(x))), kind) == W(x)), SBool(P(W(x)) == x))), patterns=[FI(k2)]))
    v = c.binder(1)[0]

    def body(x):
        t = e_term(f(SInt(x)), kind)
        return simplies(in_range(SInt(x), n), sand(SBool(P(t) >= 0), SBool(P(t) < un), SBool(W(P(t)) == t), SBool(FI(P(t)) <= x)))

    c.side(c.quant([v], body))
    if kind != "U":
        j, l = c.binder(2)
        c.side(z3.ForAll([j, l], z3.Implies(z3.And(0 <= j, j < l, l < un), W(j) < W(l)), patterns=[z3.MultiPattern(W(j), W(l))]))
    # pigeonhole lemma: count = N  <=>  FI is a bijection <=> all entries distinct
    p, q = c.binder(2)
    dist = c.quant([p, q], lambda x, y: simplies(
        sand(num_bin("le", 0, SInt(x)), num_bin("lt", SInt(x), SInt(y)), num_bin("lt", SInt(y), n)),
        SBool(e_term(f(SInt(x)), kind) != e_term(f(SInt(y)), kind))))
    c.side(dist == (un == N))
    # count = 1 <=> all equal (N>0)
    r = c.binder(1)[0]
    alleq = c.quant([r], lambda x: simplies(in_range(SInt(x), n), SBool(e_term(f(SInt(x)), kind) == e_term(f(0), kind))))
    c.side(z3.Implies(N > 0, alleq == (un == 1)))
    u.n = SInt(un)
    u.w = lambda i: mk(W(i_term(i)), kind)
    u.pos = lambda x: mkint(P(e_term(x, kind)))
    u.first = lambda i: mkint(FI(i_term(i)))
    return u


def unique_rows(a, axis, ri, rv_, rc):
    raise Unsupported("unique rows")


def argsort(a, axis=-1, kind=None, **k):
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    return _argsort_keys([a], stable=kind in ("stable", "mergesort"))


def lexsort(keys, axis=-1, **k):
    if is_sarr(keys):
        ks = [keys[i] for i in range(keys.shape[0])]
    else:
        ks = [lift(x) for x in keys]
    return _argsort_keys(list(reversed(ks)), stable=True)


def _lex_le(fs, x, y, strict_tail):
    """keys(x) <= keys(y) lexicographically; on a full tie require strict_tail."""
    r = strict_tail
    for f in reversed(fs):
        a, b = f(x), f(y)
        r = sor(num_bin("lt", a, b), sand(num_bin("eq", a, b), r))
    return r


def _argsort_keys(ks, stable):
    """ks: primary first."""
    c = ctx()
    n = ks[0].shape[0]
    for q in ks[1:]:
        if not same_dim(q.shape[0], n) and not dims_eq_or_fork(q.shape[0], n):
            raise ValueError("all keys need to be the same shape")
    if any(q.kind not in "if" for q in ks):
        raise Unsupported("sort of non-numeric keys")
    ckey = tuple(q.version() for q in ks) + (stable,)
    cache = c._cache.setdefault("sorts", {})
    if ckey in cache:
        pi, inv = cache[ckey][0]
    else:
        fs = [q.snapshot() for q in ks]
        if not is_sym(n) and n <= 6:
            srt = []
            for r in range(n):
                p = len(srt)
                while p > 0 and bool(bnot(_lex_le(fs, srt[p - 1], r, True))):
                    p -= 1
                srt.insert(p, r)
            arr = lift(np.array(srt, dtype=int)) if srt else SArr((0,), "i", lambda i: 0)
            iarr = lift(np.argsort(np.array(srt, dtype=int))) if srt else arr
            pi, inv = arr.at, iarr.at
        else:
            if c.pending_side:
                raise Unsupported("sort under a binder")
            S = c.fresh_fun("perm", core.I, core.I)
            T = c.fresh_fun("pinv", core.I, core.I)
            N = i_term(n)
            (v,) = c.binder(1)
            c.side(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < N), z3.And(0 <= S(v), S(v) < N, T(S(v)) == v)), patterns=[S(v)]))
            (u,) = c.binder(1)
            pats = [T(u)]
            for q in fs:
                t = q(SInt(u))
                t = getattr(t, "t", None)
                if t is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).eq(u):
                    pats.append(t)
            c.side(z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < N), z3.And(0 <= T(u), T(u) < N, S(T(u)) == u)), patterns=pats))
            pi = lambda i: mkint(S(i_term(i)))
            inv = lambda i: mkint(T(i_term(i)))
            j, l = c.binder(2)
            c.side(c.quant([j, l], lambda x, y: simplies(
                sand(SBool(0 <= x), SBool(x < y), SBool(y < N)),
                _lex_le(fs, SInt(S(x)), SInt(S(y)), SBool(S(x) < S(y)) if stable else True)),
                patterns=[z3.MultiPattern(S(j), S(l))]))
        cache[ckey] = ((pi, inv), ks)
    r = SArr((n,), "i", lambda i: pi(i))
    r.meta["perm"] = lambda i: inv(i)
    r.meta["nonneg_v"] = r.version()
    return r


def sort(a, axis=-1, **k):
    a = lift(a)
    if a.ndim == 2 and not is_sym(a.shape[1]) and a.shape[1] == 2 and axis in (-1, 1):
        f = a.snapshot()

        def fn(i, j):
            x, y = f(i, 0), f(i, 1)
            lo, hi = ite(num_bin("le", x, y), x, y), ite(num_bin("le", x, y), y, x)
            return (hi if j else lo) if not is_sym(j) else ite(num_bin("eq", j, 0), lo, hi)

        return SArr(a.shape, a.kind, fn, dtype=a.dtype)
    if a.ndim != 1:
        raise Unsupported("sort nd")
    p = argsort(a)
    r = a[p]
    return r


def np_sorted(x, key=None, reverse=False):
    if type(x) is SSet:
        a = x.to_array(True)
    else:
        a = sort(lift(x))
    if key is not None:
        raise Unsupported("sorted with key")
    r = SList(a)
    return SList(a[::-1]) if reverse else r


def searchsorted(a, v, side="left", **k):
    a = lift(a)
    n = a.shape[0]
    if is_sym(n):
        raise Unsupported("searchsorted symbolic length")
    op = "lt" if side == "left" else "le"

    def one(x):
        r = 0
        for j in range(n):
            r = num_bin("add", r, ite(num_bin(op, a.at(j), x), 1, 0))
        return r

    return umap(v, one, "i")


def intersect1d(a, b, assume_unique=False, return_indices=False):
    a, b = lift(a), lift(b)
    m = isin(a, b)
    u = unique(a[m])
    if not return_indices:
        return u
    raise Unsupported("intersect1d return_indices")


def setdiff1d(a, b, assume_unique=False):
    a, b = lift(a), lift(b)
    return unique(a[isin(a, b, invert=True)])


def union1d(a, b):
    a, b = ravel(lift(a)), ravel(lift(b))
    c = ctx()
    key = ("u1d", a.version(), b.version())
    cache = c._cache.setdefault("uniq", {})
    if key not in cache or c.pending_side:
        r = unique(concatenate([a, b]))
        if c.pending_side:
            return r
        cache[key] = r
    return _dup(cache[key])


# ---------------------------------------------------------------- shape manipulation
def concatenate(arrs, axis=0, **k):
    if is_sarr(arrs):
        arrs = [arrs[i] for i in range(arrs.shape[0])]
    arrs = [lift(x) for x in arrs]
    if axis is None:
        arrs, axis = [ravel(x) for x in arrs], 0
    nd = arrs[0].ndim
    if any(x.ndim != nd for x in arrs):
        raise ValueError("all the input array dimensions must match")
    axis = axis % nd
    if nd == 1 and any("lazy" in x.meta for x in arrs) and all(x.kind == arrs[0].kind for x in arrs):
        raw = [SArr(x._shape, x.kind, x.snapshot(), dtype=x.dtype) for x in arrs]
        r = concatenate(raw, 0)
        r.meta["vals"] = [v for x in arrs for v in x.meta.get("vals", [(x._shape, x.snapshot())])]
        r.meta["lazy"] = lambda: [x.shape for x in arrs] and None
        return r
    kinds = [x.kind for x in arrs]
    if any(q == "f" for q in kinds) and any(q == "U" for q in kinds):
        # empty float arrays joined with strings
        arrs = [x for x in arrs if not (x.kind == "f" and not is_sym(x.shape[axis]) and x.shape[axis] == 0)]
    kind = join_kind(*[x.kind for x in arrs])
    shape = list(arrs[0].shape)
    for x in arrs[1:]:
        for d in range(nd):
            if d != axis and not same_dim(shape[d], x.shape[d]) and not dims_eq_or_fork(shape[d], x.shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [0]
    for x in arrs:
        offs.append(num_bin("add", offs[-1], x.shape[axis]))
    shape[axis] = offs[-1]
    fs = [x.snapshot() for x in arrs]

    def fn(*idx):
        i = idx[axis]
        r = None
        for q in range(len(fs) - 1, -1, -1):
            if not is_sym(arrs[q].shape[axis]) and arrs[q].shape[axis] == 0:
                continue
            j = list(idx)
            j[axis] = num_bin("sub", i, offs[q]) if not (not is_sym(offs[q]) and offs[q] == 0) else i
            if r is None:
                c0 = None
                if not is_sym(i) and not is_sym(offs[q]) and not is_sym(offs[q + 1]) and not (offs[q] <= i < offs[q + 1]):
                    continue
                r = cast_scalar(fs[q](*j), kind)
            else:
                cnd = num_bin("lt", i, offs[q + 1])
                if isinstance(cnd, (bool, np.bool_)):
                    if cnd:
                        if not is_sym(j[axis]) and j[axis] < 0:
                            continue
                        r = cast_scalar(fs[q](*j), kind)
                    continue
                r = ite(cnd, cast_scalar(fs[q](*j), kind), r)
        if r is None:
            raise Unsupported("index into empty concatenation")
        return r

    dts = {x.dtype for x in arrs}
    return SArr(shape, kind, memo(fn), dtype=dts.pop() if len(dts) == 1 else None)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([ravel(lift(a)), ravel(lift(v))])
    return concatenate([a, v], axis=axis)


def stack(arrs, axis=0, **k):
    if is_sarr(arrs):
        arrs = [arrs[i] for i in range(arrs.shape[0])]
    r = stack_list([lift(x) for x in arrs])
    if axis == 0:
        return r
    axis = axis % r.ndim
    return moveaxis(r, 0, axis)


def hstack(arrs, **k):
    arrs = [atleast_1d(x) for x in arrs]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(arrs, **k):
    return concatenate([atleast_2d(x) for x in arrs], axis=0)


def atleast_1d(x):
    x = lift(x)
    return x if x.ndim else x[None] if is_sarr(x[None]) else x


def atleast_2d(x):
    x = lift(x)
    if x.ndim == 0:
        return x[None][None]
    return x[None] if x.ndim == 1 else x


def column_stack(arrs):
    return stack([lift(x) for x in arrs], axis=1)


def transpose(a, axes=None):
    a = lift(a)
    axes = list(reversed(range(a.ndim))) if axes is None else [x % a.ndim for x in axes]
    inv = [axes.index(i) for i in range(a.ndim)]
    pv, pi = a.vmap, a.vinv

    def vmap(*idx):
        src = [idx[inv[i]] for i in range(a.ndim)]
        return pv(*src) if pv is not None else tuple(src)

    def vinv(*b):
        c0 = True
        if pv is not None:
            if pi is None:
                raise Unsupported("write through a non-invertible view")
            c0, b = pi(*b)
        return c0, tuple(b[x] for x in axes)

    return SArr([a.shape[x] for x in axes], a.kind, buf=a.buf, vmap=vmap, vinv=vinv, dtype=a.dtype)


def moveaxis(a, s, d):
    a = lift(a)
    s = [s] if not isinstance(s, (list, tuple)) else list(s)
    d = [d] if not isinstance(d, (list, tuple)) else list(d)
    s = [x % a.ndim for x in s]
    d = [x % a.ndim for x in d]
    order = [n for n in range(a.ndim) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return transpose(a, order)


def swapaxes(a, x, y):
    a = lift(a)
    ax = list(range(a.ndim))
    x, y = x % a.ndim, y % a.ndim
    ax[x], ax[y] = ax[y], ax[x]
    return transpose(a, ax)


def squeeze(a, axis=None):
    a = lift(a)
    if axis is None:
        axs = []
        for i, d in enumerate(a.shape):
            if is_sym(d):
                if bool(num_bin("eq", d, 1)):
                    axs.append(i)
            elif d == 1:
                axs.append(i)
    else:
        axs = _axes(a, axis)
        for i in axs:
            if not (same_dim(a.shape[i], 1) or bool(num_bin("eq", a.shape[i], 1))):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    return a[tuple(0 if i in axs else slice(None) for i in range(a.ndim))] if axs else a


def expand_dims(a, axis):
    a = lift(a)
    axs = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
    nd = a.ndim + len(axs)
    axs = [x % nd for x in axs]
    return a[tuple(None if i in axs else slice(None) for i in range(nd))]


def ravel(a, order="C"):
    a = lift(a)
    if a.ndim == 1:
        return a
    return reshape(a, -1, order=order)


def reshape(a, *shape, order="C", **k):
    a = lift(a)
    if "newshape" in k:
        shape = (k["newshape"],)
    if len(shape) == 1 and not (type(shape[0]) is SInt or isinstance(shape[0], (int, np.integer))):
        shape = tuple(shape[0])
    shape = list(shape)
    if order not in ("C", None):
        if order == "F":
            return transpose(reshape(transpose(a), *reversed(shape)))
        raise Unsupported("reshape order")
    size = a.size
    if any(not is_sym(d) and d == -1 for d in shape):
        p = [i for i, d in enumerate(shape) if not is_sym(d) and d == -1]
        rest = 1
        for i, d in enumerate(shape):
            if i != p[0]:
                rest = num_bin("mul", rest, d)
        if not is_sym(rest) and rest == 1:
            shape[p[0]] = size
        elif not is_sym(rest) and not is_sym(size):
            if rest == 0 or size % rest:
                raise ValueError("cannot reshape")
            shape[p[0]] = size // rest
        else:
            # cancel equal dims
            dims = list(a.shape)
            left = [d for i, d in enumerate(shape) if i != p[0]]
            for d in list(left):
                for e in dims:
                    if same_dim(d, e):
                        dims.remove(e)
                        left.remove(d)
                        break
            if any(not (not is_sym(d) and d == 1) for d in left):
                raise Unsupported("reshape -1 with symbolic dims")
            r = 1
            for e in dims:
                r = num_bin("mul", r, e)
            shape[p[0]] = r
    n2 = 1
    for d in shape:
        n2 = num_bin("mul", n2, d)
    if not same_dim(size, n2):
        if not bool(num_bin("eq", size, n2)):
            raise ValueError("cannot reshape array")
    src = a.snapshot()
    # strip matching leading / trailing dims
    lead = 0
    while lead < min(len(shape), a.ndim) and same_dim(shape[lead], a.shape[lead]):
        lead += 1
    tail = 0
    while tail < min(len(shape), a.ndim) - lead and same_dim(shape[-1 - tail], a.shape[-1 - tail]):
        tail += 1
    mid_o = shape[lead:len(shape) - tail]
    mid_i = list(a.shape[lead:a.ndim - tail])

    def conv(mid):
        # flat index of out mid -> in mid indices
        nz_o = [(j, d) for j, d in enumerate(mid_o) if not (not is_sym(d) and d == 1)]
        nz_i = [(j, d) for j, d in enumerate(mid_i) if not (not is_sym(d) and d == 1)]
        res = [0] * len(mid_i)
        if len(nz_o) == len(nz_i) and all(same_dim(x[1], y[1]) for x, y in zip(nz_o, nz_i)):
            for (jo, _), (ji, _) in zip(nz_o, nz_i):
                res[ji] = mid[jo]
            return res
        flat = 0
        for j, d in nz_o:
            flat = num_bin("add", num_bin("mul", flat, d), mid[j])
        for j, d in reversed(nz_i[1:]):
            res[j] = num_bin("mod", flat, d)
            flat = num_bin("floordiv", flat, d)
        if nz_i:
            res[nz_i[0][0]] = flat
        return res

    def fn(*idx):
        mid = idx[lead:len(shape) - tail]
        return src(*idx[:lead], *conv(mid), *idx[len(shape) - tail:])

    r = SArr(shape, a.kind, fn, dtype=a.dtype)
    return r


def take(a, ind, axis=None, **k):
    a = lift(a)
    if axis is None:
        a, axis = ravel(a), 0
    axis = axis % a.ndim
    key = tuple([slice(None)] * axis + [ind])
    return a[key]


def take_axis_vector(k, d):
    """the 1-D vector along axis d of an array whose other axes have length 1."""
    f = k.snapshot()
    nd = k.ndim
    return SArr((k.shape[d],), k.kind, lambda i: f(*[i if q == d else 0 for q in range(nd)]), dtype=k.dtype)


def ix_(*seqs):
    n = len(seqs)
    out = []
    for p, s in enumerate(seqs):
        s = lift(s)
        if s.kind == "b":
            s = nonzero_info(s).arrays()[0]
        f = s.snapshot()
        a = SArr([s.shape[0] if q == p else 1 for q in range(n)], "i", (lambda f, p: lambda *i: f(i[p]))(f, p))
        if s.meta.get("nonneg_v") == s.version():
            a.meta["nonneg_v"] = a.version()
        a.meta["ixsrc"] = s
        out.append(a)
    return tuple(out)


def repeat(a, m, axis=None, **k):
    a = lift(a)
    if axis is None:
        a, axis = ravel(a), 0
    axis = axis % a.ndim
    if is_sarr(m) or isinstance(m, (list, np.ndarray)):
        raise Unsupported("repeat with counts")
    f = a.snapshot()
    shape = list(a.shape)
    same1 = not is_sym(shape[axis]) and shape[axis] == 1
    shape[axis] = num_bin("mul", shape[axis], m)

    def fn(*i):
        j = list(i)
        j[axis] = 0 if same1 else num_bin("floordiv", i[axis], m)
        return f(*j)

    return SArr(shape, a.kind, fn, dtype=a.dtype)


def tile(a, reps):
    a = lift(a)
    reps = (reps,) if not isinstance(reps, (tuple, list)) or is_sym(reps) else tuple(reps)
    while a.ndim < len(reps):
        a = a[None]
    reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    f = a.snapshot()
    shape = [num_bin("mul", d, r) for d, r in zip(a.shape, reps)]

    def fn(*i):
        return f(*[x if (not is_sym(r) and r == 1) else (0 if not is_sym(d) and d == 1 else num_bin("mod", x, d)) for x, d, r in zip(i, a.shape, reps)])

    return SArr(shape, a.kind, fn, dtype=a.dtype)


def broadcast_to(a, shape, **k):
    a = lift(a)
    shape = _shape(shape)
    g = broadcast_getter(a, shape)
    return SArr(shape, a.kind, lambda *i: g(*i), dtype=a.dtype)


def flip(a, axis=None):
    a = lift(a)
    axs = _axes(a, axis)
    return a[tuple(slice(None, None, -1) if i in axs else slice(None) for i in range(a.ndim))]


def diff(a, n=1, axis=-1, **k):
    a = lift(a)
    if n != 1:
        raise Unsupported("diff n")
    axis = axis % a.ndim
    hi = a[tuple([slice(None)] * axis + [slice(1, None)])]
    lo = a[tuple([slice(None)] * axis + [slice(None, -1)])]
    if a.kind == "b":
        return elementwise("ne", hi, lo)
    return elementwise("sub", hi, lo)


def ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Unsupported("ediff1d ends")
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported("ediff1d of an nd array")
    return diff(a)


def roll(a, shift, axis=None):
    raise Unsupported("roll")


# ---------------------------------------------------------------- comparisons
def _isclose1(x, y, rtol, atol):
    x, y = [num_bin("add", v, 0) if kind_of(v) == "b" else v for v in (x, y)]
    d = abs(num_bin("sub", x, y))
    tol = num_bin("add", atol, num_bin("mul", rtol, abs(y)))
    return num_bin("le", d, tol)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if any(is_sarr(v) or isinstance(v, (list, np.ndarray)) and not is_sym(v) or type(v) is SList for v in (a, b, rtol, atol)):
        A, B = lift(a), lift(b)
        Rt, At = lift(rtol), lift(atol)
        shape = broadcast_shapes(A.shape, B.shape, Rt.shape, At.shape)
        fs = [broadcast_getter(v, shape) for v in (A, B, Rt, At)]
        if not shape:
            return _isclose1(*[f() for f in fs])
        return SArr(shape, "b", memo(lambda *i: _isclose1(*[f(*i) for f in fs])))
    return _isclose1(a, b, rtol, atol)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(isclose(a, b, rtol, atol))


def array_equal(a, b, equal_nan=False):
    a, b = lift(a), lift(b)
    if a.ndim != b.ndim:
        return False
    conds = []
    for x, y in zip(a.shape, b.shape):
        e = num_bin("eq", x, y)
        if isinstance(e, (bool, np.bool_)):
            if not e:
                return False
        else:
            conds.append(e)
    fa, fb = a.snapshot(), b.snapshot()
    if (a.kind == "U") != (b.kind == "U"):
        return sand(*conds, num_bin("eq", a.size, 0))
    if a.ndim == 0:
        return num_bin("eq", fa(), fb())
    body = _forall_cells(lambda *i: num_bin("eq", fa(*i), fb(*i)), list(a.shape), _b)
    return sand(*conds, body)


def array_equiv(a, b):
    return array_equal(a, b)


# ---------------------------------------------------------------- linear algebra
def matmul(a, b):
    a, b = lift(a), lift(b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None]
    if b1:
        b = b[:, None]
    n = a.shape[-1]
    if not same_dim(n, b.shape[-2]) and not dims_eq_or_fork(n, b.shape[-2]):
        raise ValueError("matmul: mismatch in core dimension")
    lead = broadcast_shapes(a.shape[:-2], b.shape[:-2])
    kind = join_kind(a.kind, b.kind)
    fa = broadcast_getter(a, tuple(lead) + a.shape[-2:])
    fb = broadcast_getter(b, tuple(lead) + b.shape[-2:])
    nl = len(lead)

    def fn(*idx):
        L, i, j = idx[:nl], idx[nl], idx[nl + 1]
        return cast_scalar(sum_cells(lambda q: num_bin("mul", fa(*L, i, q), fb(*L, q, j)), [n], kind), kind)

    r = SArr(tuple(lead) + (a.shape[-2], b.shape[-1]), kind, memo(fn))
    if a1 and b1:
        return r.at(*([0] * r.ndim))
    if a1:
        return r[..., 0, :]
    if b1:
        return r[..., 0]
    return r


def dot(a, b, **k):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise("mul", a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    raise Unsupported("dot nd")


def einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    ops = [lift(o) for o in ops]
    ins = spec.split("->")[0].split(",")
    # ellipsis: broadcast axes, named from the right by capital letters
    nb = 0
    for q, (s, o) in enumerate(zip(ins, ops)):
        if "..." in s:
            m = o.ndim - len(s.replace("...", ""))
            nb = max(nb, m)
            if any(not is_sym(d) and d == 1 for d in o.shape[s.index("..."): s.index("...") + m]):
                raise Unsupported("einsum ellipsis broadcasting")
            ins[q] = s.replace("...", "".join(chr(ord("A") + 20 - m + t) for t in range(m)))
    ell = "".join(chr(ord("A") + 20 - nb + t) for t in range(nb))
    if "->" in spec:
        out = spec.split("->")[1].replace("...", ell)
    else:
        letters = "".join(ins)
        out = ell + "".join(ch for ch in sorted(set(letters) - set(ell)) if letters.count(ch) == 1)
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o.shape):
            if ch in dims:
                if not same_dim(dims[ch], d) and not dims_eq_or_fork(dims[ch], d):
                    raise ValueError("einsum dims")
            dims[ch] = d
    red = [ch for ch in dims if ch not in out]
    fs = [o.snapshot() for o in ops]
    kind = join_kind(*[o.kind for o in ops])

    def fn(*idx):
        env = dict(zip(out, idx))

        def cell(*inner):
            e = dict(env)
            e.update(zip(red, inner))
            r = None
            for s, f in zip(ins, fs):
                v = f(*[e[ch] for ch in s])
                r = v if r is None else num_bin("mul", r, v)
            return r

        if not red:
            return cell()
        return cast_scalar(sum_cells(cell, [dims[ch] for ch in red], kind), kind)

    if not out:
        return fn()
    return SArr([dims[ch] for ch in out], kind, memo(fn))


def norm(a, ord=None, axis=None, keepdims=False):
    a = lift(a)
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    sq = umap(a, lambda v: num_bin("mul", v, _conj(v)) if type(v) is not SCplx else num_bin("add", v.re * v.re, v.im * v.im), "f")
    return umap(np_sum(sq, axis=axis, keepdims=keepdims), core.ssqrt, "f")


def cross(a, b, **k):
    a, b = lift(a), lift(b)
    shape = broadcast_shapes(a.shape, b.shape)
    fa, fb = broadcast_getter(a, shape), broadcast_getter(b, shape)

    def fn(*i):
        L, q = i[:-1], i[-1]
        vals = []
        for c0 in range(3):
            x, y = (c0 + 1) % 3, (c0 + 2) % 3
            vals.append(num_bin("sub", num_bin("mul", fa(*L, x), fb(*L, y)), num_bin("mul", fa(*L, y), fb(*L, x))))
        return stack_list(vals).at(q)

    return SArr(shape, join_kind(a.kind, b.kind), fn)


def np_round(a, decimals=0, **k):
    if decimals != 0:
        raise Unsupported("round decimals")
    return umap(a, _srint, _tofloat)


def nan_to_num(a, *x, **k):
    return a


def ptp(a, axis=None, **k):
    return elementwise("sub", np_max(a, axis=axis), np_min(a, axis=axis))


def copyto(dst, src, where=True, **k):
    if not is_sarr(dst):
        raise Unsupported("copyto concrete")
    s = broadcast_getter(lift(src), dst.shape)
    w = broadcast_getter(lift(where), dst.shape)
    dst.update(lambda *i: _b(w(*i)), s)


def delete(a, obj, axis=None):
    a = lift(a)
    if axis is None:
        a, axis = ravel(a), 0
    n = a.shape[axis]
    o = lift(obj)
    if o.kind == "b":
        o = nonzero_info(o).arrays()[0]
    if o.ndim == 0:
        o = o[None]
    keep = SArr((n,), "b", lambda i: bnot(member(o, i)))
    key = tuple([slice(None)] * (axis % a.ndim) + [nonzero_info(keep).arrays()[0]])
    return a[key]


def result_type(*a):
    return np.result_type(*[(x.dtype if is_sarr(x) else x) for x in a])


HANDLERS = dict(
    array=array, asarray=asarray, ascontiguousarray=lambda x, dtype=None, **k: atleast_1d(asarray(x, dtype=dtype)), asanyarray=asarray, asfarray=lambda x: array(x, dtype=float),
    copy=lambda a, **k: lift(a).copy(), require=lambda a, *x, **k: asarray(a, dtype=k.get("dtype")),
    zeros=zeros, ones=ones, full=full, empty=empty, arange=arange,
    zeros_like=_like(zeros), ones_like=_like(ones), empty_like=_like(empty), full_like=full_like,
    all=np_all, any=np_any, alltrue=np_all, sum=np_sum, nansum=np_sum, mean=np_mean, nanmean=np_mean,
    prod=np_prod, min=np_min, max=np_max, amin=np_min, amax=np_max, nanmin=np_min, nanmax=np_max,
    argmin=argmin, argmax=argmax, count_nonzero=count_nonzero, cumsum=cumsum, average=np_mean,
    nonzero=nonzero, flatnonzero=flatnonzero, argwhere=argwhere, where=where, isin=isin,
    in1d=isin, unique=unique, argsort=argsort, lexsort=lexsort, sort=sort, searchsorted=searchsorted,
    intersect1d=intersect1d, setdiff1d=setdiff1d, union1d=union1d, concatenate=concatenate,
    append=append, stack=stack, hstack=hstack, vstack=vstack, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
    column_stack=column_stack, transpose=transpose, moveaxis=moveaxis, swapaxes=swapaxes, squeeze=squeeze,
    expand_dims=expand_dims, ravel=ravel, reshape=reshape, take=take, ix_=ix_, repeat=repeat, tile=tile,
    broadcast_to=broadcast_to, flip=flip, diff=diff, ediff1d=ediff1d, isclose=isclose, allclose=allclose,
    array_equal=array_equal, array_equiv=array_equiv, matmul=matmul, dot=dot, einsum=einsum, cross=cross,
    round=np_round, around=np_round, nan_to_num=nan_to_num, ptp=ptp, copyto=copyto, delete=delete,
    result_type=result_type, norm=norm,
    shape=lambda a: lift(a).shape, size=lambda a, axis=None: lift(a).size if axis is None else lift(a).shape[axis],
    ndim=lambda a: lift(a).ndim, real=lambda a: umap(a, *UN["real"]), imag=lambda a: umap(a, *UN["imag"]),
    angle=lambda a, deg=False: umap(a, *UN["angle"]),
    iscomplexobj=lambda a: lift(a).kind == "c", isscalar=lambda a: not is_sarr(a) and type(a) is not SList,
    may_share_memory=lambda a, b: False,
    broadcast_arrays=lambda *a: [broadcast_to(x, broadcast_shapes(*[lift(y).shape for y in a])) for x in a],
)


def _m(name):
    h = HANDLERS[name]
    return lambda self, *a, **k: h(self, *a, **k)


METHODS = {
    n: _m(n) for n in (
        "all any sum mean prod min max argmin argmax nonzero argsort reshape squeeze ravel take repeat "
        "cumsum transpose swapaxes round ptp dot searchsorted"
    ).split()
}
METHODS.update(
    astype=astype,
    flatten=lambda self, order="C": ravel(self).copy(),
    conj=lambda self: umap(self, *UN["conjugate"]),
    conjugate=lambda self: umap(self, *UN["conjugate"]),
    sort=lambda self, *a, **k: _sort_inplace(self),
    transpose=lambda self, *a: transpose(self, None if not a else (a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a)),
    setflags=lambda self, write=None, **k: setattr(self.flags, "writeable", write) if write is not None else None,
    view=lambda self, *a: _view(self, *a),
)


def _view(self, *a):
    if a:
        raise Unsupported("view dtype")
    return self[...]


def _sort_inplace(self):
    r = sort(self)
    f = r.snapshot()
    self.update(lambda *i: True, f)


# ---------------------------------------------------------------- np proxy
class _Dispatch:
    """Callable standing for np.<name>: real numpy unless an argument is symbolic."""

    __slots__ = ("name", "real")

    def __init__(self, name, real):
        self.name, self.real = name, real

    def __call__(self, *args, **kw):
        if has_sym(args) or has_sym(kw):
            if self.name in UN or self.name in BIN:
                if self.name not in HANDLERS:
                    return ufunc_call(self.name, args, kw)
            return function_call(self.name, args, kw)
        if self.name in ("zeros", "empty") and args and isinstance(args[0], tuple) and len(args[0]) >= 2 and core.CTX is not None:
            if np.dtype(kw.get("dtype", args[1] if len(args) > 1 else float)).kind == "f":
                return function_call(self.name, args, kw)  # may be filled with symbolic values later
        return self.real(*args, **kw)

    def __getattr__(self, a):
        return getattr(self.real, a)


class SymNp:
    def __init__(self, real=np, prefix=""):
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_cache", {})

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        r = getattr(self._real, name)
        if isinstance(r, type) or not callable(r):
            if name == "linalg":
                r = SymNp(np.linalg)
        else:
            r = _Dispatch(name, r)
        c[name] = r
        return r


SYMNP = SymNp()


def np_type_call(tp, *args, **kw):
    """np.float64(x), np.array... called through a type object."""
    if args and has_sym(args):
        if isinstance(tp, type) and issubclass(tp, np.generic):
            x = args[0]
            if is_sarr(x):
                return astype(x, tp)
            return cast_scalar(x, _kd(tp)[0])
    return tp(*args, **kw)


def np_dtype_call(tp, *args, **kw):
    """arr.dtype.type(x)"""
    if len(args) == 1 and has_sym(args) and isinstance(tp, type) and issubclass(tp, np.generic) and not is_sarr(args[0]):
        return core.SNpScalar(tp, args[0])
    return np_type_call(tp, *args, **kw)
