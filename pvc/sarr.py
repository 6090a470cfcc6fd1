"""Symbolic ndarrays: unbounded shapes, contents as functions of index tuples."""
from __future__ import annotations

import numpy as np
import z3

from .core import isinstance  # noqa: A004
from . import core
from .core import (
    SBool, SCplx, SInt, SReal, SStr, Sym, Unsupported, bnot, cast_scalar, ctx,
    i_term, is_sym, ite, join_kind, kind_of, mkbool, mkint, num_bin, tobool,
)

_DT = {
    "b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64),
    "c": np.dtype(np.complex128), "U": np.dtype("<U32"), "O": np.dtype(object),
}


def is_sarr(x):
    return type(x) is SArr


def sand(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        ts.append(tobool(x))
    if not ts:
        return True
    return mkbool(z3.And(*ts)) if len(ts) > 1 else mkbool(ts[0])


def sor(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        ts.append(tobool(x))
    if not ts:
        return False
    return mkbool(z3.Or(*ts)) if len(ts) > 1 else mkbool(ts[0])


def simplies(a, b):
    return sor(bnot(a), b)


def in_range(i, n):
    return sand(num_bin("le", 0, i), num_bin("lt", i, n))


def same_dim(a, b):
    """Are two dims known equal?  (no fork)"""
    if not is_sym(a) and not is_sym(b):
        return a == b
    e = num_bin("eq", a, b)
    if isinstance(e, bool):
        return e
    return ctx().must(e.t)


def dims_eq_or_fork(a, b):
    e = num_bin("eq", a, b)
    return bool(e)


class Buf:
    __slots__ = ("shape", "kind", "fn", "version", "scatter")

    def __init__(self, shape, kind, fn):
        self.shape, self.kind, self.fn, self.version = shape, kind, fn, 0

    def update(self, cond, val):
        old = self.fn
        kind = self.kind

        def fn(*idx, old=old, cond=cond, val=val):
            c = cond(*idx)
            if isinstance(c, (bool, np.bool_)):
                return cast_scalar(val(*idx), kind) if c else old(*idx)
            return ite(c, cast_scalar(val(*idx), kind), old(*idx))

        self.fn = fn
        self.version += 1


class _Flags:
    def __init__(self):
        self.writeable = True
        self.c_contiguous = True

    def __getitem__(self, k):
        return True


class SArr(Sym):
    __slots__ = ("_shape", "buf", "vmap", "vinv", "_dtype", "flags", "meta", "attrs_")

    def __init__(self, shape, kind, fn=None, *, buf=None, vmap=None, vinv=None, dtype=None):
        self._shape = tuple(_dim(d) for d in shape)
        if buf is None:
            buf = Buf(self._shape, kind, fn)
        self.buf = buf
        self.vmap, self.vinv = vmap, vinv
        self._dtype = dtype if dtype is not None else _DT[buf.kind]
        self.flags = _Flags()
        self.meta = {}

    # numpy protocol ---------------------------------------------------------
    @property
    def __class__(self):
        return np.ndarray

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp

        if method != "__call__":
            raise Unsupported(f"ufunc method {method}")
        return snp.ufunc_call(ufunc.__name__, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import snp

        return snp.function_call(func.__name__, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array passed to native code")

    # shape ------------------------------------------------------------------
    @property
    def shape(self):
        lz = self.meta.pop("lazy", None)
        if lz is not None:
            lz()
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return self._dtype

    @property
    def base(self):
        return None if self.vmap is None else self.buf

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = num_bin("mul", n, d)
        return n

    @property
    def T(self):
        from . import snp

        return snp.transpose(self)

    @property
    def real(self):
        return self.map(lambda x: x.real if is_sym(x) else np.real(x), "f" if self.kind == "c" else self.kind)

    @property
    def imag(self):
        return self.map(lambda x: x.imag if is_sym(x) else np.imag(x), "f" if self.kind == "c" else self.kind)

    def version(self):
        return (id(self.buf), self.buf.version)

    # element access -----------------------------------------------------------
    def at(self, *idx):
        """Element at in-range indices (no bounds obligation)."""
        if self.vmap is not None:
            idx = self.vmap(*idx)
        return self.buf.fn(*idx)

    def snapshot(self):
        """Function giving the *current* contents (immune to later writes)."""
        fn, vmap = self.buf.fn, self.vmap
        if vmap is None:
            return fn
        return lambda *idx: fn(*vmap(*idx))

    def update(self, cond, val):
        if not self.flags.writeable:
            raise ValueError("assignment destination is read-only")
        if self.vmap is None:
            self.buf.update(cond, val)
        else:
            vinv = self.vinv
            if vinv is None:
                raise Unsupported("write through a non-invertible view")

            def bcond(*b):
                c, idx = vinv(*b)
                if isinstance(c, (bool, np.bool_)) and not c:
                    return False
                return sand(c, cond(*idx))

            def bval(*b):
                _, idx = vinv(*b)
                return val(*idx)

            self.buf.update(bcond, bval)
        self.meta = {}

    def map(self, f, kind, dtype=None):
        src = self.snapshot()
        return SArr(self._shape, kind, lambda *i: f(src(*i)), dtype=dtype)

    def copy(self, order=None):
        return SArr(self._shape, self.kind, self.snapshot(), dtype=self._dtype)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __getattr__(self, name):
        from . import snp

        if name.startswith("_"):
            raise AttributeError(name)
        h = snp.METHODS.get(name)
        if h is None:
            if hasattr(np.ndarray, name):
                raise Unsupported(f"ndarray.{name}")
            raise AttributeError(name)
        return lambda *a, **k: h(self, *a, **k)

    def __len__(self):
        n = self._shape[0]
        if is_sym(n):
            raise Unsupported("len() of symbolic array by native code")
        return n

    def __iter__(self):
        n = self._shape[0]
        if is_sym(n):
            raise Unsupported("iteration over an array of unbounded length")
        return (self[i] for i in range(n))

    def __bool__(self):
        n = 1
        for d in self._shape:
            if is_sym(d) or d != 1:
                raise ValueError(
                    "The truth value of an array with more than one element is ambiguous."
                )
        return bool(self.at(*([0] * self.ndim)))

    def __contains__(self, x):
        from . import snp

        return bool(snp.member(self, x))

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def tolist(self):
        if all(not is_sym(d) for d in self._shape):
            def rec(pre, dims):
                if not dims:
                    return self.at(*pre)
                return [rec(pre + [i], dims[1:]) for i in range(dims[0])]

            return rec([], list(self._shape))
        from .sseq import SList

        return SList(self)

    def item(self, *a):
        if not a:
            return self.at(*([0] * self.ndim))
        if self.ndim == 1:
            return self[a[0]]
        if len(a) == 1 and type(a[0]) is int and a[0] == 0:
            return self.at(*([0] * self.ndim))
        if len(a) == 1 and not isinstance(a[0], tuple):
            raise Unsupported("item() with a flat index on an nd array")
        return self.at(*a[0]) if isinstance(a[0], tuple) else self.at(*a)

    def fill(self, v):
        self.update(lambda *i: True, lambda *i: v)

    # indexing -------------------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # arithmetic -------------------------------------------------------------------
    def _bin(self, op, o, rev=False):
        from . import snp

        if o is None or isinstance(o, str) and type(o) is not SStr:
            if op == "eq":
                if isinstance(o, str):
                    return snp.elementwise(op, self, o)
                return False
            if op == "ne":
                if isinstance(o, str):
                    return snp.elementwise(op, self, o)
                return True
        if hasattr(o, "unit") and not is_sym(o):
            return NotImplemented
        return snp.elementwise(op, o, self) if rev else snp.elementwise(op, self, o)

    def __add__(s, o): return s._bin("add", o)
    def __radd__(s, o): return s._bin("add", o, True)
    def __sub__(s, o): return s._bin("sub", o)
    def __rsub__(s, o): return s._bin("sub", o, True)
    def __mul__(s, o): return s._bin("mul", o)
    def __rmul__(s, o): return s._bin("mul", o, True)
    def __truediv__(s, o): return s._bin("div", o)
    def __rtruediv__(s, o): return s._bin("div", o, True)
    def __floordiv__(s, o): return s._bin("floordiv", o)
    def __rfloordiv__(s, o): return s._bin("floordiv", o, True)
    def __mod__(s, o): return s._bin("mod", o)
    def __rmod__(s, o): return s._bin("mod", o, True)
    def __pow__(s, o): return s._bin("pow", o)
    def __rpow__(s, o): return s._bin("pow", o, True)
    def __lt__(s, o): return s._bin("lt", o)
    def __le__(s, o): return s._bin("le", o)
    def __gt__(s, o): return s._bin("gt", o)
    def __ge__(s, o): return s._bin("ge", o)
    def __eq__(s, o): return s._bin("eq", o)
    def __ne__(s, o): return s._bin("ne", o)
    def __and__(s, o): return s._bin("and", o)
    def __rand__(s, o): return s._bin("and", o, True)
    def __or__(s, o): return s._bin("or", o)
    def __ror__(s, o): return s._bin("or", o, True)
    def __xor__(s, o): return s._bin("xor", o)
    def __rxor__(s, o): return s._bin("xor", o, True)
    def __matmul__(s, o):
        from . import snp
        return snp.matmul(s, o)
    def __rmatmul__(s, o):
        from . import snp
        return snp.matmul(o, s)

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("~ on non-bool")
        return self.map(bnot, "b")

    def __neg__(self):
        return self.map(lambda x: -x, self.kind, self._dtype)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(abs, "f" if self.kind == "c" else self.kind)

    def _inplace(self, op, o):
        from . import snp

        r = snp.elementwise(op, self, o)
        if len(r.shape) != len(self._shape):
            raise ValueError("non-broadcastable output operand")
        if _krank(r.kind) > _krank(self.kind):
            raise TypeError(f"Cannot cast ufunc output from {r.kind} to {self.kind}")
        for a, b in zip(r.shape, self._shape):
            if not same_dim(a, b):
                if not dims_eq_or_fork(a, b):
                    raise ValueError("non-broadcastable output operand")
        f = r.snapshot()
        self.update(lambda *i: True, f)
        return self

    def __iadd__(s, o): return s._inplace("add", o)
    def __isub__(s, o): return s._inplace("sub", o)
    def __imul__(s, o): return s._inplace("mul", o)
    def __itruediv__(s, o): return s._inplace("div", o)
    def __ior__(s, o): return s._inplace("or", o)
    def __iand__(s, o): return s._inplace("and", o)
    def __ifloordiv__(s, o): return s._inplace("floordiv", o)
    def __imod__(s, o): return s._inplace("mod", o)
    def __ipow__(s, o): return s._inplace("pow", o)

    def __repr__(self):
        return f"SArr(shape={self._shape}, kind={self.kind})"

    __str__ = __repr__


def _krank(k):
    return {"b": 0, "i": 1, "f": 2, "c": 3}.get(k, 9)


def _dim(d):
    if type(d) is SInt:
        s = core.simp(d.t)
        if z3.is_int_value(s):
            return s.as_long()
        return SInt(s)
    if isinstance(d, (int, np.integer)):
        return int(d)
    if type(d) is SReal:
        raise Unsupported("real dimension")
    raise Unsupported(f"dimension {d!r}")


def lift(x, dtype=None):
    """ndarray / nested list / scalar -> SArr."""
    from .sseq import SList

    if is_sarr(x):
        return x
    if type(x) is SList:
        return x.arr
    if isinstance(x, np.ndarray) and not is_sym(x):
        k = x.dtype.kind
        if k == "u":
            k = "i"
        if k == "S":
            k = "U"
        if k == "O":
            return lift(x.tolist())
        arr = x

        def fn(*idx, arr=arr):
            if all(not is_sym(i) for i in idx):
                return _py(arr[tuple(int(i) for i in idx)])
            return _sel(arr, idx)

        return SArr(x.shape, k, fn, dtype=x.dtype)
    if isinstance(x, (list, tuple)) and type(x) is not SList:
        xs = [_elem(e) for e in x]
        return stack_list(xs)
    if isinstance(x, range):
        return lift(np.array(list(x)))
    # scalar
    v = x.item() if isinstance(x, np.generic) else x
    return SArr((), kind_of(v), lambda: v)


def _elem(e):
    from .sseq import SList

    if is_sarr(e) or (is_sym(e)):
        return e
    if isinstance(e, (list, tuple)) or type(e) is SList:
        return lift(e)
    if isinstance(e, np.ndarray):
        return lift(e) if e.ndim else e.item()
    if isinstance(e, np.generic):
        return e.item()
    return e


def stack_list(xs):
    n = len(xs)
    if n == 0:
        return SArr((0,), "f", lambda *i: 0.0)
    if any(is_sarr(e) for e in xs):
        xs = [lift(e) for e in xs]
        sh = xs[0].shape
        for e in xs[1:]:
            if len(e.shape) != len(sh) or not all(
                same_dim(a, b) or dims_eq_or_fork(a, b) for a, b in zip(e.shape, sh)
            ):
                raise ValueError("inhomogeneous shape")
        kind = join_kind(*[e.kind for e in xs])
        fs = [e.snapshot() for e in xs]

        def fn(i, *rest):
            if not is_sym(i):
                return cast_scalar(fs[i](*rest), kind)
            r = cast_scalar(fs[-1](*rest), kind)
            for j in range(n - 2, -1, -1):
                r = ite(num_bin("eq", i, j), cast_scalar(fs[j](*rest), kind), r)
            return r

        return SArr((n,) + tuple(sh), kind, fn)
    kind = join_kind(*[kind_of(e) for e in xs])
    vals = [cast_scalar(e, kind) for e in xs]

    def fn1(i):
        if not is_sym(i):
            return vals[i]
        r = vals[-1]
        for j in range(n - 2, -1, -1):
            r = ite(num_bin("eq", i, j), vals[j], r)
        return r

    return SArr((n,), kind, fn1)


def _py(v):
    return v.item() if isinstance(v, np.generic) else v


def _sel(arr, idx):
    """ITE selection from a concrete ndarray at a symbolic index."""
    if arr.ndim == 0:
        return arr.item()
    i, rest = idx[0], idx[1:]
    if not is_sym(i):
        return _sel(arr[int(i)], rest)
    n = arr.shape[0]
    if n > 64:
        raise Unsupported("symbolic index into a large concrete array")
    if n == 0:
        raise Unsupported("index into empty array")
    r = _sel(arr[n - 1], rest)
    for j in range(n - 2, -1, -1):
        r = ite(num_bin("eq", i, j), _sel(arr[j], rest), r)
    return r


# --------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------


def bound_ob(i, n, what):
    """Obligation: index i (scalar) within [-n, n)."""
    if not is_sym(i) and not is_sym(n):
        if not (-n <= i < n):
            raise IndexError(f"index {i} is out of bounds for axis with size {n}")
        return
    c = ctx()
    t = tobool(sand(num_bin("le", num_bin("sub", 0, n), i), num_bin("lt", i, n)))
    if c.must(t):
        return
    if c.must(z3.Not(t)):
        raise IndexError("index is out of bounds (all models)")
    # may be out of range: fork, the failing side raises like numpy
    if not c.decide(t):
        raise IndexError("symbolic index is out of bounds")


def wrap(i, n):
    if not is_sym(i):
        return i if i >= 0 else num_bin("add", i, n)
    c = ctx()
    if c.pending_side:
        return ite(num_bin("lt", i, 0), num_bin("add", i, n), i)
    if c.must(tobool(num_bin("ge", i, 0))):
        return i
    return ite(num_bin("lt", i, 0), num_bin("add", i, n), i)


def smax0(x):
    if not is_sym(x):
        return max(0, x)
    if ctx().must(x.t >= 0):
        return x
    return mkint(z3.If(x.t >= 0, x.t, z3.IntVal(0)))


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    if ctx().must(tobool(num_bin("le", a, b))):
        return a
    if ctx().must(tobool(num_bin("le", b, a))):
        return b
    return ite(num_bin("le", a, b), a, b)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    if ctx().must(tobool(num_bin("ge", a, b))):
        return a
    if ctx().must(tobool(num_bin("ge", b, a))):
        return b
    return ite(num_bin("ge", a, b), a, b)


def norm_slice(s, n):
    """-> start, step, length (python slice semantics on an axis of length n)."""
    step = 1 if s.step is None else s.step
    if not is_sym(step) and step == 0:
        raise ValueError("slice step cannot be zero")
    pos = (step > 0) if not is_sym(step) else None
    if pos is None:
        if ctx().must(step.t > 0):
            pos = True
        elif bool(num_bin("gt", step, 0)):
            pos = True
        elif bool(num_bin("eq", step, 0)):
            raise ValueError("slice step cannot be zero")
        else:
            pos = False

    def clamp(v, lo, hi):
        v = ite(num_bin("lt", v, 0), num_bin("add", v, n), v) if not (
            (not is_sym(v) and v >= 0) or (is_sym(v) and ctx().must(v.t >= 0))
        ) else v
        return smin(smax(v, lo), hi)

    if pos:
        start = 0 if s.start is None else clamp(s.start, 0, n)
        stop = n if s.stop is None else clamp(s.stop, 0, n)
        d = num_bin("sub", stop, start)
        if not is_sym(step) and step == 1:
            length = smax0(d)
        else:
            dd = smax0(d)
            length = num_bin("floordiv", num_bin("add", dd, num_bin("sub", step, 1)), step)
        return start, step, length
    nm1 = num_bin("sub", n, 1)
    start = nm1 if s.start is None else clamp(s.start, -1, nm1)
    stop = -1 if s.stop is None else clamp(s.stop, -1, nm1)
    d = smax0(num_bin("sub", start, stop))
    ns = num_bin("sub", 0, step)
    length = num_bin("floordiv", num_bin("add", d, num_bin("sub", ns, 1)), ns)
    return start, step, length


def _expand_key(a, key):
    """Normalise key to a list of per-axis entries (None entries kept)."""
    from .sseq import SList

    if not isinstance(key, tuple) or is_sarr(key):
        key = (key,)
    out = []
    for k in key:
        if type(k) is SList:
            k = k.arr
        if isinstance(k, (list, tuple)) and not is_sarr(k):
            if len(k) == 0:
                k = SArr((0,), "i", lambda *i: 0)
            else:
                k = lift(k)
        elif isinstance(k, np.ndarray) and not is_sarr(k):
            if k.size == 0 and k.dtype.kind == "f":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            k = lift(k)
        elif isinstance(k, np.bool_):
            k = bool(k)
        elif isinstance(k, np.integer):
            k = int(k)
        if is_sarr(k) and k.ndim == 0 and k.kind == "i":
            k = k.at()
        if is_sarr(k) and k.kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        out.append(k)
    used = 0
    for k in out:
        if k is None or k is Ellipsis:
            continue
        if is_sarr(k) and k.kind == "b":
            used += k.ndim
        else:
            used += 1
    if used > a.ndim:
        raise IndexError("too many indices for array")
    fill = a.ndim - used
    if Ellipsis in [x for x in out if x is Ellipsis]:
        p = [i for i, x in enumerate(out) if x is Ellipsis]
        if len(p) > 1:
            raise IndexError("an index can only have a single ellipsis")
        p = p[0]
        out = out[:p] + [slice(None)] * fill + out[p + 1:]
    else:
        out = out + [slice(None)] * fill
    return out


def getitem(a, key):
    from . import snp

    if is_sarr(key) and key.kind == "b" and key.ndim == a.ndim and a.ndim > 1:
        nz = snp.nonzero_info(key)
        src = a.snapshot()
        return SArr((nz.n,), a.kind, lambda k: src(*nz.w(k)), dtype=a._dtype)
    keys = _expand_key(a, key)
    if any(is_sarr(k) for k in keys):
        return adv_get(a, keys)
    # basic indexing -> view
    shape, rows = [], []  # rows: per source axis ('int', i) or ('sl', start, step, outaxis)
    ax = 0
    for k in keys:
        if k is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            if k == slice(None):
                st, sp, ln = 0, 1, n
            else:
                st, sp, ln = norm_slice(k, n)
            rows.append(("sl", st, sp, len(shape), ln))
            shape.append(ln)
        elif isinstance(k, bool):
            raise Unsupported("bool scalar index")
        else:
            if kind_of(k) == "f":
                raise IndexError("only integers are valid indices")
            bound_ob(k, n, "index")
            rows.append(("int", wrap(k, n)))
        ax += 1
    if not shape:
        return a.at(*[r[1] for r in rows])
    pvmap, pvinv = a.vmap, a.vinv

    def vmap(*idx):
        src = []
        for r in rows:
            if r[0] == "int":
                src.append(r[1])
            else:
                _, st, sp, oa, _ = r
                v = idx[oa]
                if not (not is_sym(sp) and sp == 1):
                    v = num_bin("mul", v, sp)
                if not (not is_sym(st) and st == 0):
                    v = num_bin("add", v, st)
                src.append(v)
        return pvmap(*src) if pvmap is not None else tuple(src)

    nd = len(shape)

    def vinv(*b):
        c0 = True
        if a.vmap is not None:
            if pvinv is None:
                raise Unsupported("write through a non-invertible view")
            c0, b = pvinv(*b)
            if isinstance(c0, bool) and not c0:
                return False, ()
        conds = [c0]
        idx = [0] * nd
        for r, v in zip(rows, b):
            if r[0] == "int":
                conds.append(num_bin("eq", v, r[1]))
            else:
                _, st, sp, oa, ln = r
                if not is_sym(sp) and sp == 1:
                    j = v if (not is_sym(st) and st == 0) else num_bin("sub", v, st)
                else:
                    d = num_bin("sub", v, st)
                    if not is_sym(sp) and sp < 0:
                        d, s2 = num_bin("sub", st, v), -sp
                    else:
                        s2 = sp
                    conds.append(num_bin("eq", num_bin("mod", d, s2), 0))
                    j = num_bin("floordiv", d, s2)
                if not (sp == 1 and not is_sym(st) and st == 0 and ln is not None and same_full(a, r)):
                    conds.append(in_range(j, ln))
                idx[oa] = j
        return sand(*conds), tuple(idx)

    return SArr(shape, a.kind, buf=a.buf, vmap=vmap, vinv=vinv, dtype=a._dtype)


def same_full(a, r):
    return False


class AdvPlan:
    pass


def adv_plan(a, keys):
    """Resolve a key list containing index arrays."""
    from . import snp

    ks = []
    for k in keys:
        if is_sarr(k) and k.kind == "b":
            nz = snp.nonzero_info(k)
            axs = nz.arrays()
            for x in axs:
                x.meta["nz"] = nz
            ks.extend(axs)
        else:
            ks.append(k)
    # mask shape checks
    ax = 0
    for k in keys:
        if k is None:
            continue
        if is_sarr(k) and k.kind == "b":
            for d in range(k.ndim):
                if not same_dim(k.shape[d], a.shape[ax + d]):
                    if not dims_eq_or_fork(k.shape[d], a.shape[ax + d]):
                        raise IndexError("boolean index did not match indexed array")
            ax += k.ndim
        else:
            ax += 1
    p = AdvPlan()
    advpos = [i for i, k in enumerate(ks) if is_sarr(k) or (k is not None and not isinstance(k, slice))]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    arrs = []
    for i in advpos:
        arrs.append(ks[i])
    bshape = snp.broadcast_shapes(*[k.shape if is_sarr(k) else () for k in arrs])
    nb = len(bshape)
    out_shape, axmap = [], []
    front = not contiguous
    if front:
        out_shape.extend(bshape)
        bstart = 0
    else:
        bstart = None
    ax = 0
    ai = 0
    for i, k in enumerate(ks):
        if k is None:
            out_shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            st, sp, ln = (0, 1, n) if k == slice(None) else norm_slice(k, n)
            axmap.append(("sl", st, sp, len(out_shape), ln))
            out_shape.append(ln)
        else:
            if not front and bstart is None:
                bstart = len(out_shape)
                out_shape.extend(bshape)
            if is_sarr(k):
                if k.kind != "i":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                check_bounds(k, n)
                getter = snp.broadcast_getter(k, bshape)
                src_nonneg = nonneg(k)
                axmap.append(("arr", getter, n, src_nonneg, k))
            else:
                bound_ob(k, n, "index")
                kk = wrap(k, n)
                axmap.append(("arr", (lambda *b, kk=kk: kk), n, True, None))
            ai += 1
        ax += 1
    p.bstart, p.nb, p.out_shape, p.axmap, p.bshape = bstart, nb, out_shape, axmap, bshape
    return p


def nonneg(k):
    """Known that all entries are >= 0?"""
    if k.meta.get("nonneg_v") == k.version():
        return True
    c = ctx()
    vs = c.binder(k.ndim)
    idx = [SInt(v) for v in vs]
    e = k.at(*idx)
    rng = sand(*[in_range(i, d) for i, d in zip(idx, k.shape)])
    t = tobool(simplies(rng, num_bin("ge", e, 0)))
    if c.must(t):
        k.meta["nonneg_v"] = k.version()
        return True
    return False


def check_bounds(k, n):
    """Index-array bounds: all entries in [-n, n), else numpy raises IndexError."""
    c = ctx()
    key = ("bounds", k.version(), str(n) if not is_sym(n) else n.t.get_id())
    if k.meta.get("bounds") == key:
        return
    vs = c.binder(k.ndim)
    idx = [SInt(v) for v in vs]
    rng = sand(*[in_range(i, d) for i, d in zip(idx, k.shape)])
    c.enter(vs)
    try:
        e = k.at(*idx)
    finally:
        side = c.leave()
    for f in side:
        c.side(f)
    t = tobool(simplies(rng, sand(num_bin("lt", e, n), num_bin("ge", e, num_bin("sub", 0, n)))))
    if not c.must(t):
        q = c.quant(vs, lambda *v: t) if vs else t
        if c.must(z3.Not(q)):
            raise IndexError("index array is out of bounds (all models)")
        # fork: out-of-range side raises like numpy
        if not c.decide(q):
            raise IndexError("symbolic index array out of bounds")
    k.meta["bounds"] = key


def _bsrc(p, idx):
    b = idx[p.bstart:p.bstart + p.nb]
    src = []
    for r in p.axmap:
        if r[0] == "sl":
            _, st, sp, oa, _ = r
            v = idx[oa]
            if not (not is_sym(sp) and sp == 1):
                v = num_bin("mul", v, sp)
            if not (not is_sym(st) and st == 0):
                v = num_bin("add", v, st)
            src.append(v)
        else:
            _, getter, n, nn, _ = r
            v = getter(*b)
            if not nn:
                v = v + n if (not is_sym(v) and v < 0) else (
                    v if not is_sym(v) else ite(num_bin("lt", v, 0), num_bin("add", v, n), v)
                )
            src.append(v)
    return src


def adv_get(a, keys):
    p = adv_plan(a, keys)
    src = a.snapshot()
    if not p.out_shape:
        return src(*_bsrc(p, ()))
    return SArr(p.out_shape, a.kind, lambda *idx: src(*_bsrc(p, idx)), dtype=a._dtype)


def inverse_info(k, n, nn):
    """For a 1-D index array k: (hit(i), inv(i)) with last-write-wins semantics."""
    nz = k.meta.get("nz")
    if nz is not None and nz.dims == 1:
        return nz.mask, nz.pos1
    pi = k.meta.get("perm")
    if pi is not None:
        return (lambda i: True), pi
    c = ctx()
    key = ("inv", k.version())
    if k.meta.get("invkey") == key:
        return k.meta["inv"]
    if not is_sym(k.shape[0]) and k.shape[0] <= 16:
        m = k.shape[0]
        f0 = k.snapshot()
        f = f0 if nn else (lambda j: wrap(f0(j), n))

        def hit(i):
            return sor(*[num_bin("eq", f(j), i) for j in range(m)])

        def inv(i):
            r = 0
            for j in range(m):
                r = ite(num_bin("eq", f(j), i), j, r)
            return r
    else:
        H = c.fresh_fun("hit", core.I, core.B)
        V = c.fresh_fun("inv", core.I, core.I)
        f0 = k.snapshot()
        f = f0 if nn else (lambda j: wrap(f0(j), n))
        (v,) = c.binder(1)
        m = k.shape[0]
        c.side(c.quant([v], lambda x: simplies(
            in_range(SInt(x), m),
            sand(SBool(H(i_term(f(SInt(x))))), SBool(V(i_term(f(SInt(x)))) >= x)))))
        (u,) = c.binder(1)
        c.side(c.quant([u], lambda x: simplies(
            SBool(H(x)),
            sand(in_range(SInt(V(x)), m), num_bin("eq", f(SInt(V(x))), SInt(x)))), patterns=None))
        hit = lambda i: SBool(H(i_term(i)))
        inv = lambda i: mkint(V(i_term(i)))
    k.meta["invkey"] = key
    k.meta["inv"] = (hit, inv)
    return hit, inv


def setitem(a, key, val):
    from . import snp

    if is_sarr(key) and key.kind == "b" and key.ndim == a.ndim:
        m = key.snapshot()
        for x, y in zip(key.shape, a.shape):
            if not same_dim(x, y) and not dims_eq_or_fork(x, y):
                raise IndexError("boolean index did not match indexed array")
        if is_sarr(val) or isinstance(val, (np.ndarray, list)) and not is_sym(val):
            val = lift(val)
            if val.ndim == 0 or (val.ndim == 1 and not is_sym(val.shape[0]) and val.shape[0] == 1 and False):
                v0 = val.at()
                a.update(m, lambda *i: v0)
                return
            if val.ndim != 1:
                raise Unsupported("mask assignment of nd value")
            nz = snp.nonzero_info(key)
            vf = val.snapshot()
            if not same_dim(val.shape[0], nz.n):
                if not dims_eq_or_fork(val.shape[0], nz.n):
                    raise ValueError("NumPy boolean array indexing assignment mismatch")
            a.update(m, lambda *i: vf(nz.pos(*i)))
            return
        a.update(m, lambda *i: val)
        return
    keys = _expand_key(a, key)
    if not any(is_sarr(k) for k in keys):
        v = getitem_view(a, keys)
        if v is None:  # full integer index: single element
            idx = []
            ax = 0
            for k in keys:
                bound_ob(k, a.shape[ax], "index")
                idx.append(wrap(k, a.shape[ax]))
                ax += 1
            if is_sarr(val):
                val = val.item()
            a.update(lambda *i: sand(*[num_bin("eq", x, y) for x, y in zip(i, idx)]), lambda *i: val)
            return
        assign_view(v, val)
        return
    p = adv_plan(a, keys)
    vl = lift(val) if (is_sarr(val) or isinstance(val, (np.ndarray, list, tuple)) and not is_sym(val)) or _isslist(val) else None
    if vl is not None:
        vg = snp.broadcast_getter(strip_ones(vl, len(p.out_shape)), tuple(p.out_shape), check=True)
    else:
        vg = lambda *i: val
    # invert: which advanced arrays vary
    arrs = [(j, r) for j, r in enumerate(p.axmap) if r[0] == "arr"]
    # each advanced array must be usable on its own broadcast axis (np.ix_ style), or
    # all share one axis (zip style) with a single varying array
    nb = p.nb
    plan = []  # for each arr row: ('const', value) or ('ax', b-axis, hit, inv)
    varying = []
    for j, r in arrs:
        k = r[4]
        if k is None:
            plan.append((j, "const", r[1]()))
            continue
        dims = [d for d in range(k.ndim) if is_sym(k.shape[d]) or k.shape[d] != 1]
        off = nb - k.ndim
        if len(dims) == 0:
            plan.append((j, "const", r[1](*([0] * nb))))
            continue
        if len(dims) > 1:
            raise Unsupported("assignment with an nd index array")
        d = dims[0]
        k1 = k if k.ndim == 1 else (k.meta["ixsrc"] if "ixsrc" in k.meta else snp.take_axis_vector(k, d))
        k1.meta.update({q: v for q, v in k.meta.items() if q in ("nz", "perm")}) if k.ndim == 1 else None
        varying.append((j, off + d, k1, r))
    used = [v[1] for v in varying]
    if len(set(used)) != len(used):
        # zip-style: arrays from one nd nonzero, or generic pairwise -> joint inverse
        if len(set(used)) == 1 and len(varying) == len(arrs) or True:
            return _set_zip(a, p, plan, varying, vg)
    for j, bax, k1, r in varying:
        hit, inv = inverse_info(k1, r[2], r[3])
        plan.append((j, "ax", bax, hit, inv))

    nd = len(p.out_shape)

    def resolve(*b):
        idx = [0] * nd
        conds = []
        for ent in plan:
            if ent[1] == "const":
                conds.append(num_bin("eq", b[ent[0]], ent[2]))
            else:
                _, _, bax, hit, inv = ent
                conds.append(hit(b[ent[0]]))
                idx[p.bstart + bax] = inv(b[ent[0]])
        for j, r in enumerate(p.axmap):
            if r[0] == "sl":
                _, st, sp, oa, ln = r
                if not is_sym(sp) and sp == 1 and not is_sym(st) and st == 0:
                    idx[oa] = b[j]
                    conds.append(num_bin("lt", b[j], ln) if not (is_sym(ln) and is_sym(a.shape[j]) and ln.t.eq(a.shape[j].t)) and not (ln is a.shape[j]) else True)
                elif not is_sym(sp) and sp == 1:
                    idx[oa] = num_bin("sub", b[j], st)
                    conds.append(in_range(idx[oa], ln))
                else:
                    d = num_bin("sub", b[j], st)
                    conds.append(num_bin("eq", num_bin("mod", d, sp), 0))
                    idx[oa] = num_bin("floordiv", d, sp)
                    conds.append(in_range(idx[oa], ln))
        return sand(*conds), idx

    a.update(lambda *b: resolve(*b)[0], lambda *b: vg(*resolve(*b)[1]))


def _set_zip(a, p, plan, varying, vg):
    """a[ix1, ..., ix2] = v where several index arrays share one broadcast axis."""
    c = ctx()
    baxes = set(v[1] for v in varying)
    if len(baxes) != 1:
        raise Unsupported("mixed advanced assignment")
    bax = baxes.pop()
    m = p.bshape[bax]
    rows = [(j, (k1.snapshot() if r[3] else (lambda x, f=k1.snapshot(), n=r[2]: wrap(f(x), n)))) for j, _, k1, r in varying]
    nz = varying[0][2].meta.get("nz")
    if nz is not None and nz.dims == len(varying) and all(v[2].meta.get("nz") is nz for v in varying):
        order = {}
        for j, _, k1, r in varying:
            order[k1.meta["nzax"]] = j

        def hitinv(b):
            args = [b[order[q]] for q in range(nz.dims)]
            return nz.mask(*args), nz.pos(*args)
    elif not is_sym(m) and m <= 16:
        def hitinv(b):
            hit, inv = False, 0
            for q in range(m):
                e = sand(*[num_bin("eq", b[j], f(q)) for j, f in rows])
                hit = sor(hit, e)
                inv = ite(e, q, inv)
            return hit, inv
    else:
        ns = len(rows)
        H = c.fresh_fun("hitz", *([core.I] * ns), core.B)
        V = c.fresh_fun("invz", *([core.I] * ns), core.I)
        (v,) = c.binder(1)

        def ax1(x):
            ts = [i_term(f(SInt(x))) for _, f in rows]
            return simplies(in_range(SInt(x), m), sand(SBool(H(*ts)), SBool(V(*ts) >= x)))

        c.side(c.quant([v], ax1))
        us = c.binder(ns)

        def ax2(*xs):
            q = SInt(V(*xs))
            return simplies(SBool(H(*xs)), sand(in_range(q, m), *[num_bin("eq", f(q), SInt(x)) for (_, f), x in zip(rows, xs)]))

        c.side(c.quant(us, ax2))

        def hitinv(b):
            ts = [i_term(b[j]) for j, _ in rows]
            return SBool(H(*ts)), mkint(V(*ts))

    nd = len(p.out_shape)

    def resolve(*b):
        idx = [0] * nd
        h, q = hitinv(b)
        conds = [h]
        idx[p.bstart + bax] = q
        for ent in plan:
            conds.append(num_bin("eq", b[ent[0]], ent[2]))
        for j, r in enumerate(p.axmap):
            if r[0] == "sl":
                _, st, sp, oa, ln = r
                if not (not is_sym(sp) and sp == 1):
                    raise Unsupported("strided zip assignment")
                idx[oa] = num_bin("sub", b[j], st)
                conds.append(in_range(idx[oa], ln))
        return sand(*conds), idx

    a.update(lambda *b: resolve(*b)[0], lambda *b: vg(*resolve(*b)[1]))


def _isslist(v):
    from .sseq import SList

    return type(v) is SList


def strip_ones(v, nd):
    """numpy allows extra leading 1-dims in the assigned value."""
    while v.ndim > nd and not is_sym(v.shape[0]) and v.shape[0] == 1:
        v = v[0]
        if not is_sarr(v):
            v = lift(v)
    return v


def getitem_view(a, keys):
    if all(k is not None and not isinstance(k, slice) for k in keys):
        return None
    return getitem(a, tuple(keys))


def assign_view(v, val):
    from . import snp

    if is_sarr(val) or (isinstance(val, (np.ndarray, list, tuple)) and not is_sym(val)) or _isslist(val):
        vl = strip_ones(lift(val), v.ndim)
        g = snp.broadcast_getter(vl, v.shape, check=True)
        v.update(lambda *i: True, g)
    else:
        v.update(lambda *i: True, lambda *i: val)
