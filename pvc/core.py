"""Engine core: symbolic scalars, path exploration, obligation discharge.

A *harness* (contract) is a Python function ``h(E)`` that builds the inputs of a
real /repo function, states its precondition with ``E.assume``, calls the real
function, and states its postcondition with ``E.ensure``.  In proof mode the
inputs are symbolic (z3 terms; arrays are functions from unbounded index tuples
to terms) and CPython itself executes the function's own source text on those
proxies.  Every data dependent branch is explored (re-execution with a decision
prefix), every ``E.ensure`` yields one obligation per path, and an obligation
is discharged only when a back end returns unsat for its negation.
"""
from __future__ import annotations

import itertools
import subprocess
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("model.partial", False)


def isinstance(x, t):  # noqa: A001 - structural type only: proxies fake __class__
    return issubclass(type(x), t)



class Unsupported(Exception):
    """The real code left the subset the verifier understands."""


class PathAbort(BaseException):
    """The current path is infeasible / ended by the engine."""


class LoopPathEnd(BaseException):
    pass


CTX = None  # the active Ctx


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a harness")
    return CTX


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base class of symbolic scalars."""

    __array_priority__ = 1000
    __slots__ = ()

    def __hash__(self):
        c = CTX
        if c is not None and c.allow_hash:
            return 0
        raise Unsupported("hash of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    # numpy scalars interplay: np.float64(3) * SReal -> let us handle
    __array_ufunc__ = None


def _num(x):
    """Normalise a concrete number to python int / Fraction / complex pieces."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return x


def rv(x):
    """Concrete real -> z3 RealVal."""
    if isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant")
    return z3.RealVal(Fraction(f))


def simp(t):
    return z3.simplify(t)


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return np.bool_

    def __bool__(self):
        return ctx().decide(self.t)

    # logical / bitwise
    def _b(self, o):
        return tobool(o)

    def __and__(self, o):
        from .sarr import SArr

        if type(o) is SArr or isinstance(o, np.ndarray):
            return NotImplemented if type(o) is SArr else _arr_defer(o, self, "and")
        return mkbool(z3.And(self.t, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        from .sarr import SArr

        if type(o) is SArr:
            return NotImplemented
        return mkbool(z3.Or(self.t, tobool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, tobool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if type(o) in (SInt, SReal):
            return num_bin("eq", self, o)
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, (bool, np.bool_)) or type(o) is SBool:
            return mkbool(self.t == tobool(o))
        return num_bin("eq", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    __hash__ = Sym.__hash__

    def _i(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        if isinstance(o, (bool, np.bool_)) or type(o) is SBool:
            # numpy bool + bool is logical or
            return mkbool(z3.Or(self.t, tobool(o)))
        return num_bin("add", self._i(), o)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (bool, np.bool_)) or type(o) is SBool:
            return mkbool(z3.And(self.t, tobool(o)))
        return num_bin("mul", self._i(), o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return num_bin("sub", self._i(), o)

    def __rsub__(self, o):
        return num_bin("sub", o, self._i())

    @property
    def dtype(self):
        return np.dtype(bool)

    def any(self):
        return self

    def all(self):
        return self

    def astype(self, dt):
        return cast_scalar(self, np.dtype(dt).kind)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"SBool({self.t})"


def _arr_defer(o, s, name):
    raise Unsupported("ndarray op SBool")


def mkbool(t):
    t = simp(t) if not isinstance(t, bool) else t
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def tobool(x):
    """-> z3 Bool term."""
    if type(x) is SBool:
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if type(x) is SInt:
        return x.t != 0
    if type(x) is SReal:
        return x.t != 0
    if type(x) is SCplx:
        return z3.Or(r_term(x.re) != 0, r_term(x.im) != 0)
    if isinstance(x, (int, float, np.number)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"truth of {type(x)}")


def bnot(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    return mkbool(z3.Not(tobool(x)))


class _SNum(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t != 0)

    def __add__(self, o):
        return num_bin("add", self, o)

    def __radd__(self, o):
        return num_bin("add", o, self)

    def __sub__(self, o):
        return num_bin("sub", self, o)

    def __rsub__(self, o):
        return num_bin("sub", o, self)

    def __mul__(self, o):
        if type(o) in (list, tuple):
            return _list_rep(o, self)
        return num_bin("mul", self, o)

    def __rmul__(self, o):
        if type(o) in (list, tuple):
            return _list_rep(o, self)
        return num_bin("mul", o, self)

    def __truediv__(self, o):
        return num_bin("div", self, o)

    def __rtruediv__(self, o):
        return num_bin("div", o, self)

    def __floordiv__(self, o):
        return num_bin("floordiv", self, o)

    def __rfloordiv__(self, o):
        return num_bin("floordiv", o, self)

    def __mod__(self, o):
        return num_bin("mod", self, o)

    def __rmod__(self, o):
        return num_bin("mod", o, self)

    def __pow__(self, o):
        return num_bin("pow", self, o)

    def __rpow__(self, o):
        return num_bin("pow", o, self)

    def __neg__(self):
        return type(self)(simp(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.t >= 0, self.t, -self.t))

    def __lt__(self, o):
        return num_bin("lt", self, o)

    def __le__(self, o):
        return num_bin("le", self, o)

    def __gt__(self, o):
        return num_bin("gt", self, o)

    def __ge__(self, o):
        return num_bin("ge", self, o)

    def __eq__(self, o):
        return num_bin("eq", self, o)

    def __ne__(self, o):
        return num_bin("ne", self, o)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        from .sarr import SArr

        if type(o) is SArr:
            return NotImplemented
        raise Unsupported("bitwise on numbers")

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self, *a):
        return self

    def astype(self, dt):
        return cast_scalar(self, np.dtype(dt).kind)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"


def _list_rep(lst, n):
    from . import snp
    from .sseq import SList

    if len(lst) != 1:
        raise Unsupported("repetition of a long list a symbolic number of times")
    return SList(snp.full((n,), lst[0]))


class SInt(_SNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    @property
    def dtype(self):
        return np.dtype(np.int64)

    def __index__(self):
        raise Unsupported("symbolic int used as a concrete index")

    def __int__(self):
        raise Unsupported("int() of a symbolic int by library code")

    def bit_length(self):
        raise Unsupported("bit_length")


class SReal(_SNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    @property
    def dtype(self):
        return np.dtype(np.float64)

    def __float__(self):
        raise Unsupported("float() of a symbolic real by library code")


class SNpScalar(Sym):
    """A symbolic value as a numpy scalar of a definite type (result of ``arr.dtype.type(x)``): only its type is known."""

    __slots__ = ("tp", "v")

    def __init__(self, tp, v):
        self.tp, self.v = tp, v

    @property
    def __class__(self):
        return self.tp


class SStr(Sym):
    """Opaque string: only equality is known."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is SStr:
            return mkbool(self.t == o.t)
        if isinstance(o, str):
            return mkbool(self.t == ctx().strcode(o))
        return False

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __deepcopy__(self, memo):
        return self


class SCplx(Sym):
    """re, im are SReal or concrete reals."""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def __class__(self):
        return complex

    @property
    def dtype(self):
        return np.dtype(np.complex128)

    def __add__(self, o):
        return num_bin("add", self, o)

    def __radd__(self, o):
        return num_bin("add", o, self)

    def __sub__(self, o):
        return num_bin("sub", self, o)

    def __rsub__(self, o):
        return num_bin("sub", o, self)

    def __mul__(self, o):
        return num_bin("mul", self, o)

    def __rmul__(self, o):
        return num_bin("mul", o, self)

    def __truediv__(self, o):
        return num_bin("div", self, o)

    def __rtruediv__(self, o):
        return num_bin("div", o, self)

    def __pow__(self, o):
        return num_bin("pow", self, o)

    def __neg__(self):
        return SCplx(-self.re, -self.im)

    def __eq__(self, o):
        return num_bin("eq", self, o)

    def __ne__(self, o):
        return num_bin("ne", self, o)

    __hash__ = Sym.__hash__

    def __abs__(self):
        if CTX is not None and CTX.opaque:
            return mkreal(z3.Function("cabs", *[z3.RealSort()] * 3)(r_term(self.re), r_term(self.im)))
        return ssqrt(num_bin("add", self.re * self.re, self.im * self.im))

    def __bool__(self):
        return ctx().decide(tobool(self))

    def conj(self):
        return SCplx(self.re, -self.im)

    conjugate = conj

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SCplx({self.re},{self.im})"


def kind_of(x):
    t = type(x)
    if t is SBool or isinstance(x, (bool, np.bool_)):
        return "b"
    if t is SInt:
        return "i"
    if t is SReal:
        return "f"
    if t is SCplx:
        return "c"
    if t is SStr:
        return "U"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating, Fraction)):
        return "f"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    if isinstance(x, (str, np.str_)):
        return "U"
    if x is None:
        return "O"
    raise Unsupported(f"element of type {t}")


_RANK = {"b": 0, "i": 1, "u": 1, "f": 2, "c": 3}


def join_kind(*ks):
    ks = ["i" if k == "u" else k for k in ks]
    if all(k == ks[0] for k in ks):
        return ks[0]
    if any(k not in _RANK for k in ks):
        raise Unsupported(f"mixed kinds {ks}")
    return max(ks, key=lambda k: _RANK[k])


def i_term(x):
    if type(x) is SInt:
        return x.t
    if type(x) is SBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"int term of {type(x)}")


def r_term(x):
    if type(x) is SReal:
        return x.t
    if type(x) is SInt:
        return z3.ToReal(x.t)
    if type(x) is SBool:
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if z3.is_expr(x):
        return x
    return rv(x)


def c_parts(x):
    if type(x) is SCplx:
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    return x, 0


def mkint(t):
    if isinstance(t, (int, np.integer)):
        return int(t)
    t = simp(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkreal(t):
    t = simp(t)
    if z3.is_rational_value(t):
        fr = Fraction(t.numerator_as_long(), t.denominator_as_long())
        f = float(fr)
        if Fraction(f) == fr:
            return f
    return SReal(t)


def _is_zero(x):
    return (not is_sym(x)) and x == 0


def opaque_cplx(op, a, b):
    """Complex product / quotient as uninterpreted functions (sound: whatever is proved holds for every function,
    in particular the real one)"""
    x = [r_term(v) for v in a]
    y = [r_term(v) for v in b]
    fr, fi = cplx_fun(op)
    return SCplx(mkreal(fr(*x, *y)), mkreal(fi(*x, *y)))


def cplx_fun(op):
    return tuple(z3.Function(f"c{op}_{p}", *[z3.RealSort()] * 5) for p in ("re", "im"))


def cplx_axioms():
    x, y = z3.Reals("cx cy")
    one, zero = z3.RealVal(1), z3.RealVal(0)
    out = []
    for op in ("mul", "div"):
        fr, fi = cplx_fun(op)
        for args in ([(x, y, one, zero)] + ([(one, zero, x, y)] if op == "mul" else [])):
            out.append(z3.ForAll([x, y], z3.And(fr(*args) == x, fi(*args) == y), patterns=[fr(*args), fi(*args)]))
    p, q = z3.Reals("cp cq")
    fr, fi = cplx_fun("mul")
    out.append(z3.ForAll([x, y, p, q], z3.And(fr(x, y, p, q) == fr(p, q, x, y), fi(x, y, p, q) == fi(p, q, x, y)), patterns=[fr(x, y, p, q), fi(x, y, p, q)]))
    return out


def num_bin(op, a, b):
    """numpy/python scalar arithmetic on symbolic or concrete numbers."""
    from .sarr import SArr

    for x in (a, b):
        if type(x) is SArr or (isinstance(x, np.ndarray) and x.ndim > 0 and not is_sym(x)):
            # let array code handle it
            from . import snp

            return snp.elementwise(op, a, b)
    if isinstance(a, np.ndarray) and not is_sym(a):
        a = a.item()
    if isinstance(b, np.ndarray) and not is_sym(b):
        b = b.item()
    if a is None or b is None or isinstance(a, str) and type(a) is not SStr or isinstance(b, str) and type(b) is not SStr:
        if op == "eq":
            if type(a) is SStr or type(b) is SStr:
                return (a == b) if type(a) is SStr else (b == a)
            return False
        if op == "ne":
            return bnot(num_bin("eq", a, b))
        raise TypeError(f"unsupported operand for {op}: {type(a)} {type(b)}")
    if type(a) is SStr or type(b) is SStr:
        if op == "eq":
            return SStr.__eq__(a, b)
        if op == "ne":
            return bnot(SStr.__eq__(a, b))
        raise Unsupported("string op")
    try:
        ka, kb = kind_of(a), kind_of(b)
    except Unsupported:
        if op in ("eq", "ne"):
            return op == "ne"
        # objects with reflected operators (astropy units etc.)
        return NotImplemented
    k = join_kind(ka, kb)
    if not is_sym(a) and not is_sym(b):
        return _conc(op, a, b)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        if k == "c":
            ar, ai = c_parts(a)
            br, bi = c_parts(b)
            e = z3.And(r_term(ar) == r_term(br), r_term(ai) == r_term(bi))
            if op == "eq":
                return mkbool(e)
            if op == "ne":
                return mkbool(z3.Not(e))
            raise Unsupported("complex order")
        if k == "b" and op in ("eq", "ne"):
            e = tobool(a) == tobool(b)
            return mkbool(e if op == "eq" else z3.Not(e))
        if not is_sym(a) or not is_sym(b):
            cst, left = (a, True) if not is_sym(a) else (b, False)
            if isinstance(cst, (float, np.floating)) and not np.isfinite(cst):
                # comparison of a finite symbolic number with inf/nan
                v = 0.0
                return bool(_conc(op, cst, v) if left else _conc(op, v, cst))
        x, y = (i_term(a), i_term(b)) if k in "bi" else (r_term(a), r_term(b))
        r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
        return mkbool(r)
    if k == "b":
        if op == "add":
            return mkbool(z3.Or(tobool(a), tobool(b)))
        if op == "mul":
            return mkbool(z3.And(tobool(a), tobool(b)))
        a = SInt(i_term(a)) if is_sym(a) else int(a)
        b = SInt(i_term(b)) if is_sym(b) else int(b)
        k = "i"
    if op == "pow":
        if is_sym(b):
            raise Unsupported("symbolic exponent")
        if kind_of(b) == "f" and float(b).is_integer():
            n = int(b)
            if kind_of(a) == "i":
                a = SReal(r_term(a))
        elif kind_of(b) == "f" and float(b) == 0.5:
            return ssqrt(a)
        elif kind_of(b) == "i":
            n = int(b)
        else:
            raise Unsupported("non-integer power")
        if n < 0:
            return num_bin("div", 1.0, num_bin("pow", a, -n))
        r = 1 if k == "i" else 1.0
        if n == 0:
            return r
        r = a
        for _ in range(n - 1):
            r = num_bin("mul", r, a)
        return r
    if k == "c":
        ar, ai = c_parts(a)
        br, bi = c_parts(b)
        A = num_bin
        if CTX is not None and CTX.opaque and op in ("mul", "div") and ka == kb == "c" and is_sym(a) and is_sym(b):
            return opaque_cplx(op, (ar, ai), (br, bi))
        if op == "add":
            return SCplx(A("add", ar, br), A("add", ai, bi))
        if op == "sub":
            return SCplx(A("sub", ar, br), A("sub", ai, bi))
        if op == "mul":
            if ka != "c":
                return SCplx(A("mul", a, br), A("mul", a, bi))
            if kb != "c":
                return SCplx(A("mul", ar, b), A("mul", ai, b))
            if _is_zero(ar):  # pure imaginary constants such as 1j
                return SCplx(-A("mul", ai, bi), A("mul", ai, br))
            return SCplx(
                A("sub", A("mul", ar, br), A("mul", ai, bi)),
                A("add", A("mul", ar, bi), A("mul", ai, br)),
            )
        if op == "div":
            if kb != "c":
                return SCplx(A("div", ar, b), A("div", ai, b))
            den = A("add", A("mul", br, br), A("mul", bi, bi))
            n = num_bin("mul", SCplx(ar, ai), SCplx(br, -bi))
            return SCplx(A("div", n.re, den), A("div", n.im, den))
        raise Unsupported(f"complex {op}")
    if k == "i":
        if op in ("add", "sub", "mul"):
            x, y = i_term(a), i_term(b)
            return mkint({"add": x + y, "sub": x - y, "mul": x * y}[op] if op != "mul" else x * y)
        if op in ("floordiv", "mod"):
            x, y = i_term(a), i_term(b)
            # python/numpy floor semantics; z3 div/mod is euclidean: same for y > 0
            if not ctx().must(y > 0):
                if ctx().must(y < 0):
                    q = -(x / (-y))  # ceil(x/|y|)*-1 -> floor for negative divisor
                    q = z3.If(x % (-y) == 0, -(x / (-y)), -(x / (-y)) - 1)
                    return mkint(q) if op == "floordiv" else mkint(x - q * y)
                raise Unsupported("division by possibly non-positive symbolic int")
            return mkint(x / y if op == "floordiv" else x % y)
        if op == "div":
            return mkreal(z3.ToReal(i_term(a)) / z3.ToReal(i_term(b)))
    if k == "f":
        x, y = r_term(a), r_term(b)
        if op == "add":
            if _is_zero(a):
                return b if type(b) is SReal else mkreal(y)
            if _is_zero(b):
                return a if type(a) is SReal else mkreal(x)
            return mkreal(x + y)
        if op == "sub":
            return mkreal(x - y)
        if op == "mul":
            return mkreal(x * y)
        if op == "div":
            return mkreal(x / y)
        if op == "mod":
            if not is_sym(b) and b > 0:
                # x mod y in [0, y) with an integer quotient
                q = ctx().fresh_int_of("fmodq", x)
                r = x - z3.ToReal(q) * y
                ctx().side(z3.And(r >= 0, r < y))
                return SReal(r)
            raise Unsupported("float mod")
        if op == "floordiv":
            q = ctx().fresh_int_of("fdivq", x / y)
            ctx().side(z3.And(z3.ToReal(q) <= x / y, x / y < z3.ToReal(q) + 1))
            return mkreal(z3.ToReal(q))
    raise Unsupported(f"op {op} on kind {k}")


def _conc(op, a, b):
    import operator as o

    f = {
        "add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "floordiv": o.floordiv,
        "mod": o.mod, "pow": o.pow, "lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge,
        "eq": o.eq, "ne": o.ne,
    }[op]
    if op == "div":
        if isinstance(b, (int, float)) and b == 0:
            raise Unsupported("division by literal zero")
    return f(a, b)


def ite(c, a, b):
    """Polymorphic if-then-else on scalars."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ct = tobool(c)
    s = simp(ct)
    if z3.is_true(s):
        return a
    if z3.is_false(s):
        return b
    if a is b:
        return a
    ka, kb = kind_of(a), kind_of(b)
    k = join_kind(ka, kb)
    if k == "b":
        return mkbool(z3.If(ct, tobool(a), tobool(b)))
    if k == "i":
        return mkint(z3.If(ct, i_term(a), i_term(b)))
    if k == "f":
        return mkreal(z3.If(ct, r_term(a), r_term(b)))
    if k == "c":
        ar, ai = c_parts(a)
        br, bi = c_parts(b)
        return SCplx(ite(c, ar, br), ite(c, ai, bi))
    if k == "U":
        return SStr(z3.If(ct, s_term(a), s_term(b)))
    raise Unsupported("ite kind " + k)


def s_term(x):
    if type(x) is SStr:
        return x.t
    return ctx().strcode(str(x))


def cast_scalar(x, kind):
    k = kind_of(x)
    if kind == "u":
        kind = "i"
    if k == kind or kind == "O":
        return x
    if not is_sym(x):
        if kind == "b":
            return bool(x)
        if kind == "i":
            return int(x)
        if kind == "f":
            return float(x)
        if kind == "c":
            return complex(x)
        return x
    if kind == "b":
        return mkbool(tobool(x))
    if kind == "i":
        if k == "b":
            return SInt(i_term(x))
        if k == "f":  # C truncation
            t = r_term(x)
            return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if kind == "f":
        if k in "bi":
            return SReal(r_term(x))
        if k == "c":
            return x.re
    if kind == "c":
        return SCplx(cast_scalar(x, "f"), 0.0)
    raise Unsupported(f"cast {k}->{kind}")


_F = {}


def ufun(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _F:
        _F[key] = z3.Function(name, *sorts)
    return _F[key]


R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def ssqrt(x):
    if not is_sym(x):
        return float(np.sqrt(x))
    if kind_of(x) == "c":
        raise Unsupported("complex sqrt")
    t = simp(r_term(x))
    f = ufun("sqrt!", R, R)(t)
    ctx().side(z3.Implies(t >= 0, z3.And(f >= 0, f * f == t)))
    return SReal(f)


def _round_coeffs(t):
    """Rounding of constants in an angle (2*pi/c computed in one or two steps) is ignored: 12 significant digits."""
    def q(v):
        f = v.as_fraction()
        if f == 0 or f.denominator < 10**6 and f.numerator < 10**9:
            return v
        from fractions import Fraction

        return z3.RealVal(Fraction("%.11e" % float(f)))

    def mono(a):
        if z3.is_app_of(a, z3.Z3_OP_MUL) and z3.is_rational_value(a.arg(0)):
            r = q(a.arg(0))
            for x in a.children()[1:]:
                r = r * x
            return r
        return a

    if z3.is_app_of(t, z3.Z3_OP_ADD):
        return simp(z3.Sum([mono(a) for a in t.children()]))
    return simp(mono(t))


def _lead_negative(t):
    """Sign of a sum's coefficient of its smallest monomial (a canonical choice between t and -t)."""
    best = None
    for a in t.children():
        neg = False
        if z3.is_app_of(a, z3.Z3_OP_MUL) and z3.is_rational_value(a.arg(0)):
            neg = a.arg(0).as_fraction() < 0
            a = z3.simplify(a * z3.RealVal(1 / a.arg(0).as_fraction()))
        elif z3.is_rational_value(a):
            continue
        k = a.sexpr()
        if best is None or k < best[0]:
            best = (k, neg)
    return best is not None and best[1]


def strig(name, x):
    if not is_sym(x):
        return float(getattr(np, name)(x))
    t = _round_coeffs(z3.simplify(r_term(x), som=True))
    sg = 1
    if z3.is_app_of(t, z3.Z3_OP_MUL) and z3.is_rational_value(t.arg(0)) and t.arg(0).as_fraction() < 0:
        t, sg = simp(-t), -1  # sin(-t) = -sin(t), cos(-t) = cos(t)
    elif z3.is_app_of(t, z3.Z3_OP_ADD) and _lead_negative(t):
        t, sg = simp(-t), -1
    s = ufun("sin!", R, R)(t)
    c = ufun("cos!", R, R)(t)
    ctx().side(s * s + c * c == 1)
    ctx().side(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
    return SReal(c if name == "cos" else (s if sg > 0 else -s))


def satan2(y, x):
    """atan2 contract: r*sin(a)=y, r*cos(a)=x with r=sqrt(x^2+y^2), -pi<=a<=pi."""
    if not is_sym(x) and not is_sym(y):
        return float(np.arctan2(y, x))
    ty, tx = simp(r_term(y)), simp(r_term(x))
    a = ufun("atan2!", R, R, R)(ty, tx)
    r = ssqrt(num_bin("add", num_bin("mul", x, x), num_bin("mul", y, y)))
    rt = r_term(r)
    s, c = r_term(strig("sin", SReal(a))), r_term(strig("cos", SReal(a)))
    ctx().side(z3.And(rt * s == ty, rt * c == tx))
    return SReal(a)


def suf(name, x, lo=None, hi=None):
    """Uninterpreted real function (log, tan, ...)."""
    if not is_sym(x):
        return float(getattr(np, name)(x))
    return SReal(ufun(name + "!", R, R)(simp(r_term(x))))


def sexp(x):
    if not is_sym(x):
        return np.exp(x)
    if kind_of(x) == "c":
        re, im = x.re, x.im
        c, s = strig("cos", im), strig("sin", im)
        if _is_zero(re):
            return SCplx(c, s)
        m = suf("exp", re)
        return SCplx(num_bin("mul", m, c), num_bin("mul", m, s))
    f = suf("exp", x)
    ctx().side(f.t > 0)
    return f


# --------------------------------------------------------------------------
# context: one symbolic execution of one path
# --------------------------------------------------------------------------


class Obligation:
    def __init__(self, name, goal, hyps, path, status, backend, secs, note=""):
        self.name, self.goal, self.hyps, self.path = name, goal, hyps, path
        self.status, self.backend, self.secs, self.note = status, backend, secs, note


class Ctx:
    """State of one path of one harness."""

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = list(prefix)
        self.trace = []  # [(choice, forced)]
        self.cuts = []  # positions in hyps from which assumptions of proved lemmas start
        self.hyps = []  # z3 formulas: preconditions, branch conditions, callee facts
        self.pending_side = []  # stack of lists when evaluating under a binder
        self.open = []  # [(ids of the bound variables, value of the symbol counter)] of the binders being built
        self.allow_hash = False
        self.counter = itertools.count()
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.inputs = []
        self.obls = []
        self._side_seen = set()
        self._cache = {}
        self.loop_rules = {}
        self.strs = run.strs
        self.bounded = False
        self.notes = set()
        self.sums = []
        self.in_goal = 0
        self._cache_epoch = 0
        self.opaque = False
        self.stubs = set()

    # --- binders ---------------------------------------------------------
    def enter(self, vs):
        self.pending_side.append([])
        self.open.append(({v.get_id() for v in vs}, next(self.counter)))

    def leave(self):
        self.open.pop()
        return self.pending_side.pop()

    def _scope(self, f, top):
        """A fact mentioning an open bound variable must not constrain a symbol that does not depend on it."""
        ids, nums = _symbols(f)
        for bound, start in self.open:
            if bound & ids and (top or any(k > start for k, i in nums if not any(i in b for b, _ in self.open))):
                raise Unsupported("symbol defined under a binder")

    # --- facts -----------------------------------------------------------
    def add(self, f):
        if z3.is_true(f):
            return
        if self.open:
            self._scope(f, True)
        self.hyps.append(f)
        self.solver.add(f)

    def side(self, f):
        """A fact about a term just built (axiom instance)."""
        f = simp(f)
        if z3.is_true(f):
            return
        if self.pending_side:
            self._scope(f, False)
            self.pending_side[-1].append(f)
            return
        key = f.get_id()
        if key in self._side_seen:
            return
        self._side_seen.add(key)
        self.add(f)
        self._cache.setdefault("keep", []).append(f)

    def fresh(self, name, sort=I):
        return z3.Const(f"{name}!{next(self.counter)}", sort)

    def fresh_fun(self, name, *sorts):
        return z3.Function(f"{name}!{next(self.counter)}", *sorts)

    def fresh_int_of(self, name, term):
        """An integer determined by a term (same term, same integer)."""
        return ufun(name + "!", R, I)(simp(term))

    def strcode(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs)
        return z3.IntVal(-1 - self.strs[s])

    def binder(self, n, name="k"):
        return [self.fresh(f"{name}", I) for _ in range(n)]

    def quant(self, vs, build, patterns=None):
        """forall vs. build(vs) including the side facts build generates."""
        self.enter(vs)
        try:
            body = build(*vs)
        finally:
            side = self.leave()
        body = tobool(body)
        ids = {v.get_id() for v in vs}
        inner = []
        for f in side:
            if _mentions(f, ids):
                inner.append(f)
            else:
                self.side(f)
        if inner:
            body = z3.And(*inner, body)
        kw = {}
        if patterns:
            kw["patterns"] = patterns
        try:
            return z3.ForAll(list(vs), body, **kw)
        except z3.Z3Exception:  # a pattern z3 does not accept: triggers are only hints
            return z3.ForAll(list(vs), body)

    def exists(self, vs, build):
        self.enter(vs)
        try:
            body = tobool(build(*vs))
        finally:
            side = self.leave()
        ids = {v.get_id() for v in vs}
        inner = []
        for f in side:
            if _mentions(f, ids):
                inner.append(f)
            else:
                self.side(f)
        # side facts are valid for every value: state them separately
        for f in inner:
            self.side(z3.ForAll(list(vs), f))
        return z3.Exists(list(vs), body)

    # --- queries ----------------------------------------------------------
    def must(self, t):
        """Is t implied by the current hypotheses (quick)?"""
        t = simp(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = ("must", t.get_id(), len(self.hyps), self._cache_epoch)
        if key in self._cache:
            return self._cache[key][0]
        t0 = time.time()
        self.solver.push()
        self.solver.add(z3.Not(t))
        r = self.solver.check()
        self.solver.pop()
        self.run.query_s += time.time() - t0
        self.run.queries += 1
        self._cache[key] = (r == z3.unsat, t)
        return r == z3.unsat

    def decide(self, t):
        """Fork on a condition."""
        t = simp(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pending_side:
            raise Unsupported("branch on a bound variable")
        if self.in_goal:
            if self.must(t):
                return True
            if self.must(z3.Not(t)):
                return False
            raise Unsupported("branch inside a postcondition")
        i = len(self.trace)
        if i < len(self.prefix):
            ch = self.prefix[i]
            self.trace.append(ch)
            self.add(t if ch else z3.Not(t))
            return ch
        can_t = not self.must(z3.Not(t))
        can_f = not self.must(t)
        if not can_t and not can_f:
            raise PathAbort("infeasible")
        if can_t and can_f:
            self.run.push(self.trace + [False])
            if len(self.trace) > self.run.max_depth:
                raise Unsupported("path too deep")
        ch = can_t
        self.trace.append(ch)
        self.add(t if ch else z3.Not(t))
        return ch

    def local(self, facts):
        """Temporarily assume facts while building a goal (no forks inside)."""
        import contextlib

        @contextlib.contextmanager
        def cm():
            n0 = len(self.hyps)
            self.solver.push()
            for f in facts:
                self.solver.add(f)
            self.in_goal += 1
            self._cache_epoch += 1
            try:
                yield
            finally:
                self.in_goal -= 1
                self._cache_epoch += 1
                self.solver.pop()
                for f in self.hyps[n0:]:
                    self.solver.add(f)

        return cm()

    def choose(self, n, what=""):
        """Non-deterministic choice in range(n) encoded as binary decisions."""
        for j in range(n - 1):
            i = len(self.trace)
            if i < len(self.prefix):
                ch = self.prefix[i]
            else:
                self.run.push(self.trace + [False])
                ch = True
            self.trace.append(ch)
            if ch:
                return j
        return n - 1


def _mentions(f, ids, _seen=None):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


_SYM = {}


def _symbols(f):
    """(ids of the free constants, {(number, id)} of the numbered fresh symbols) occurring in f."""
    k = f.get_id()
    if k in _SYM and _SYM[k][0].eq(f):
        return _SYM[k][1]
    seen, ids, nums = set(), set(), set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        ch = x.children()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                ids.add(i)
            n = x.decl().name().rpartition("!")[2]
            if n.isdigit():
                nums.add((int(n), i))
        st.extend(ch)
    if len(_SYM) > 20000:
        _SYM.clear()
    _SYM[k] = (f, (ids, nums))
    return ids, nums
