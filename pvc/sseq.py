"""Symbolic python sequences and sets (unbounded length)."""
from __future__ import annotations

import numpy as np
import z3

from .core import isinstance  # noqa: A004
from . import core
from .core import SBool, SInt, Sym, Unsupported, ctx, i_term, is_sym, kind_of, num_bin, tobool
from .sarr import SArr, in_range, lift, sand, simplies, sor


class SList(Sym):
    """A python list whose contents are a 1-D (or nd) symbolic array."""

    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr

    @property
    def __class__(self):
        return list

    def __getitem__(self, k):
        r = self.arr[k]
        return SList(r.copy()) if type(r) is SArr else r

    def __iter__(self):
        return iter(self.arr)

    def __contains__(self, x):
        return x in self.arr

    def __len__(self):
        return len(self.arr)

    def __eq__(self, o):
        from . import snp

        if type(o) is SList or isinstance(o, list):
            return snp.array_equal(self.arr, lift(o))
        return False

    def __ne__(self, o):
        return core.bnot(self.__eq__(o))

    def __add__(self, o):
        from . import snp

        return SList(snp.concatenate([self.arr, lift(o)]))

    def __bool__(self):
        return bool(num_bin("gt", self.arr.shape[0], 0))

    def index(self, x):
        from . import snp

        return snp.first_index(self.arr, x)

    def extend(self, o):
        from . import snp

        self.arr = snp.concatenate([self.arr, lift(o)])

    def append(self, o):
        from . import snp

        self.arr = snp.concatenate([self.arr, lift([o])])

    def __array__(self, *a, **k):
        raise Unsupported("symbolic list to native code")

    __array_ufunc__ = None
    __hash__ = None


class SSet(Sym):
    """A set of scalars given by its membership predicate and a finite carrier."""

    __slots__ = ("mem", "carriers", "kind")

    def __init__(self, mem, carriers, kind):
        self.mem, self.carriers, self.kind = mem, carriers, kind

    @property
    def __class__(self):
        return set

    def intersection(self, o):
        o = toset(o)
        return SSet(lambda x: sand(self.mem(x), o.mem(x)), [self.carriers[0]] if self.carriers else [], self.kind)

    def union(self, *os):
        r = self
        for o in os:
            o = toset(o)
            r = SSet((lambda a, b: lambda x: sor(a(x), b(x)))(r.mem, o.mem), r.carriers + o.carriers, r.kind if r.carriers else o.kind)
        return r

    def difference(self, o):
        o = toset(o)
        return SSet(lambda x: sand(self.mem(x), core.bnot(o.mem(x))), self.carriers, self.kind)

    __and__ = intersection
    __or__ = union
    __sub__ = difference

    def __contains__(self, x):
        return bool(self.mem(x))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set")

    def __bool__(self):
        return bool(num_bin("gt", self.to_array(True).shape[0], 0))

    def __len__(self):
        raise Unsupported("len of symbolic set by native code")

    __hash__ = None

    def issubset(self, o):
        o = toset(o)
        c = ctx()
        (v,) = c.binder(1)
        return SBool(c.quant([v], lambda x: simplies(self.mem(mk(x, self.kind)), o.mem(mk(x, self.kind)))))

    def __le__(self, o):
        return self.issubset(o)

    def to_array(self, is_sorted):
        """Distinct elements (ascending if is_sorted, else in unspecified order)."""
        c = ctx()
        if not self.carriers:
            return SArr((0,), self.kind, lambda *i: 0)
        if self.kind not in "if":
            raise Unsupported("set of non-numbers")
        sort = core.I if self.kind == "i" else core.R
        n = c.fresh("nset")
        W = c.fresh_fun("setel", core.I, sort)
        P = c.fresh_fun("setpos", sort, core.I)
        c.add(n >= 0)
        tot = 0
        for a in self.carriers:
            tot = num_bin("add", tot, a.shape[0])
        c.add(tobool(num_bin("le", SInt(n), tot)))
        (k,) = c.binder(1)
        c.side(c.quant([k], lambda x: simplies(in_range(SInt(x), SInt(n)), sand(self.mem(mk(W(x), self.kind)), SBool(P(W(x)) == x))), patterns=[W(k)]))
        if is_sorted:
            j, l = c.binder(2)
            c.side(c.quant([j, l], lambda x, y: simplies(sand(num_bin("le", 0, SInt(x)), num_bin("lt", SInt(x), SInt(y)), num_bin("lt", SInt(y), SInt(n))), SBool(W(x) < W(y))), patterns=[z3.MultiPattern(W(j), W(l))]))
        for a in self.carriers:
            f = a.snapshot()
            (v,) = c.binder(1)

            def body(x):
                e = f(SInt(x))
                t = e_term(e, self.kind)
                return simplies(sand(in_range(SInt(x), a.shape[0]), self.mem(e)), sand(SBool(P(t) >= 0), SBool(P(t) < n), SBool(W(P(t)) == t)))

            c.side(c.quant([v], body))
        kind = self.kind
        arr = SArr((SInt(n),), kind, lambda i: mk(W(i_term(i)), kind))
        arr.meta["distinct"] = True
        return arr


def mk(t, kind):
    if kind == "i":
        return core.mkint(t)
    if kind == "f":
        return core.mkreal(t)
    if kind == "b":
        return core.mkbool(t)
    if kind == "U":
        return core.SStr(t)
    raise Unsupported("mk " + kind)


def e_term(e, kind):
    if kind == "i":
        return i_term(e)
    if kind == "f":
        return core.r_term(e)
    if kind == "b":
        return tobool(e)
    if kind == "U":
        return core.s_term(e)
    raise Unsupported("term " + kind)


def toset(x):
    from . import snp

    if type(x) is SSet:
        return x
    if isinstance(x, (set, frozenset)) and not is_sym(x):
        x = list(x)
    a = lift(x) if not (isinstance(x, (list, tuple)) and len(x) == 0) else None
    if a is None:
        return SSet(lambda e: False, [], "i")
    return SSet(lambda e: snp.member(a, e), [a], a.kind)
