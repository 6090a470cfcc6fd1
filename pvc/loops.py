"""Loop contracts.

``@loop("pyuvdata/utils/x.py", "Class.func", ordinal)`` registers an invariant for the
ordinal-th ``for`` statement of a function of the real code.  In proof mode a loop with a
registered invariant over an iterable of unbounded length is checked the Hoare way, on the
statement as it stands in the source:

* entry path:  inv(0) is an obligation, then the path ends;
* step path:   the assigned variables are havocked, inv(k) is assumed for an arbitrary
               0 <= k < n, the real body runs once on element k, and inv(k+1) is an
               obligation, then the path ends (``break`` / ``return`` continue instead);
* exit path:   the assigned variables are havocked and inv(n) is assumed.

Loops without a registered invariant, and loops over a known number of elements, run as written.
"""
from __future__ import annotations

from . import core
from .core import PathAbort, SBool, SInt, Unsupported, is_sym, num_bin
from .sarr import in_range, is_sarr

LOOPS = {}
UNBOUND = object()


class Loop:
    def __init__(self, state, inv):
        self.state, self.inv = state, inv


def loop(path, qual, n, state=None):
    """Decorate inv(E, k, st, env): st = values of the variables the loop assigns, env = all locals at loop entry."""

    def deco(f):
        LOOPS[(path, qual, n)] = Loop(state, f)
        return f

    return deco


class NS(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise Unsupported(f"loop contract: the code has no variable {k!r} here")


class Elems:
    """What the loop iterates over: length n, element k."""

    def __init__(self, n, at):
        self.n, self.at = n, at


def elems(x):
    from .load import SRange
    from .sseq import SList, SSet

    if isinstance(x, Elems):
        return x
    if type(x) is SList:
        x = x.arr
    if type(x) is SSet:
        x = x.to_array(True)
    if is_sarr(x):
        return Elems(x.shape[0], (lambda k: x.at(k)) if x.ndim == 1 else (lambda k: x[k])) if is_sym(x.shape[0]) else None
    if type(x) is SRange:
        return Elems(x.n, lambda k: num_bin("add", x.start, num_bin("mul", k, x.step)))
    return None


def havoc(E, name, v):
    c = E.c
    if v is UNBOUND:
        return UNBOUND
    if isinstance(v, (bool,)) or type(v) is SBool:
        return SBool(c.fresh("h_" + name, core.B))
    if isinstance(v, int) or type(v) is SInt:
        return SInt(c.fresh("h_" + name, core.I))
    raise Unsupported(f"loop contract: no havoc for {name} ({type(v).__name__})")


class Active:
    def __init__(self, spec, el, names, env):
        self.spec, self.el = spec, el
        self.E = core.CTX.E
        E = self.E
        c = E.c
        self.env = NS(env)
        self.env["elems"] = el
        n = el.n
        init = NS({k: env[k] for k in names if k in env})
        self.kind = ("entry", "step", "exit")[c.choose(3, "loop")]
        if self.kind == "entry":
            E.ensure("loop invariant on entry", spec.inv(E, 0, init, self.env))
            raise PathAbort("loop entry checked")
        self.k = SInt(c.fresh("it")) if self.kind == "step" else n
        if self.kind == "step":
            c.add(core.tobool(in_range(self.k, n)))
        c.add(core.tobool(num_bin("ge", n, 0)))
        st = NS({k: UNBOUND for k in names})
        if spec.state is not None:
            given = spec.state(E, self.k, init, self.env)
            st.update(given)
        else:
            given = {}
        for k in init:
            if k not in given:
                st[k] = havoc(E, k, init[k])
        self.st = st
        E.assume(spec.inv(E, self.k, st, self.env))

    def value(self, name):
        return self.st[name]

    def has(self, name):
        return self.st.get(name, UNBOUND) is not UNBOUND

    def once(self):
        return [self.el.at(self.k)] if self.kind == "step" else []

    def after(self):
        """exit path of a non-empty loop: the target keeps the last element."""
        if self.kind != "exit":
            return []
        if self.has_last():
            return [self.el.at(num_bin("sub", self.el.n, 1))]
        return []

    def has_last(self):
        return bool(num_bin("gt", self.el.n, 0))

    def close(self, env):
        if self.kind == "exit":
            return
        E = self.E
        st = NS({k: env[k] for k in self.st if k in env})
        E.ensure("loop invariant preserved", self.spec.inv(E, num_bin("add", self.k, 1), st, self.env))
        raise PathAbort("loop step checked")


def begin(it, key, names, env):
    """-> Active when this loop is handled by contract, else None."""
    spec = LOOPS.get(key)
    if spec is None or core.CTX is None:
        return None
    el = elems(it)
    if el is None or not is_sym(el.n):
        return None
    from .load import _fix

    if not is_sym(_fix(el.n)):
        return None
    return Active(spec, el, names, env)


def fresh_list(E, n, kind="b"):
    """An arbitrary Python list of n scalars (state of a loop that appends)."""
    from .sarr import SArr
    from .sseq import SList

    sort, wrap = {"b": (core.B, SBool), "i": (core.I, SInt), "f": (core.R, core.SReal)}[kind]
    f = E.c.fresh_fun("lst", core.I, sort)
    return SList(SArr((n,), kind, lambda i: wrap(f(core.i_term(i)))))
