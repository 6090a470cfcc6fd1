"""Load the *current* /repo source for proof mode.

The text of every pyuvdata module is parsed from /repo/src on every run and
compiled with these mechanical, meaning-preserving substitutions (this is
everything the extraction changes; nothing is dropped):

* calls of the builtins in BUILTINS go through a shim that behaves like the
  builtin unless an argument is symbolic;
* the iterables of ``for`` statements and comprehensions go through ``__pv_iter__``;
* a ``for`` statement of a function listed in pvc.loops.LOOPS is duplicated: the copy is used when
  its iterable has unbounded length and runs the same body once between the invariant checks
  described in pvc/loops.py; the original is used otherwise;
* ``a in b`` / ``a not in b`` go through ``__pv_in__``;
* the module global ``np`` is bound to a proxy of numpy (calls with a symbolic
  argument are answered by pvc.snp), and ``np.<type>(x)`` calls go through
  ``__pv_npcall__``.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

import numpy as np

from .core import isinstance  # noqa: A004
from . import core, snp
from .core import SBool, SCplx, SInt, SReal, SStr, Sym, Unsupported, is_sym, ite, num_bin
from .sarr import SArr, is_sarr, lift
from .sseq import SList, SSet, toset

SRC = os.environ.get("PVC_SRC", "/repo/src")

BUILTINS = {
    "len", "range", "int", "float", "abs", "max", "min", "sum", "any", "all", "sorted", "set",
    "list", "tuple", "enumerate", "zip", "bool", "round", "complex", "type", "divmod", "reversed",
    "isinstance", "str", "map", "filter", "iter", "next", "hash", "dict", "frozenset", "slice",
}
SHIMMED = set()
B = {}


def shim(f):
    name = f.__name__.strip("_")
    B[name] = f
    SHIMMED.add(name)
    return f


_real = {n: getattr(builtins, n) for n in BUILTINS}


@shim
def len_(x):
    if type(x) is SArr:
        if not x.ndim:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if type(x) is SList:
        return x.arr.shape[0]
    if type(x) is SSet:
        return x.to_array(True).shape[0]
    if type(x) is SRange:
        return x.n
    if hasattr(x, "__pv_len__"):
        return x.__pv_len__()
    return _real["len"](x)


class SRange(Sym):
    """range with a symbolic bound."""

    __slots__ = ("start", "n", "step")

    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step

    @property
    def __class__(self):
        return range

    def arr(self):
        return snp.arange(self.start, num_bin("add", self.start, num_bin("mul", self.n, self.step)), self.step)

    def __iter__(self):
        raise Unsupported("loop over a symbolic range")

    __hash__ = None


@shim
def range_(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            st, en, sp = 0, a[0], 1
        elif len(a) == 2:
            (st, en), sp = a, 1
        else:
            st, en, sp = a
        arr = snp.arange(st, en, sp)
        if not is_sym(arr.shape[0]):
            return [arr.at(i) for i in range(arr.shape[0])]
        return SRange(st, arr.shape[0], sp)
    return _real["range"](*[int(x) if isinstance(x, np.generic) else x for x in a])


@shim
def int_(x=0, *a):
    if is_sym(x):
        if is_sarr(x):
            x = x.item()
        return core.cast_scalar(x, "i")
    return int(x, *a)


@shim
def float_(x=0.0):
    if is_sym(x):
        if is_sarr(x):
            x = x.item()
        return core.cast_scalar(x, "f")
    return float(x)


@shim
def complex_(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return core.cast_scalar(a[0], "c")
        return SCplx(core.cast_scalar(a[0], "f"), core.cast_scalar(a[1], "f"))
    return complex(*a)


@shim
def bool_(x=False):
    return bool(x)


@shim
def abs_(x):
    return abs(x)


def _ext(name, op, a, k):
    if len(a) == 1 and not k and (snp.has_sym(a[0])):
        x = a[0]
        if is_sarr(x) or type(x) is SList:
            return snp.function_call(name, (x,), {})
        if type(x) is SSet:
            return snp.function_call(name, (x.to_array(True),), {})
        a = list(x)
    elif len(a) == 1 or k:
        return _real[name](*a, **k)
    if snp.has_sym(a):
        r = a[0]
        for x in a[1:]:
            r = ite(num_bin(op, x, r), x, r)
        return r
    return _real[name](*a)


@shim
def max_(*a, **k):
    return _ext("max", "gt", a, k)


@shim
def min_(*a, **k):
    return _ext("min", "lt", a, k)


@shim
def sum_(x, *st):
    if is_sarr(x) or type(x) is SList:
        return snp.np_sum(x)
    return _real["sum"](x, *st)


def _lazy(x):
    return [e for e in pv_iter(x)]


@shim
def any_(x):
    if is_sarr(x) or type(x) is SList:
        return snp.np_any(lift(x))
    if isinstance(x, (tuple, list)) and any(type(e) is SBool for e in x) and all(type(e) in (SBool, bool) for e in x):
        return snp.sor(*x)
    return _real["any"](x)


@shim
def all_(x):
    if is_sarr(x) or type(x) is SList:
        return snp.np_all(lift(x))
    if isinstance(x, (tuple, list)) and any(type(e) is SBool for e in x) and all(type(e) in (SBool, bool) for e in x):
        return snp.sand(*x)
    return _real["all"](x)


@shim
def sorted_(x, key=None, reverse=False):
    if type(x) in (SSet, SList) or is_sarr(x):
        return snp.np_sorted(x, key, reverse)
    return _real["sorted"](x, key=key, reverse=reverse)


@shim
def set_(*a):
    if a and (is_sarr(a[0]) or type(a[0]) in (SList, SSet)):
        return toset(a[0])
    if a and isinstance(a[0], (list, tuple)) and snp.has_sym(a[0]) and all(not isinstance(e, tuple) for e in a[0]):
        return toset(list(a[0]))
    return _real["set"](*a)


@shim
def list_(*a):
    if a:
        x = a[0]
        if type(x) is SSet:
            return SList(x.to_array(False))
        if type(x) is SRange:
            return SList(x.arr())
        if type(x) is SList:
            return SList(x.arr.copy())
        if is_sarr(x):
            if is_sym(x.shape[0]):
                if x.ndim > 1:
                    raise Unsupported("list() of an nd symbolic array")
                return SList(x.copy())
            return [x[i] for i in range(x.shape[0])]
    return _real["list"](*a)


@shim
def tuple_(*a):
    if a:
        x = a[0]
        if is_sarr(x) or type(x) is SList:
            x = lift(x)
            if is_sym(x.shape[0]):
                raise Unsupported("tuple() of a symbolic-length array")
            return tuple(x[i] for i in range(x.shape[0]))
    return _real["tuple"](*a)


@shim
def enumerate_(x, start=0):
    return _real["enumerate"](pv_iter(x), start)


@shim
def zip_(*a, **k):
    return _real["zip"](*[pv_iter(x) for x in a], **k)


@shim
def map_(f, *a):
    if isinstance(f, type) and f is str:
        f = str_
    return _real["map"](f, *[pv_iter(x) for x in a])


@shim
def round_(x, *a):
    if is_sym(x):
        if a and a[0] is not None:
            raise Unsupported("round digits")
        return core.cast_scalar(snp._srint(x), "i")
    return round(x, *a)


@shim
def type_(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return _real["type"](*a)


@shim
def isinstance_(x, t):
    return builtins.isinstance(x, t)


@shim
def str_(*a, **k):
    if a and type(a[0]) is SStr:
        return a[0]
    if a and is_sym(a[0]):
        return "<sym>"
    return _real["str"](*a, **k)


@shim
def reversed_(x):
    if is_sarr(x):
        return x[::-1]
    if type(x) is SList:
        return SList(x.arr[::-1])
    return _real["reversed"](x)


def lazy_zip(*a, **k):
    from .loops import Elems, elems

    es = [elems(x) for x in a]
    if all(e is None for e in es):
        return zip_(*a, **k)
    if any(e is None for e in es):
        raise Unsupported("zip of bounded and unbounded iterables")
    n = es[0].n
    for e in es[1:]:
        if e.n is not n and not core.CTX.must(core.tobool(num_bin("eq", e.n, n))):
            raise Unsupported("zip of iterables of different lengths")
    return Elems(n, lambda i: tuple(e.at(i) for e in es))


def lazy_enumerate(x, start=0):
    from .loops import Elems, elems

    e = elems(x)
    if e is None:
        return enumerate_(x, start)
    return Elems(e.n, lambda i: (num_bin("add", i, start), e.at(i)))


def pv_iter(x):
    if type(x).__name__ == "Elems":
        n = _fix(x.n)
        if is_sym(n):
            raise Unsupported("iteration of unbounded length")
        return [x.at(i) for i in range(n)]
    if is_sarr(x):
        n = x.shape[0]
        if is_sym(n):
            if "lazy" in x.meta:
                x.meta["lazy"]()
            if core.CTX is not None:
                m = _fix(n)
                m = _fix(n, strong=True) if is_sym(m) else m
                if not is_sym(m):
                    return [_fixval(x[i]) for i in range(m)]
            raise Unsupported("iteration over an array of unbounded length")
        return [x[i] for i in range(n)]
    if type(x) is SList:
        return pv_iter(x.arr)
    if type(x) is SSet:
        return pv_iter(x.to_array(True))
    if type(x) is SRange:
        if core.CTX is not None and not core.is_sym(_fix(x.n)):
            return [num_bin("add", x.start, num_bin("mul", i, x.step)) for i in range(_fix(x.n))]
        raise Unsupported("loop over a symbolic range")
    return x


def _fixval(v):
    """An integer element that the path condition pins to a small constant."""
    if type(v) is SInt:
        for q in range(0, 4):
            if core.CTX.must(core.tobool(num_bin("eq", v, q))):
                return q
    return v


def _fix(n, strong=False):
    """A symbolic length that the path condition pins to a small constant."""
    c = core.CTX
    if strong:
        import z3

        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*c.hyps)
        if s.check(core.i_term(n) >= 4) != z3.unsat:
            return n
        for q in range(0, 4):
            if s.check(core.i_term(n) != q) == z3.unsat:
                return q
        return n
    for q in range(0, 4):
        if c.must(core.tobool(num_bin("eq", n, q))):
            return q
    return n


def pv_in(x, y):
    if is_sarr(y):
        return bool(snp.member(y, x))
    if type(y) is SList:
        return bool(snp.member(y.arr, x))
    if type(y) is SSet:
        return bool(y.mem(x))
    if is_sym(x):
        if isinstance(y, np.ndarray):
            return bool(snp.member(lift(y), x))
        if isinstance(y, (dict, set, frozenset)) or type(y).__name__ in ("dict_keys", "odict_keys"):
            for e in y:
                if _comparable(x, e) and bool(x == e):
                    return True
            return False
        if isinstance(y, (list, tuple)):
            for e in y:
                if _comparable(x, e) and bool(x == e):
                    return True
            return False
        if isinstance(y, str):
            raise Unsupported("substring test on a symbolic string")
    return x in y


def _comparable(x, e):
    if is_sarr(x) or is_sarr(e):
        return True
    try:
        kx, ke = core.kind_of(x), core.kind_of(e)
    except Unsupported:
        return False
    return (kx == "U") == (ke == "U")


_NPTYPES = {n for n in dir(np) if isinstance(getattr(np, n), type) and issubclass(getattr(np, n), np.generic)}


def _stored(body):
    out = []
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "add", "update", "insert", "pop") and isinstance(n.func.value, ast.Name):
                if n.func.value.id not in out:
                    out.append(n.func.value.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                v = n
                while isinstance(v, (ast.Subscript, ast.Attribute)):
                    v = v.value
                if isinstance(v, ast.Name) and v.id not in out:
                    out.append(v.id)
    return out


def pv_extend(x, y):
    if type(y) in (SList, SArr) and type(x) is list:
        y = y if type(y) is SList else SList(y)
        return SList(y.arr.copy()) if not x else SList(lift(x)) + y
    x.extend(y)
    return x


class Xform(ast.NodeTransformer):
    def __init__(self, shadow, rel=""):
        self.shadow = shadow
        self.rel = rel
        self.stack = []
        self.nloop = []

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.nloop.append(0)
        self.generic_visit(node)
        self.nloop.pop()
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SHIMMED and f.id not in self.shadow:
            node.func = ast.copy_location(ast.Name(id=f"__pv_{f.id}__", ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np" and f.attr in _NPTYPES:
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="__pv_npcall__", ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == "type" and isinstance(f.value, ast.Attribute) and f.value.attr == "dtype":
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="__pv_dtcall__", ctx=ast.Load()), f)
        return node

    def visit_Expr(self, node):
        self.generic_visit(node)
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "extend" and isinstance(v.func.value, ast.Name) and len(v.args) == 1 and not v.keywords:
            n = v.func.value.id
            new = ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                             value=ast.Call(func=ast.Name(id="__pv_extend__", ctx=ast.Load()), args=[ast.Name(id=n, ctx=ast.Load()), v.args[0]], keywords=[]))
            for q in ast.walk(new):
                if not hasattr(q, "lineno"):
                    ast.copy_location(q, node)
            return new
        return node

    def _it(self, e):
        return ast.copy_location(
            ast.Call(func=ast.copy_location(ast.Name(id="__pv_iter__", ctx=ast.Load()), e), args=[e], keywords=[]), e)

    def visit_For(self, node):
        from .loops import LOOPS

        key = None
        if self.nloop:
            key = (self.rel, ".".join(self.stack), self.nloop[-1])
            self.nloop[-1] += 1
        self.generic_visit(node)
        if key not in LOOPS or node.orelse:
            node.iter = self._it(node.iter)
            return node
        import copy

        tgt = [n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)]
        names = [n for n in _stored(node.body) if n not in tgt]
        uid = f"{node.lineno}"
        it, lc = f"__pvit{uid}", f"__pvlc{uid}"
        pre = ast.parse(f"{lc} = __pv_loop__({it}, {key!r}, {names!r}, dict(locals()))").body
        hv = []
        for n in names:
            hv += ast.parse(f"if {lc}.has({n!r}):\n    {n} = {lc}.value({n!r})").body
        con = ast.For(target=copy.deepcopy(node.target), iter=ast.parse(f"{lc}.once()", mode="eval").body,
                      body=copy.deepcopy(node.body), orelse=ast.parse(f"{lc}.close(dict(locals()))").body)
        last = ast.For(target=copy.deepcopy(node.target), iter=ast.parse(f"{lc}.after()", mode="eval").body, body=[ast.Pass()], orelse=[])
        node_it = node.iter
        node.iter = self._it(ast.Name(id=it, ctx=ast.Load()))
        asg = ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=self._lazy_zip(node_it))
        cond = ast.If(test=ast.parse(f"{lc} is not None", mode="eval").body, body=hv + [con, last], orelse=[node])
        out = [asg] + pre + [cond]
        for o in out:
            for n in ast.walk(o):
                if not hasattr(n, "lineno"):
                    ast.copy_location(n, node)
        return out

    def _lazy_zip(self, e):
        """zip/enumerate directly in the header of a contracted loop keep unbounded operands."""
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("__pv_zip__", "__pv_enumerate__"):
                n.func.id = n.func.id.replace("__pv_", "__pvl_")
        return e

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self._it(node.iter)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.copy_location(
                ast.Call(func=ast.copy_location(ast.Name(id="__pv_in__", ctx=ast.Load()), node),
                         args=[node.left, node.comparators[0]], keywords=[]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=call), node)
            return call
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="__pv_set__", ctx=ast.Load()), node),
                                          args=[ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)], keywords=[]), node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node


def shadowed(tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        elif isinstance(n, ast.arg):
            s.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n in getattr(tree, "body", []):
            s.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s.add((a.asname or a.name).split(".")[0])
    return s


def transform(src, filename):
    tree = ast.parse(src, filename)
    rel = filename[len(SRC) + 1:] if filename.startswith(SRC + "/") else filename
    tree = Xform(shadowed(tree), rel).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


def env():
    d = {f"__pv_{n}__": f for n, f in B.items()}
    from . import loops

    d["__pv_loop__"] = loops.begin
    d["__pvl_zip__"] = lazy_zip
    d["__pvl_enumerate__"] = lazy_enumerate
    d["__pv_iter__"] = pv_iter
    d["__pv_extend__"] = pv_extend
    d["__pv_in__"] = pv_in
    d["__pv_npcall__"] = snp.np_type_call
    d["__pv_dtcall__"] = snp.np_dtype_call
    return d


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path, self.name = path, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        code = transform(src, self.path)
        module.__dict__.update(env())
        exec(code, module.__dict__)
        if module.__dict__.get("np") is np:
            module.__dict__["np"] = snp.SYMNP
        for k, v in list(module.__dict__.items()):
            nm = getattr(v, "__name__", "") if type(v).__name__ == "module" else ""
            if nm in KERNELS:
                from . import kern

                module.__dict__[k] = kern.KernModule(os.path.join(SRC, KERNELS[nm]), v)


KERNELS = {
    "pyuvdata.utils._bls": "pyuvdata/utils/bls.pyx",
    "pyuvdata.utils._coordinates": "pyuvdata/utils/coordinates.pyx",
    "pyuvdata.utils._phasing": "pyuvdata/utils/phasing.pyx",
    "pyuvdata.uvdata._corr_fits": "pyuvdata/uvdata/corr_fits.pyx",
}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "pyuvdata" and not name.startswith("pyuvdata."):
            return None
        rel = name.replace(".", "/")
        pk = os.path.join(SRC, rel, "__init__.py")
        if os.path.exists(pk):
            sp = importlib.util.spec_from_loader(name, Loader(pk, name), origin=pk, is_package=True)
            sp.submodule_search_locations = [os.path.join(SRC, rel)]
            sp.has_location = True
            return sp
        py = os.path.join(SRC, rel + ".py")
        if os.path.exists(py):
            sp = importlib.util.spec_from_loader(name, Loader(py, name), origin=py)
            sp.has_location = True
            return sp
        return None  # extension modules: normal machinery


def install():
    if any(isinstance(f, Finder) for f in sys.meta_path):
        return
    sys.meta_path.insert(0, Finder())
    if SRC not in sys.path:
        sys.path.insert(0, SRC)


def load_file(path, modname):
    """Load one file (used by the selftest) with the transformation."""
    import types

    m = types.ModuleType(modname)
    m.__file__ = path
    Loader(path, modname).exec_module(m)
    return m
