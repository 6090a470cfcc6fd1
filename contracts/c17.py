"""C17 Miriad byte packing (src/pyuvdata/uvdata/src/pack.c)."""
import ctypes
import os
import shutil
import signal
import subprocess
import sys
import tempfile

import numpy as np
from pvc.reg import contract

SRC = "/repo/src/pyuvdata/uvdata/src/"
# function: (bytes per element in memory, on disk, direction, numpy types in memory / on disk)
FN = {
    "pack16_c": (4, 2, "pack", "<i4", ">i2"), "unpack16_c": (4, 2, "unpack", "<i4", ">i2"),
    "pack32_c": (4, 4, "pack", "<i4", ">i4"), "unpack32_c": (4, 4, "unpack", "<i4", ">i4"),
    "pack64_c": (8, 8, "pack", "<i8", ">i8"), "unpack64_c": (8, 8, "unpack", "<i8", ">i8"),
    "packr_c": (4, 4, "pack", "<f4", ">f4"), "unpackr_c": (4, 4, "unpack", "<f4", ">f4"),
    "packd_c": (8, 8, "pack", "<f8", ">f8"), "unpackd_c": (8, 8, "unpack", "<f8", ">f8"),
}
_CACHE = {}


def _lib():
    """pack.c of the current tree, compiled on its own (Python.h is not needed by these functions)."""
    if "lib" not in _CACHE:
        d = tempfile.mkdtemp(prefix="c17-")
        try:
            with open(os.path.join(d, "Python.h"), "w") as f:
                f.write("#include <stddef.h>\n")
            so = os.path.join(d, "pack.so")
            subprocess.run(["gcc", "-O2", "-w", "-D_GNU_SOURCE", "-shared", "-fPIC", "-I" + d, "-I" + SRC, SRC + "pack.c", "-o", so], check=True, capture_output=True)
            _CACHE["lib"] = ctypes.CDLL(so)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _CACHE["lib"]


def _elem_spec(z3, fn, K, src, dst):
    """Bytes of element K of the destination, from the bytes of element K of the source (little-endian memory, big-endian disk)."""
    mw, dw, way, _, _ = FN[fn]
    mem = lambda a, b: z3.Select(a, mw * K + b)
    dsk = lambda a, b: z3.Select(a, dw * K + b)
    if way == "pack":
        return z3.And(*[dsk(dst, b) == mem(src, dw - 1 - b) for b in range(dw)])
    eqs = [mem(dst, b) == dsk(src, dw - 1 - b) for b in range(dw)]
    sign = z3.If(z3.Extract(7, 7, dsk(src, 0)) == 1, z3.BitVecVal(0xFF, 8), z3.BitVecVal(0, 8))
    eqs += [mem(dst, b) == sign for b in range(dw, mw)]
    return z3.And(*eqs)


def _vc(fn):
    """Obligations of one function: (name, hypotheses, goal)."""
    import z3
    from pvc import cfront

    if "ast" not in _CACHE:
        _CACHE["ast"] = cfront.clang_ast(SRC + "pack.c", include=[SRC])
    mw, dw, way, _, _ = FN[fn]
    n = z3.BitVec("n", 32)
    K = z3.BitVec("K", 64)
    N = z3.SignExt(32, n)
    A = z3.ArraySort(cfront.B64, cfront.B8)
    mem = {"in": z3.Const("in", A), "out": z3.Const("out", A)}
    sizes = {"in": N * (mw if way == "pack" else dw), "out": N * (dw if way == "pack" else mw)}
    content = lambda t, m: z3.Implies(z3.ULT(K, t), z3.And(_elem_spec(z3, fn, K, mem["in"], m["out"]), m["in"] == mem["in"]))
    X = cfront.Exec(_CACHE["ast"], sizes, content, N)
    X.hyps += [n >= 0, z3.ULT(K, N)]
    zero = z3.BitVecVal(0, 64)
    st = X.verify(fn, [cfront.Ptr("in", zero, "char"), cfront.Ptr("out", zero, "char"), n], mem)
    X.obl("every element is stored most significant byte first", _elem_spec(z3, fn, K, mem["in"], st.mem["out"]))
    X.obl("the source is not modified", st.mem["in"] == mem["in"])
    return X.obls, mem["in"]


def _guided(fn):
    """Element bit patterns from counter-models of open obligations, to be tried on the compiled code."""
    if ("g", fn) in _CACHE:
        return _CACHE["g", fn]
    import z3
    from pvc import cfront

    out = []
    w = FN[fn][0] if FN[fn][2] == "pack" else FN[fn][1]
    try:
        obls, src = _vc(fn)
        for name, hyps, goal in obls:
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*hyps, z3.Not(goal))
            if s.check() == z3.sat:
                m = s.model()
                pos = [d() for d in m.decls() if d.arity() == 0 and d.range() == cfront.B64]
                for q in pos[:6]:
                    v = m.eval(q, model_completion=True).as_long()
                    for base in (v * w, v):
                        out.append(bytes(m.eval(z3.Select(src, z3.BitVecVal(base + b, 64)), model_completion=True).as_long() for b in range(w)))
    except Exception:  # not within reach of the C front end: no hints
        pass
    _CACHE["g", fn] = sorted(set(out))[:64]
    return _CACHE["g", fn]


def _prove(E, fn):
    import z3
    from pvc import cfront
    from pvc.core import Unsupported

    try:
        obls, _ = _vc(fn)
    except cfront.CUnsupported as e:
        raise Unsupported(f"pack.c {fn}: {e}")
    for name, hyps, goal in obls:
        E._obl(name, z3.Implies(z3.And(*hyps) if hyps else z3.BoolVal(True), goal), [])


_SPECIAL = {4: [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x7F800000, 0x7FC00001, 1],
            8: [0, 1, 0xFF, 2**31, 2**32, 2**63, 2**64 - 1, 2**63 - 1, 0x7FF0000000000000, 0x7FF8000000000001]}


def _bits(E, n, w):
    r = E.np_rng
    a = r.integers(0, 256, size=(n, w), dtype=np.uint8)
    sp = np.array(_SPECIAL[w], dtype=np.uint64).astype(f"<u{w}").view(np.uint8).reshape(-1, w)
    pick = r.random(n) < 0.4
    a[pick] = sp[r.integers(len(sp), size=int(pick.sum()))]
    return a


def _call(E, fn, src, nout, n):
    """Run the compiled function between guard bytes, in a process of its own (a wild write or an endless loop is a violation too)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(20)
            res = _call_here(fn, src, nout, n)
            with os.fdopen(w, "wb") as f:
                f.write(b"%d%d" % res[:2] + res[2])
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        got = f.read()
    _, status = os.waitpid(pid, 0)
    E.ensure("terminates and stays in bounds", status == 0 and len(got) == nout + 2)
    E.ensure("source buffer unchanged", got[:1] == b"1")
    E.ensure("nothing outside the destination buffer written", got[1:2] == b"1")
    return got[2:]


def _call_here(fn, src, nout, n):
    G = 24
    si = np.concatenate([np.full(G, 0xA5, np.uint8), np.frombuffer(src, np.uint8), np.full(G, 0xA5, np.uint8)])
    out = np.full(nout + 2 * G, 0x5A, np.uint8)
    keep = si.copy()
    f = getattr(_lib(), fn)
    f.restype, f.argtypes = None, [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
    f(si.ctypes.data + G, out.ctypes.data + G, n)
    return np.array_equal(si, keep), bool(np.all(out[:G] == 0x5A) and np.all(out[-G:] == 0x5A)), out[G:-G].tobytes()


def _conc(E, fn):
    mw, dw, way, mt, dt = FN[fn]
    _lib()
    n = E.choice("n", [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64, 100, 257, 1000, 4099, 70000])
    E.inputs["bits"] = int(E.np_rng.integers(2**31))
    a = _bits(E, n, mw if way == "pack" else dw if dw != 2 else 4)
    if way == "unpack" and dw == 2:
        a = np.ascontiguousarray(a[:, :2])
    g = _guided(fn)
    if g and n:
        gs = np.frombuffer(b"".join(g), np.uint8).reshape(len(g), -1)
        a[E.np_rng.integers(n, size=n)] = gs[E.np_rng.integers(len(g), size=n)]
    if way == "pack":
        out = _call(E, fn, a.tobytes(), n * dw, n)
        want = a[:, :dw][:, ::-1].tobytes()
        E.ensure("big-endian bytes of every element", out == want)
        if dw == 2:
            v = E.np_rng.integers(-32768, 32768, size=n).astype("<i4")
            p = _call(E, fn, v.tobytes(), n * 2, n)
            E.ensure("16-bit values survive the round trip", _call(E, "unpack16_c", p, n * 4, n) == v.tobytes())
        else:
            E.ensure("unpacking gives the numbers back", _call(E, "un" + fn, out, n * mw, n) == a.tobytes())
    else:
        out = _call(E, fn, a.tobytes(), n * mw, n)
        if dw == 2:
            want = a.view(">i2").astype("<i4").tobytes() if n else b""
        else:
            want = a[:, ::-1].tobytes()
        E.ensure("numbers read from big-endian bytes", out == want)


def _mk(fn):
    @contract("C17", funcs=["pyuvdata/uvdata/src/pack.c:" + fn], cases=150, name=fn)
    def c(E):
        if E.mode == "sym":
            _prove(E, fn)
        else:
            _conc(E, fn)

    return c


for _f in FN:
    _mk(_f)


@contract("C17", funcs=["pyuvdata/uvdata/src/pack.c:" + f for f in FN], cases=1, sym_only=True)
def round_trip(E):
    """Lemma over the contracts above: unpacking what was packed gives the element back (16 bit: when it fits)."""
    import z3
    from pvc import cfront

    A = z3.ArraySort(cfront.B64, cfront.B8)
    K = z3.BitVec("K", 64)
    for fn, (mw, dw, way, _, _) in FN.items():
        if way != "pack":
            continue
        a, d, b = (z3.Const(x, A) for x in "adb")
        hyp = [_elem_spec(z3, fn, K, a, d), _elem_spec(z3, "un" + fn, K, d, b)]
        by = lambda m: [z3.Select(m, mw * K + i) for i in range(mw)]
        if dw < mw:
            v = z3.Concat(*by(a)[::-1])
            hyp += [v >= -32768, v <= 32767]
        E._obl(fn + " round trip", z3.Implies(z3.And(*hyp), z3.And(*[x == y for x, y in zip(by(a), by(b))])), [])
