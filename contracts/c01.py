"""C01 baseline <-> antenna numbering."""
import numpy as np
from pvc.reg import contract

MAXA = 2**31 - 1
OFF = 2**16 + 2**22
EDGE = [0, 1, 2, 254, 255, 256, 257, 2046, 2047, 2048, 2049, 65535, 65536, 2**30, MAXA - 1, MAXA]
FUN = ["pyuvdata.utils.bls:antnums_to_baseline", "pyuvdata.utils.bls:baseline_to_antnums",
       "pyuvdata/utils/bls.pyx:antnums_to_baseline", "pyuvdata/utils/bls.pyx:baseline_to_antnums",
       "pyuvdata/utils/bls.pyx:_antnum_to_bl_256", "pyuvdata/utils/bls.pyx:_antnum_to_bl_2048",
       "pyuvdata/utils/bls.pyx:_antnum_to_bl_2048_miriad",
       "pyuvdata/utils/bls.pyx:_antnum_to_bl_2147483648", "pyuvdata/utils/bls.pyx:_bl_to_ant_256",
       "pyuvdata/utils/bls.pyx:_bl_to_ant_2048", "pyuvdata/utils/bls.pyx:_bl_to_ant_2147483648",
       "pyuvdata/utils/bls.pyx:arraymin", "pyuvdata/utils/bls.pyx:arraymax"]


def ants(E, name, n, hi=MAXA, lo=0):
    if E.mode == "conc" and E.values is None:
        r = E.rng
        cap = min(hi, r.choice([3, 255, 256, 300, 2047, 2048, 5000, MAXA, MAXA]))
        cap = max(cap, lo)
        pool = [x for x in EDGE + [cap, max(cap - 1, lo)] if lo <= x <= cap] + [r.randint(lo, cap) for _ in range(3)]
        return E.array(name, (n,), "i", pool=pool)
    return E.array(name, (n,), "i", lo=lo, hi=hi)


def nants(E):
    """Nants_telescope: None or any count up to 2**31."""
    if E.choice("nants_given", [True, False]):
        return E.int("nants", lo=1, hi=2**31, interesting=[1, 128, 255, 256, 2047, 2048, 2049, 2**31])
    return None


def spec256(E, a, b):
    return 256 * a + b


@contract("C01", funcs=FUN, cases=150, qtimeout=20)
def roundtrip_arrays(E):
    """All pairs below 2**31, all lengths: decode(encode(a1, a2)) == (a1, a2), never wrapped."""
    from pyuvdata.utils import bls

    n = E.dim("n", 1, 6)
    a1, a2 = ants(E, "a1", n), ants(E, "a2", n)
    N = nants(E)
    kw = {}
    if E.choice("try256", [False, True]):
        kw["attempt256"] = True
        # legacy range: 256-convention numbers of antennas 0..255 are decodable when below 2**16
    bl = bls.antnums_to_baseline(a1, a2, Nants_telescope=N, **kw)
    E.ensure("len", E.length(bl) == n)
    E.ensure_all("nonneg", [n], lambda i: E.at(bl, i) >= 0)
    E.ensure_all("in-range", [n], lambda i: E.at(bl, i) <= 4611686018498691072)
    d1, d2 = bls.baseline_to_antnums(bl, Nants_telescope=2048 if N is None else N)
    E.ensure("dlen", E.And(E.length(d1) == n, E.length(d2) == n))
    E.ensure_all("ant1", [n], lambda i: E.same(E.at(d1, i), E.at(a1, i)))
    E.ensure_all("ant2", [n], lambda i: E.same(E.at(d2, i), E.at(a2, i)))


@contract("C01", funcs=FUN, cases=150, qtimeout=20)
def encode_definition(E):
    """The documented numbering formulae, chosen by the documented rule."""
    from pyuvdata.utils import bls

    n = E.dim("n", 1, 5)
    a1, a2 = ants(E, "a1", n), ants(E, "a2", n)
    N = nants(E)
    conv = E.choice("conv", ["auto", "256"])
    bl = bls.antnums_to_baseline(a1, a2, Nants_telescope=N, attempt256=conv == "256")
    small = lambda L: E.forall([n], lambda i: E.And(E.at(a1, i) < L, E.at(a2, i) < L))
    few = True if N is None else N <= 2048
    v256 = E.forall([n], lambda i: E.same(E.at(bl, i), 256 * E.at(a1, i) + E.at(a2, i)))
    v2048 = E.forall([n], lambda i: E.same(E.at(bl, i), 2048 * E.at(a1, i) + E.at(a2, i) + 2**16))
    vbig = E.forall([n], lambda i: E.same(E.at(bl, i), 2**31 * E.at(a1, i) + E.at(a2, i) + OFF))
    use256 = E.And(conv == "256", small(256))
    use2048 = E.And(E.Not(use256), small(2048), few)
    E.ensure("256", E.Implies(use256, v256))
    E.ensure("2048", E.Implies(use2048, v2048))
    E.ensure("2147483648", E.Implies(E.And(E.Not(use256), E.Not(use2048)), vbig))


@contract("C01", funcs=FUN, cases=120, qtimeout=20)
def injective(E):
    """Different pairs in one call get different numbers (every convention)."""
    from pyuvdata.utils import bls

    n = E.dim("n", 2, 6)
    conv = E.choice("conv", ["auto", "256", "miriad"])
    hi = 2047 if conv == "miriad" else MAXA
    # MIRIAD numbering is for 1-based antennas
    a1, a2 = ants(E, "a1", n, hi, lo=1 if conv == "miriad" else 0), ants(E, "a2", n, hi, lo=1 if conv == "miriad" else 0)
    if conv == "miriad":
        # MIRIAD/UVFITS numbering: 256-based pairs need ant1 < 256 to stay below 2**16
        E.assume(E.forall([n], lambda i: E.Or(E.at(a2, i) > 255, E.at(a1, i) <= 255)))
    N = nants(E)
    bl = bls.antnums_to_baseline(a1, a2, Nants_telescope=N, attempt256=conv == "256", use_miriad_convention=conv == "miriad")
    E.ensure_all("injective", [n, n], lambda i, j: E.Implies(
        E.same(E.at(bl, i), E.at(bl, j)), E.And(E.same(E.at(a1, i), E.at(a1, j)), E.same(E.at(a2, i), E.at(a2, j)))))
    if conv == "miriad":
        E.ensure_all("miriad-formula", [n], lambda i: E.same(E.at(bl, i), E.ite(
            E.at(a2, i) > 255, 2048 * E.at(a1, i) + E.at(a2, i) + 65536, 256 * E.at(a1, i) + E.at(a2, i))))


@contract("C01", funcs=FUN, cases=150, qtimeout=20)
def decode_encode(E):
    """Every baseline number of a convention decodes to the pair that encodes to it."""
    from pyuvdata.utils import bls

    n = E.dim("n", 1, 5)
    conv = E.choice("conv", [256, 2048, 2**31])
    off = {256: 0, 2048: 2**16, 2**31: OFF}[conv]
    hi = {256: 2**16 - 1, 2048: OFF - 1, 2**31: OFF + 2**62 - 1}[conv]
    if E.mode == "conc" and E.values is None:
        r = E.rng
        pool = [off, off + 1, off + conv - 1, off + conv, off + conv + 1, hi, hi - 1, hi - conv, hi - conv + 1] + [r.randint(off, hi) for _ in range(5)]
        b = E.array("b", (n,), "i", pool=pool)
    else:
        b = E.array("b", (n,), "i", lo=off, hi=hi)
    x, y = bls.baseline_to_antnums(b, Nants_telescope=2048)
    E.ensure_all("range", [n], lambda i: E.And(0 <= E.at(x, i), 0 <= E.at(y, i), E.at(x, i) < conv, E.at(y, i) < conv))
    E.ensure_all("value", [n], lambda i: E.same(E.at(b, i), off + conv * E.at(x, i) + E.at(y, i)))


@contract("C01", funcs=FUN, cases=120, qtimeout=20)
def rejects_out_of_range(E):
    """Unrepresentable input is rejected, for arrays and scalars."""
    from pyuvdata.utils import bls

    n = E.dim("n", 1, 5)
    which = E.choice("which", ["ant_big", "ant_neg", "bl_neg", "bl_big", "nants_enc", "nants_dec"])
    k = E.int("k", lo=0, hi=n - 1)
    if which in ("ant_big", "ant_neg"):
        a1, a2 = ants(E, "a1", n), ants(E, "a2", n)
        bad = E.int("bad", lo=2**31, hi=2**40, interesting=[2**31, 2**31 + 1]) if which == "ant_big" else E.int("bad", lo=-(2**40), hi=-1, interesting=[-1])
        if E.choice("slot", [0, 1]):
            a1[k] = bad
        else:
            a2[k] = bad
        E.ensure("rejected", E.raises(ValueError, lambda: bls.antnums_to_baseline(a1, a2, Nants_telescope=128)))
    elif which in ("bl_neg", "bl_big"):
        b = E.array("b", (n,), "i", lo=0, hi=4611686018498691072)
        lim = 4611686018498691072
        b[k] = E.int("bad", lo=-(2**40), hi=-1, interesting=[-1]) if which == "bl_neg" else E.int("bad", lo=lim + 1, hi=2**63 - 1, interesting=[lim + 1, 2**63 - 1])
        E.ensure("rejected", E.raises(ValueError, lambda: bls.baseline_to_antnums(b, Nants_telescope=128)))
    else:
        N = E.int("N", lo=2**31 + 1, hi=2**40, interesting=[2**31 + 1])
        if which == "nants_enc":
            E.ensure("rejected", E.raises(ValueError, lambda: bls.antnums_to_baseline(ants(E, "a1", n), ants(E, "a2", n), Nants_telescope=N)))
        else:
            E.ensure("rejected", E.raises(ValueError, lambda: bls.baseline_to_antnums(E.array("b", (n,), "i", lo=0, hi=10**6), Nants_telescope=N)))


@contract("C01", funcs=FUN + ["pyuvdata.utils.bls:baseline_index_flip"], cases=150, qtimeout=20)
def scalars(E):
    """Scalar calls agree with the definition and round-trip; flipping swaps the pair."""
    from pyuvdata.utils import bls

    a = E.int("a", lo=0, hi=MAXA, interesting=EDGE)
    b = E.int("b", lo=0, hi=MAXA, interesting=EDGE)
    N = E.int("nants", lo=1, hi=2**31, interesting=[1, 2048, 2049])
    bl = bls.antnums_to_baseline(a, b, Nants_telescope=N)
    E.ensure("value", E.same(bl, E.ite(E.And(a < 2048, b < 2048, N <= 2048), 2048 * a + b + 2**16, 2**31 * a + b + OFF)))
    x, y = bls.baseline_to_antnums(bl, Nants_telescope=N)
    E.ensure("roundtrip", E.And(E.same(x, a), E.same(y, b)))
    f = bls.baseline_index_flip(bl, Nants_telescope=N)
    u, v = bls.baseline_to_antnums(f, Nants_telescope=N)
    E.ensure("flip", E.And(E.same(u, b), E.same(v, a)))
    if E.mode == "conc":
        E.ensure("python ints", type(x) is int and type(y) is int and isinstance(bl, int))


@contract("C01", funcs=["pyuvdata.uvdata.uvdata:UVData.antnums_to_baseline", "pyuvdata.uvdata.uvdata:UVData.baseline_to_antnums",
                        "pyuvdata.uvflag.uvflag:UVFlag.antnums_to_baseline", "pyuvdata.uvflag.uvflag:UVFlag.baseline_to_antnums"], cases=80, qtimeout=20)
def object_methods(E):
    from pyuvdata import UVData

    uv = UVData()
    N = E.int("nants", lo=1, hi=2**31, interesting=[1, 2048, 2049])
    uv.telescope.Nants = N
    n = E.dim("n", 1, 4)
    a1, a2 = ants(E, "a1", n), ants(E, "a2", n)
    bl = uv.antnums_to_baseline(a1, a2)
    d1, d2 = uv.baseline_to_antnums(bl)
    E.ensure_all("roundtrip", [n], lambda i: E.And(E.same(E.at(d1, i), E.at(a1, i)), E.same(E.at(d2, i), E.at(a2, i))))
    small = E.And(N <= 2048, E.forall([n], lambda i: E.And(E.at(a1, i) < 2048, E.at(a2, i) < 2048)))
    E.ensure("convention by telescope size", E.Implies(E.Not(small), E.forall([n], lambda i: E.at(bl, i) >= OFF)))


@contract("C01", funcs=["pyuvdata.utils.bls:antnums_to_baseline", "pyuvdata.utils.bls:baseline_to_antnums"], mode="bounded", cases=120)
def containers(E):
    """lists, tuples, other integer types and non-contiguous arrays give the same numbers."""
    from pyuvdata.utils import bls

    n = E.dim("n", 1, 6)
    a1, a2 = ants(E, "a1", n), ants(E, "a2", n)
    ref = [bls.antnums_to_baseline(int(p), int(q), Nants_telescope=2049) for p, q in zip(a1, a2)]
    form = E.choice("form", ["list", "tuple", "uint64", "int32", "strided", "column"])
    mk = {"list": list, "tuple": tuple, "uint64": lambda x: x.astype(np.uint64), "int32": lambda x: x.astype(np.int32),
          "strided": lambda x: np.repeat(x, 2)[::2], "column": lambda x: np.stack([x, x[::-1]], axis=1)[:, 0]}[form]
    x1, x2 = mk(a1), mk(a2)
    bl = bls.antnums_to_baseline(x1, x2, Nants_telescope=2049)
    E.ensure("same numbers", list(map(int, bl)) == ref, (list(bl), ref))
    d1, d2 = bls.baseline_to_antnums(mk(np.asarray(bl)) if form != "int32" else bl, Nants_telescope=2049)
    E.ensure("roundtrip", list(map(int, d1)) == list(map(int, a1)) and list(map(int, d2)) == list(map(int, a2)))
    E.ensure("inputs unchanged", list(map(int, x1)) == list(map(int, a1)) and list(map(int, x2)) == list(map(int, a2)))
