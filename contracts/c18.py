"""C18 MWA correlator products: mapping kernel, van Vleck kernels, reader."""
import numpy as np
from pvc.reg import contract

MAPF = ["pyuvdata/uvdata/corr_fits.pyx:generate_map", "pyuvdata/uvdata/corr_fits.pyx:input_output_mapping", "pyuvdata/uvdata/corr_fits.pyx:pfb_mapper"]


@contract("C18", funcs=MAPF[1:], cases=1)
def pfb_table(E):
    """The polyphase filter bank table is the documented permutation of the 256 inputs, and therefore one-to-one and onto."""
    from pyuvdata.uvdata import _corr_fits

    if E.mode == "sym":  # the text of the kernel, not the compiled module
        import os
        from pvc import kern, load

        tab = kern.Kern(os.path.join(load.SRC, "pyuvdata/uvdata/corr_fits.pyx"), _corr_fits).call("input_output_mapping", [], {})
    else:
        tab = _corr_fits.input_output_mapping()
    E.ensure("256 inputs", len(tab) == 256 and sorted(tab) == list(range(256)))
    E.ensure("onto", sorted(tab.values()) == list(range(256)))
    for out in range(256):
        block, i = divmod(out, 64)
        E.ensure(f"output {out}", tab[i // 4 + (i % 4) * 16 + 64 * block] == out)


class Inputs(dict):
    """(antenna, feed) -> filter bank input, an arbitrary one-to-one assignment."""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(2 * k[0] + k[1])


def sample(E, hi, lo):
    """Position of the product of outputs hi >= lo in the correlator's data (documented packing)."""
    A, B = hi // 2, lo // 2
    return 2 * A * (A + 1) + 4 * B + 2 * (hi - 2 * A) + (lo - 2 * B)


def cell(E, a1, a2, p1, p2):
    return 4 * (128 * a1 - (a1 * (a1 + 1)) // 2 + a2) + 2 * p1 + p2


def the_map(E):
    from pyuvdata.uvdata import _corr_fits, mwa_corr_fits

    f, inv = E.bijection("pf_input", 256)
    n = 33024
    tab = _corr_fits.input_output_mapping()
    if E.mode == "sym":
        m, c = E.zeros(n, "i"), E.zeros(n, "b")
        pf = Inputs(f)
    else:
        m, c = E.zeros(n, "i").astype(np.int32), E.zeros(n, "b")
        pf = {(a, p): f(2 * a + p) for a in range(128) for p in range(2)}
    mwa_corr_fits._corr_fits.generate_map(pf, m, c)
    return f, inv, tab, m, c


def out(E, tab, f, a, p):
    return E.lookup(tab, f(2 * a + p))


@contract("C18", funcs=MAPF, cases=40, qtimeout=60, timeout=300)
def map_products(E):
    """For every wiring of the 256 inputs, every antenna pair and feed pair: the product is taken from the sample of its two inputs, conjugated
    exactly when the correlator stored the pair the other way round."""
    f, inv, tab, m, c = the_map(E)
    a1 = E.int("a1", lo=0, hi=127)
    a2 = E.int("a2", lo=0, hi=127)
    E.assume(a1 <= a2)
    p1, p2 = E.int("p1", lo=0, hi=1), E.int("p2", lo=0, hi=1)
    E.at_iteration(m, a1, a2, p1, p2)
    E.at_iteration(c, a1, a2, p1, p2)
    o1, o2 = out(E, tab, f, a1, p1), out(E, tab, f, a2, p2)
    q = cell(E, a1, a2, p1, p2)
    hi, lo = E.ite(o1 >= o2, o1, o2), E.ite(o1 >= o2, o2, o1)
    E.ensure("in range", E.And(q >= 0, q < 33024))
    E.ensure("sample", E.at(m, q) == sample(E, hi, lo))
    E.ensure("conjugated", E.Iff(E.at(c, q), o2 > o1))
    E.ensure("sample in range", E.And(E.at(m, q) >= 0, E.at(m, q) < 33024))


def mapped(E, ctxt, a1, a2, p1, p2):
    """map[cell] as generate_map's contract (map_products) gives it; the real array in concrete runs."""
    f, inv, tab, m, c = ctxt
    o1, o2 = out(E, tab, f, a1, p1), out(E, tab, f, a2, p2)
    hi, lo = E.ite(o1 >= o2, o1, o2), E.ite(o1 >= o2, o2, o1)
    if E.mode == "sym":
        return sample(E, hi, lo), hi, lo
    return m[cell(E, a1, a2, p1, p2)], hi, lo


def the_contract(E):
    if E.mode != "sym":
        return the_map(E)
    from pyuvdata.uvdata import _corr_fits

    f, inv = E.bijection("pf_input", 256)
    return f, inv, _corr_fits.input_output_mapping(), None, None


@contract("C18", funcs=MAPF, cases=40, qtimeout=30, timeout=200)
def map_one_to_one(E):
    """Two outputs taken from the same sample are products of the same two inputs (over the contract map_products)."""
    t = the_contract(E)
    f, tab = t[0], t[2]
    v = {}
    for s in "xy":
        a1, a2 = E.int("a1" + s, lo=0, hi=127), E.int("a2" + s, lo=0, hi=127)
        E.assume(a1 <= a2)
        p1, p2 = E.int("p1" + s, lo=0, hi=1), E.int("p2" + s, lo=0, hi=1)
        mv, hi, lo = mapped(E, t, a1, a2, p1, p2)
        v[s] = (2 * a1 + p1, 2 * a2 + p2, hi, lo, hi // 2, lo // 2, mv)
    X, Y = v["x"], v["y"]
    for (P, Q, nm) in ((X, Y, "xy"), (Y, X, "yx")):  # the rows of the packing do not overlap
        E.lemma("rows " + nm, E.Implies(P[4] < Q[4], 2 * (P[4] + 1) * (P[4] + 2) <= 2 * Q[4] * (Q[4] + 1)))
        E.lemma("row end " + nm, P[6] < 2 * (P[4] + 1) * (P[4] + 2))
        E.lemma("row start " + nm, P[6] >= 2 * P[4] * (P[4] + 1))
    same = X[6] == Y[6]
    E.lemma("same row", E.Implies(same, X[4] == Y[4]))
    E.lemma("same products", E.Implies(same, E.And(X[2] == Y[2], X[3] == Y[3])))
    E.ensure("same inputs", E.Implies(same, E.Or(E.And(X[0] == Y[0], X[1] == Y[1]), E.And(X[0] == Y[1], X[1] == Y[0]))))


@contract("C18", funcs=MAPF, cases=40, qtimeout=30, timeout=200)
def map_onto(E):
    """Every (non-redundant) correlator sample is the source of an output product (over the contract map_products)."""
    t = the_contract(E)
    f, tab = t[0], t[2]
    A, p = E.int("A", lo=0, hi=127), E.int("p", lo=0, hi=1)
    B, q = E.int("B", lo=0, hi=127), E.int("q", lo=0, hi=1)
    oa, ob = out(E, tab, f, A, p), out(E, tab, f, B, q)
    E.assume(oa >= ob)  # the product of outputs oa >= ob; every pair of outputs is some pair of inputs (pfb_table)
    swap = A > B
    mv, _, _ = mapped(E, t, E.ite(swap, B, A), E.ite(swap, A, B), E.ite(swap, q, p), E.ite(swap, p, q))
    E.ensure("used", mv == sample(E, oa, ob))


CHEB = ["pyuvdata/uvdata/corr_fits.pyx:van_vleck_cheby", "pyuvdata/uvdata/corr_fits.pyx:_get_cheby_coeff"]


@contract("C18", funcs=CHEB, cases=60, qtimeout=20, timeout=120)
def chebyshev(E):
    """Every value becomes sum_c t_c T_{2c+1}(value), with t the bilinear interpolation of the coefficient table at its own pair of sigmas (grid step 0.01)."""
    from pyuvdata.uvdata import mwa_corr_fits

    n, r = E.dim("n", 1, 5), E.dim("r", 2, 5)
    kap = E.array("kap", (2, n), "f", lo=-1, hi=1)
    rho = E.array("rho", (r, r, 3), "f")
    s1, s2 = E.array("s1", (n,), "i", lo=1, hi=r - 1), E.array("s2", (n,), "i", lo=1, hi=r - 1)
    d1, d2 = E.array("d1", (n,), "f", lo=0, hi=0.01), E.array("d2", (n,), "f", lo=0, hi=0.01)
    old = E.old(kap)
    mwa_corr_fits._corr_fits.van_vleck_cheby(kap, rho, s1, s2, d1, d2)

    def t(i, c):
        a, b = E.at(s1, i), E.at(s2, i)
        u, v = E.at(d1, i), E.at(d2, i)  # distance below the right grid point
        R = lambda x, y: E.at(rho, x, y, c)
        return 1e4 * (R(a - 1, b - 1) * u * v + R(a - 1, b) * u * (0.01 - v) + R(a, b - 1) * (0.01 - u) * v + R(a, b) * (0.01 - u) * (0.01 - v))

    for part in range(2):

        def post(i):
            x = E.at(old, part, i)
            cheb = [x, 4 * x * x * x - 3 * x, 16 * x * x * x * x * x - 20 * x * x * x + 5 * x]
            want = t(i, 0) * cheb[0] + t(i, 1) * cheb[1] + t(i, 2) * cheb[2]
            return E.eq(E.at(kap, part, i), want)

        E.ensure_all(f"value {part}", [n], post)


KHAT = ["pyuvdata/uvdata/corr_fits.pyx:get_khat", "pyuvdata/uvdata/corr_fits.pyx:_compute_khat"]


@contract("C18", funcs=KHAT, cases=40, qtimeout=20, timeout=150)
def khat_definition(E):
    """The kernel is the double sum over the seven quantization levels of the bivariate normal density of each value with its own pair of sigmas,
    on the small-array path and on the parallel one alike."""
    from pyuvdata.uvdata import mwa_corr_fits

    n = E.dim("n", 2, 6)
    rows = E.choice("rows", [0, 1, 2])
    rho = E.array("rho", (rows, n) if rows else (n,), "f", lo=-0.9, hi=0.9)
    s1, s2 = E.array("s1", (n,), "f", lo=0.5, hi=5), E.array("s2", (n,), "f", lo=0.5, hi=5)
    k = mwa_corr_fits._corr_fits.get_khat(rho, s1, s2)
    flat = rows == 0
    E.ensure("shape", E.And(k.shape[-1] == n, len(k.shape) == (1 if flat else 2), flat or k.shape[0] == rows))
    import math

    ex, sq = (E.exp, E.sqrt)
    for i in range(max(rows, 1)):

        def post(j):
            x = E.at(rho, i, j) if rows else E.at(rho, j)
            a, b = E.at(s1, j), E.at(s2, j)
            w = 1 - x * x
            tot = 0.0
            for l in range(7):
                for m in range(7):
                    u, v = (m + 0.5) / a, (l + 0.5) / b
                    g = -1.0 / (2 * w)
                    tot = tot + 1.0 / (math.pi * sq(w)) * (ex(g * (u * u + v * v - 2 * x * u * v)) + ex(g * (u * u + v * v + 2 * x * u * v)))
            got = E.at(k, j) if flat else E.at(k, i, j)
            return E.eq(got, tot)

        E.ensure_all(f"row {i}", [n], post)


# ------------------------------------------------------------------ bounded: the reader and the corrections around the kernels
MW = "pyuvdata.uvdata.mwa_corr_fits:"
DD = "/repo/src/pyuvdata/data/mwa_corr_fits_testfiles/"


def mwa_tel():
    from astropy.coordinates import EarthLocation

    class T:
        location = EarthLocation.from_geodetic(116.67081524, -26.70331941, 377.8)
        location_lat_lon_alt = (np.deg2rad(-26.70331941), np.deg2rad(116.67081524), 377.8)

        class _location:
            @staticmethod
            def xyz():
                return np.array([v.to_value("m") for v in T.location.geocentric])

    return T


def tol(a, b, r=1e-6):
    return np.allclose(a, b, rtol=r, atol=r)


@contract("C18", mode="bounded", funcs=[MW + "MWACorrFITS.read_mwa_corr_fits", MW + "MWACorrFITS._read_fits_file", MW + "read_metafits"], cases=5, timeout=200)
def raw_files(E):
    """Reading raw files (1-2 coarse channels, 1-2 fine channels, 1-2 times, random products, random wiring): every antenna pair, feed pair, time and
    channel holds exactly the file's sample of its two inputs; samples of times without data are flagged with zero weight."""
    import os
    import shutil
    import tempfile
    import warnings
    from unittest import mock
    from astropy.io import fits
    from pyuvdata import UVData
    from pyuvdata.uvdata import _corr_fits, mwa_corr_fits

    r = np.random.default_rng(E.int("seed", lo=0, hi=10**6))
    nfine, ntimes = E.choice("nfine", [1, 2]), E.choice("ntimes", [1, 2])
    files = E.choice("files", [[1], [1, 6], [20], [6, 5]])
    gap = E.choice("gap", [False, True]) and ntimes == 2 and len(files) == 2
    d = tempfile.mkdtemp(prefix="c18")
    try:
        meta = os.path.join(d, "1131733552.metafits")
        with fits.open(DD + "1131733552.metafits") as h:
            tb = h[1].data
            ants = r.permutation(128)
            tb["Antenna"][0::2] = ants
            tb["Antenna"][1::2] = ants
            tb["Flag"][:] = 0
            bad = r.choice(128, 2, replace=False)  # rows
            for b in bad:
                tb["Flag"][2 * b : 2 * b + 2] = 1
            tiles = np.array(tb["Tile"][1::2])
            h[0].header["NCHANS"] = 24 * nfine
            width = h[0].header["FINECHAN"] * 1e3
            fc = h[0].header["FREQCENT"] * 1e6
            h.writeto(meta)
        raws = {}
        names = [meta]
        for fn in files:
            src = DD + "1131733552_20151116182537_mini_gpubox01_00.fits"
            with fits.open(src) as h:
                hs = [h[0].copy()]
                t0 = h[1].header["TIME"]
                for t in range(ntimes):
                    if gap and t == 1 and fn == files[1]:
                        continue
                    raw = r.integers(-5000, 5000, (nfine, 66048)).astype(np.int32) * 2 + 1
                    im = fits.ImageHDU(raw)
                    im.header["TIME"], im.header["MILLITIM"], im.header["INTTIME"], im.header["MARKER"] = t0 + (t // 2), 500 * (t % 2), 0.5, t
                    raws[fn, t] = raw.astype(float).view(complex)
                    hs.append(im)
                p = os.path.join(d, f"1131733552_20151116182537_mini_gpubox{fn:02d}_00.fits")
                fits.HDUList(hs).writeto(p)
                names.append(p)
        r.shuffle(names)
        with mock.patch.object(mwa_corr_fits.Telescope, "from_known_telescopes", lambda *a, **k: mwa_tel()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u = UVData()
            u.read(list(names), correct_cable_len=False, correct_van_vleck=False, remove_coarse_band=False, remove_dig_gains=False, flag_init=False, remove_flagged_ants=False,
                   phase_to_pointing_center=False, data_array_dtype=np.complex128, fix_autos=False, run_check=False, propagate_coarse_flags=False, use_aoflagger_flags=False)
    finally:
        shutil.rmtree(d)
    tab = _corr_fits.input_output_mapping()
    nt = ntimes
    n = 128 * 129 // 2
    E.ensure("shape", u.data_array.shape == (n * nt, nfine * len(files), 4))
    E.ensure("pols", list(u.polarization_array) == [-5, -6, -7, -8])
    # antenna `a` (the k-th of the sorted antenna column) is number tiles[row]; feed 0 is y, 1 is x; its input is 2 * row + feed
    row = np.empty(128, dtype=int)
    row[ants] = np.arange(128)
    num = tiles[row]
    E.ensure("antenna numbers", list(u.telescope.antenna_numbers) == list(num))
    order = list(np.argsort([(f if f <= 0 else 100 - f) for f in files]))  # channels above 128 are stored in descending file order
    ia, ib = np.triu_indices(128)
    E.ensure("labels", all(np.array_equal(np.tile(x, nt), y) for x, y in ((num[ia], u.ant_1_array), (num[ib], u.ant_2_array))))
    feed = {-5: (1, 1), -6: (0, 0), -7: (1, 0), -8: (0, 1)}
    out = np.array([tab[k] for k in range(256)])
    ok = okf = okn = True
    want_f = []
    for slot, o in enumerate(order):
        fn = files[o]
        # centre coarse channel (index 12) is at FREQCENT; coarse index of file f is 24 - f
        want_f.append(fc + (24 - fn - 12) * nfine * width + np.arange(nfine) * width)
        for t in range(nt):
            sl = slice(t * n, (t + 1) * n)
            for k, pol in enumerate(u.polarization_array):
                fa, fb = feed[pol]
                oa, ob = out[2 * row[ia] + fa], out[2 * row[ib] + fb]
                hi, lo = np.maximum(oa, ob), np.minimum(oa, ob)
                idx = 2 * (hi // 2) * (hi // 2 + 1) + 4 * (lo // 2) + 2 * (hi % 2) + lo % 2
                isbad = np.isin(row[ia], bad) | np.isin(row[ib], bad)
                for c in range(nfine):
                    got = u.data_array[sl, slot * nfine + c, k]
                    if (fn, t) not in raws:
                        ok &= bool(np.all(got == 0))
                        okf &= bool(np.all(u.flag_array[sl, slot * nfine + c, k]))
                        okn &= bool(np.all(u.nsample_array[sl, slot * nfine + c, k] == 0))
                        continue
                    v = raws[fn, t][c][idx]
                    v = np.where(ob > oa, np.conj(v), v)
                    ok &= bool(np.allclose(got, np.conj(v)))
                    okf &= bool(np.array_equal(u.flag_array[sl, slot * nfine + c, k], isbad))
                    okn &= bool(np.all(u.nsample_array[sl, slot * nfine + c, k] == 1))
    E.ensure("samples", ok)
    E.ensure("flags", okf)
    E.ensure("weights", okn)
    E.ensure("frequencies", np.allclose(u.freq_array, np.concatenate(want_f), rtol=0, atol=1e-3))


@contract("C18", mode="bounded", funcs=["pyuvdata/uvdata/corr_fits.pyx:get_cable_len_diffs", MW + "MWACorrFITS.correct_cable_length"], cases=80)
def cables(E):
    """Cable delays: electrical lengths are taken as they are, physical ones times the velocity factor; each record is rotated by its own difference."""
    from pyuvdata.uvdata import mwa_corr_fits

    r = np.random.default_rng(E.int("seed", lo=0, hi=10**6))
    na, nb, nf, nt = r.integers(1, 6), 0, r.integers(1, 4), r.integers(1, 3)
    lens, val = [], []
    for _ in range(na):
        x = round(float(r.uniform(-400, 900)), int(r.integers(0, 4)))
        if r.random() < 0.5:
            lens.append(f"EL_{x}")
            val.append(x)
        else:
            lens.append(f"{x}")
            val.append(x * float(np.float32(1.204)))
    i1, i2 = (np.tile(x, nt).astype(np.int64) for x in np.triu_indices(na))
    nb = len(i1)
    o = mwa_corr_fits.MWACorrFITS.__new__(mwa_corr_fits.MWACorrFITS)
    o.__dict__.update(_Nblts=None)

    class O:
        Nblts, Nfreqs, history = nb, nf, "h"
        freq_array = r.uniform(1e8, 2e8, nf)
        data_array = r.normal(size=(nb, nf, 4)) + 1j * r.normal(size=(nb, nf, 4))

    x = O()
    x.data_array = x.data_array.copy()
    mwa_corr_fits.MWACorrFITS.correct_cable_length(x, np.array(lens), i1, i2)
    val = np.array(val)
    delay = (val[i2] - val[i1]) / 299792458.0
    want = O.data_array * np.exp(-2j * np.pi * delay[:, None] * O.freq_array[None, :])[:, :, None]
    E.ensure("rotation", tol(x.data_array, want))


@contract("C18", mode="bounded", funcs=[MW + "sighat_vector", MW + "sighat_vector_prime", MW + "van_vleck_autos"], cases=40)
def autos_inverse(E):
    """sighat is the standard deviation after 15-level rounding; its derivative is its derivative; the correction inverts it above the cutoff and leaves smaller values."""
    from scipy.stats import norm
    from pyuvdata.uvdata import mwa_corr_fits as m

    r = np.random.default_rng(E.int("seed", lo=0, hi=10**6))
    s = r.uniform(0.3, 6, r.integers(1, 7))
    q = np.arange(-7, 8)
    lo, hi = np.r_[-np.inf, q[1:] - 0.5], np.r_[q[:-1] + 0.5, np.inf]
    p = norm.cdf(hi[:, None] / s) - norm.cdf(lo[:, None] / s)
    E.ensure("variance", tol(m.sighat_vector(s), np.sqrt((q[:, None] ** 2 * p).sum(0)), 1e-9))
    h = 1e-5
    E.ensure("derivative", tol(m.sighat_vector_prime(s), (m.sighat_vector(s + h) - m.sighat_vector(s - h)) / (2 * h), 1e-6))
    x = np.where(r.random(len(s)) < 0.3, r.uniform(0, 0.5, len(s)), m.sighat_vector(np.clip(s, 0.75, 5)))
    y = m.van_vleck_autos(x.copy())
    big = x > 0.5
    E.ensure("inverse", tol(m.sighat_vector(y[big]), x[big], 1e-8))
    E.ensure("small kept", np.array_equal(y[~big], x[~big]))


@contract("C18", mode="bounded", funcs=[MW + "corrcorrect_simps", MW + "van_vleck_crosses_int", MW + "van_vleck_crosses_cheby"], cases=40)
def crosses_inverse(E):
    """The cross correction inverts the quantized covariance for either sign; zero products and products of dead inputs are unchanged;
    the Chebyshev path agrees with the integral and handles every element by its own sigmas."""
    import h5py
    import warnings
    from pyuvdata.data import DATA_PATH
    from pyuvdata.uvdata import mwa_corr_fits as m

    r = np.random.default_rng(E.int("seed", lo=0, hi=10**6))
    n = int(r.integers(1, 8))
    s1, s2 = r.uniform(0.95, 4.4, (2, n))
    rho = r.uniform(0.02, 0.6, n)
    k = m.corrcorrect_simps(rho, s1, s2)
    sg = r.choice([-1, 1], n)
    kk = k * sg
    zero, dead = r.random(n) < 0.2, r.random(n) < 0.2
    kk[zero] = 0
    d1 = s1.copy()
    d1[dead] = 0
    want = np.where(zero | dead, kk, sg * rho * s1 * s2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = m.van_vleck_crosses_int(k_arr=kk.copy(), sig1_arr=d1, sig2_arr=s2, cheby_approx=False)
        E.ensure("inverse", tol(got, want, 1e-6))
        # complex values, part of them outside the table
        with h5py.File(DATA_PATH + "/mwa_config_data/Chebychev_coeff.h5", "r") as f:
            coeff = f["rho_data"][:]
        with h5py.File(DATA_PATH + "/mwa_config_data/sigma1.h5", "r") as f:
            vec = f["sig_data"][:]
        rr, ri = r.uniform(-0.3, 0.3, (2, n))
        one = lambda x: np.sign(x) * m.corrcorrect_simps(np.abs(x), s1, s2)
        kh = one(rr) + 1j * one(ri)
        broad = r.random(n) < 0.7
        i1, i2 = np.searchsorted(vec, s1), np.searchsorted(vec, s2)
        got = m.van_vleck_crosses_cheby(kh.copy(), s1, s2, broad, coeff, i1[broad], i2[broad], (vec[i1] - s1)[broad], (vec[i2] - s2)[broad], False)
    E.ensure("chebyshev", np.allclose(got, (rr + 1j * ri) * s1 * s2, rtol=0, atol=2e-3))
    E.ensure("integral part", tol(got[~broad], ((rr + 1j * ri) * s1 * s2)[~broad], 1e-6))


@contract("C18", funcs=[MW + "MWACorrFITS._correct_coarse_band"], cases=100, timeout=120)
def coarse_band(E):
    """Every sample of the coarse channel is divided by the gains of its two antennas and by the band shape at its own fine channel;
    the other coarse channels are untouched."""
    import types

    from pyuvdata.uvdata.mwa_corr_fits import MWACorrFITS

    nb, na, nf, nc, npol = E.dim("nblts", 1, 6), E.dim("nants", 1, 4), E.dim("fine", 1, 3), E.dim("coarse", 1, 4), E.dim("npols", 1, 4)
    cb = E.int("cb", 0) if E.mode == "sym" else E.int("cb", 0, nc - 1)
    E.assume(cb < nc)
    data = E.array("data", (nb, nc * nf, npol), "f", lo=None if E.mode == "sym" else -100, hi=None if E.mode == "sym" else 100)
    gains = E.array("gains", (na, nc), "f", lo=1, hi=50)
    shape = E.array("shape", (nf,), "f", lo=1, hi=50)
    i1, i2 = E.array("i1", (nb,), "i", lo=0, hi=na - 1), E.array("i2", (nb,), "i", lo=0, hi=na - 1)
    dg, rc = E.bool("dig"), E.bool("band")
    dg, rc = bool(dg), bool(rc)
    o = types.SimpleNamespace(data_array=data.copy())
    MWACorrFITS._correct_coarse_band(o, cb, i1, i2, shape, gains, 1, nf, False, rc, dg)

    def inside(b, f, p):
        x = E.at(data, b, cb * nf + f, p)
        y = E.at(o.data_array, b, cb * nf + f, p)
        if dg:
            y = y * E.at(gains, E.at(i1, b), cb) * E.at(gains, E.at(i2, b), cb)
        if rc:
            y = y * E.at(shape, f)
        return abs(y - x) <= 1e-9 * abs(x) if E.mode != "sym" else y == x

    E.ensure_all("corrected by its own gains and band shape", (nb, nf, npol), inside)
    E.ensure_all("other channels untouched", (nb, nc * nf, npol), lambda b, f, p: E.Or(E.And(cb * nf <= f, f < (cb + 1) * nf), E.at(o.data_array, b, f, p) == E.at(data, b, f, p)))


@contract("C18", mode="bounded", funcs=[MW + "MWACorrFITS.flag_init"], cases=150)
def routine_flags(E):
    """Flags are added exactly at the edge channels of every coarse channel, its central channel and the requested seconds at
    the start and the end; widths that are not whole channels or integrations are rejected."""
    import types

    from pyuvdata.uvdata.mwa_corr_fits import MWACorrFITS

    r = np.random.default_rng(E.int("seed", lo=0, hi=10**6))
    nf, nc, nt, nbl, npol = int(r.integers(1, 9)), int(r.integers(1, 4)), int(r.integers(1, 6)), int(r.integers(1, 5)), int(r.integers(1, 5))
    w, dt = float(r.choice([10e3, 40e3, 80e3])), float(r.choice([0.5, 1.0, 2.0]))
    f0 = r.random((nt * nbl, nf * nc, npol)) < 0.2
    o = types.SimpleNamespace(channel_width=np.full(nf * nc, w), integration_time=np.full(nt * nbl, dt), flag_array=f0.copy(), Ntimes=nt, Nbls=nbl, Nfreqs=nf * nc, Npols=npol)
    ne, ns, nn = int(r.integers(0, nf // 2 + 2)), int(r.integers(0, nt + 2)), int(r.integers(0, nt + 2))
    dc = bool(r.integers(0, 2))
    bad = E.choice("bad", [None] * 5 + ["edge", "start", "end"])
    edge, st, en = ne * w + (w / 4) * (bad == "edge"), ns * dt + (dt / 4) * (bad == "start"), nn * dt + (dt / 4) * (bad == "end")
    if bad:
        E.ensure("partial channels or integrations rejected", E.raises(ValueError, lambda: MWACorrFITS.flag_init(o, nf, edge_width=edge, start_flag=st, end_flag=en, flag_dc_offset=dc)))
        E.ensure("nothing flagged", np.array_equal(o.flag_array, f0))
        return
    MWACorrFITS.flag_init(o, nf, edge_width=edge, start_flag=st, end_flag=en, flag_dc_offset=dc)
    fine, t = np.arange(nf * nc) % nf, np.arange(nt * nbl) // nbl
    ch = (fine < ne) | (fine >= nf - ne) | (dc & (fine == nf // 2))
    tm = (t < ns) | (t >= nt - nn)
    E.ensure("exactly the edges, the centers and the ends", np.array_equal(o.flag_array, f0 | ch[None, :, None] | tm[:, None, None]), detail=(nf, nc, nt, nbl, ne, ns, nn, dc))


@contract("C18", mode="bounded", funcs=[MW + "MWACorrFITS._flag_small_auto_ants"], cases=150)
def small_autos(E):
    """Antennas whose autocorrelation is nonzero but at most the threshold are flagged: entirely when requested, otherwise every
    baseline of them at that time and channel."""
    import types

    from pyuvdata.uvdata.mwa_corr_fits import MWACorrFITS

    r = np.random.default_rng(E.int("seed", lo=0, hi=10**6))
    na, nt, nf, npol = int(r.integers(1, 5)), int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.choice([2, 4]))
    a1, a2 = np.triu_indices(na)
    nbl = len(a1)
    i1, i2 = np.tile(a1, nt), np.tile(a2, nt)
    ns = int(r.integers(1, 9)) * 4
    data = (r.choice([0.0, 0.25 * ns, 0.1 * ns, ns, 3.0 * ns], p=[0.1, 0.1, 0.1, 0.35, 0.35], size=(nt * nbl, nf, npol)) + 0j)
    f0 = r.random(data.shape) < 0.2
    num = np.sort(r.choice(20, na, replace=False))
    o = types.SimpleNamespace(ant_1_array=num[i1], ant_2_array=num[i2], data_array=data.copy(), flag_array=f0.copy(), Ntimes=nt, Nants_data=na, Nfreqs=nf, Nbls=nbl, Nblts=nt * nbl, history="")
    whole = bool(r.integers(0, 2))
    before = np.sort(r.choice(na, int(r.integers(0, na + 1)), replace=False))
    got = MWACorrFITS._flag_small_auto_ants(o, nsamples=ns, flag_small_auto_ants=whole, ant_1_inds=i1, ant_2_inds=i2, flagged_ant_inds=before.copy())
    small = np.zeros((nt, na, nf), bool)
    for k in range(nt * nbl):
        if i1[k] == i2[k]:
            x = data[k, :, :2].real
            small[k // nbl, i1[k]] = ((x != 0) & (x <= 0.25 * ns)).any(-1)
    if whole:
        E.ensure("antennas flagged", sorted(got) == sorted(set(before) | set(np.nonzero(small.any((0, 2)))[0])), detail=(got, before))
        E.ensure("samples untouched", np.array_equal(o.flag_array, f0))
    else:
        want = f0.copy()
        for k in range(nt * nbl):
            want[k] |= (small[k // nbl, i1[k]] | small[k // nbl, i2[k]])[:, None]
        E.ensure("samples flagged", np.array_equal(o.flag_array, want))
        E.ensure("antennas kept", np.array_equal(got, before))
    E.ensure("data untouched", np.array_equal(o.data_array, data))
