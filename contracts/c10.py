"""C10 applying calibrations."""
import warnings

import numpy as np
from pvc.reg import contract
from contracts import gen

M = "pyuvdata.utils.uvcalibrate:"
DT = 10.0 / 86400
# receiving feed of each polarization: (feed of first antenna, feed of second antenna) as Jones numbers of the diagonal term
FEEDS = {-1: (-1, -1), -2: (-2, -2), -3: (-1, -2), -4: (-2, -1), -5: (-5, -5), -6: (-6, -6), -7: (-5, -6), -8: (-6, -5)}


def pair_of_objects(E, wide=False):
    """A visibility object and a calibration for it, stored in unrelated axis orders."""
    r = E.np_rng
    uv = gen.uvdata(E, fams=("lin", "circ"), phase=False, both=True, phys=False, eq=False, scan=False)
    uv.telescope.x_orientation = E.choice("uvx", ["east", "north"])
    # calibration telescope: same names, own order and possibly own numbers
    n = uv.telescope.Nants
    perm = r.permutation(n) if E.choice("antperm", [False, True]) else np.arange(n)
    tel = uv.telescope.copy()
    for a in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
        v = getattr(tel, a)
        if v is not None:
            setattr(tel, a, v[perm])
    if E.choice("renumber", [False, False, True]):
        tel.antenna_numbers = r.choice(np.arange(50, 90), size=n, replace=False)
    cx = E.choice("calx", ["same", "same", "other"])
    tel.x_orientation = uv.telescope.x_orientation if cx == "same" else {"east": "north", "north": "east"}[uv.telescope.x_orientation]
    used = set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist())
    name_of = dict(zip(uv.telescope.antenna_numbers.tolist(), uv.telescope.antenna_names.tolist()))
    num_of = dict(zip(tel.antenna_names.tolist(), tel.antenna_numbers.tolist()))
    ants = [num_of[name_of[a]] for a in used]
    miss = E.choice("missing", [False, False, True])
    if miss:
        ants = ants[: r.integers(0, len(ants) + 1)]
    extra = [x for x in tel.antenna_numbers.tolist() if x not in [num_of[name_of[a]] for a in used]]
    if len(ants) == 0 and not extra:
        ants = [num_of[name_of[next(iter(used))]]]
    if extra and (len(ants) == 0 or E.choice("extra", [True, False])):
        ants = ants + extra
    ants = [ants[i] for i in r.permutation(len(ants))]
    # frequencies: same, reordered, or a superset
    f, w, ids, spws = uv.freq_array, uv.channel_width, uv.flex_spw_id_array, uv.spw_array
    fk = E.choice("cal_freqs", ["same", "same", "perm", "super"])
    if fk == "super":
        m = E.dim("morefreq", 1, 2)
        f = np.concatenate([f, 3.0e8 + 1e5 * np.arange(m)])
        w = np.concatenate([w, np.full(m, 1e5)])
        ids = np.concatenate([ids, np.full(m, ids[-1])])
    if fk in ("perm", "super"):
        o = np.concatenate([r.permutation(np.nonzero(ids == s)[0]) for s in r.permutation(spws)])
        f, w, ids = f[o], w[o], ids[o]
    # times: one, exactly those of the data, reordered, or a superset
    ut = np.unique(uv.time_array)
    tk = E.choice("cal_times", ["one", "same", "same", "perm", "super", "range", "range1"])
    kind = "array"
    if tk == "one":
        tt = np.array([ut.mean()])
    elif tk in ("range", "range1"):
        kind = "range"
        tt = ut if tk == "range" else np.array([ut.mean()])
        if E.choice("rperm", [False, True]):
            tt = tt[r.permutation(len(tt))]
    else:
        tt = ut if tk != "super" else np.concatenate([ut, ut.max() + DT * np.arange(1, 3)])
        if tk != "same":
            tt = tt[r.permutation(len(tt))]
    need = sorted({j for p in uv.polarization_array.tolist() for j in FEEDS[p]})
    fam = gen.FAMS["lin" if need[0] < -4 else "circ"]
    if cx == "other" and need[0] < -4:
        need = sorted({{-5: -6, -6: -5}[j] for j in need})
    jones = need + [j for j in fam if j not in need][: E.choice("morej", [0, 0, 1, 2])]
    jones = [jones[i] for i in r.permutation(len(jones))]
    c = gen.uvcal(E, kind="gain", tel=tel, ants=ants, fr=(f, w, ids, np.unique(ids)), times=tt, time_kind=kind, jones=jones)
    c.flag_array = r.random(c.flag_array.shape) < E.choice("calflags", [0.0, 0.2])
    if tk == "range1":
        c.time_range = np.array([[ut.min() - DT, ut.max() + DT]])
    if kind == "range" or tk == "one":
        c.set_lsts_from_time_array() if kind == "array" else None
    c.pol_convention = E.choice("cconv", ["sum", "avg"])
    c.gain_scale = E.choice("scale", ["Jy", "Jy", None])
    if E.choice("zero", [False, False, True]):
        c.gain_array[tuple(r.integers(s) for s in c.gain_array.shape)] = 0
    return uv, c, tk, name_of, num_of


def expected(uv, c, tk, name_of, num_of, divide, flip, prop):
    d, fl = uv.data_array.copy(), uv.flag_array.copy()
    fi = [int(np.argmin(np.abs(c.freq_array - x))) for x in uv.freq_array]
    swap = uv.telescope.x_orientation != c.telescope.x_orientation
    for b in range(uv.Nblts):
        if tk in ("one", "range1"):
            ti = 0
        elif tk == "range":
            ti = int(np.nonzero((c.time_range[:, 0] <= uv.time_array[b]) & (uv.time_array[b] <= c.time_range[:, 1]))[0][0])
        else:
            ti = int(np.argmin(np.abs(c.time_array - uv.time_array[b])))
        n1, n2 = (num_of[name_of[int(x)]] for x in (uv.ant_1_array[b], uv.ant_2_array[b]))
        for p, pol in enumerate(uv.polarization_array.tolist()):
            j1, j2 = FEEDS[pol]
            if swap and pol < -4:
                j1, j2 = ({-5: -6, -6: -5}[x] for x in (j1, j2))
            if n1 not in c.ant_array or n2 not in c.ant_array:
                fl[b, :, p] = True
                continue
            a1, a2 = (int(np.nonzero(c.ant_array == x)[0][0]) for x in (n1, n2))
            q1, q2 = (int(np.nonzero(c.jones_array == x)[0][0]) for x in (j1, j2))
            for k, f in enumerate(fi):
                g1, g2 = c.gain_array[a1, f, ti, q1], c.gain_array[a2, f, ti, q2]
                g = np.conj(g1) * g2 if flip else g1 * np.conj(g2)
                bad = c.flag_array[a1, f, ti, q1] or c.flag_array[a2, f, ti, q2] or abs(g) <= 1e-8
                if prop and bad:
                    fl[b, k, p] = True
                    continue
                d[b, k, p] = d[b, k, p] / g if divide else d[b, k, p] * g
    return d, fl


@contract("C10", funcs=[M + "uvcalibrate", M + "_get_pol_conventions", M + "_apply_pol_convention_corrections"], mode="bounded", cases=500, conc_tl=150)
def apply_gains(E):
    """Every visibility is divided (multiplied) by the gains of its own antennas, feeds, channel and time."""
    from pyuvdata import utils

    uv, c, tk, name_of, num_of = pair_of_objects(E)
    flip = E.choice("flip", [False, False, True])
    prop = E.choice("prop", [True, True, False])
    if not prop:
        c.gain_array[c.gain_array == 0] = 1.0
    dconv = E.choice("dconv", [None, "sum", "avg"])
    nums = set(c.ant_array.tolist())
    need = {num_of[name_of[int(x)]] for x in set(uv.ant_1_array) | set(uv.ant_2_array)}
    missing = not need <= nums
    kw = dict(prop_flags=prop, flip_gain_conj=flip, time_check=False, uvd_pol_convention=dconv)
    old, cold = gen.snap(uv), gen.snap(c)
    if missing:
        E.ensure("missing antennas rejected by default", E.raises(ValueError, lambda: utils.uvcalibrate(uv, c, inplace=False, **kw)))
    divide = c.gain_convention == "divide"
    with np.errstate(all="ignore"):
        wd, wf = expected(uv, c, tk, name_of, num_of, divide, flip, prop)
    fac = 1.0
    conv = dconv or c.pol_convention
    if c.gain_scale is not None and conv != c.pol_convention:
        fac = 0.5 if c.pol_convention == "avg" else 2.0
    inplace = E.choice("inplace", [True, False])
    with np.errstate(all="ignore"):
        out = utils.uvcalibrate(uv, c, inplace=inplace, ant_check=False, **kw)
    if inplace:
        E.ensure("in place returns nothing", out is None)
        out = uv
    else:
        gen.unchanged(E, "input visibilities", old, uv)
    gen.unchanged(E, "calibration", cold, c)
    E.ensure("calibrated visibilities", np.allclose(out.data_array, wd * fac, rtol=1e-10, atol=0, equal_nan=True), detail=(tk, divide, flip, prop, fac))
    E.ensure("flags: union of own flags and gain flags", np.array_equal(out.flag_array, wf))
    E.ensure("units", out.vis_units == (c.gain_scale or old["vis_units"]))
    E.ensure("polarization convention", out.pol_convention == (conv if c.gain_scale is not None else old["pol_convention"]))
    gen.unchanged(E, "other", old, out, skip=("data_array", "flag_array", "vis_units", "pol_convention", "history"))
    if prop and c.gain_scale is None or missing:
        return
    f1 = out.flag_array.copy()
    kw2 = dict(kw, uvd_pol_convention=None)
    if c.gain_scale is None:
        return
    utils.uvcalibrate(out, c, ant_check=False, undo=True, **kw2)
    E.ensure("undo restores the visibilities", np.allclose(out.data_array, old["data_array"], rtol=1e-9, atol=0), detail=(tk, divide, flip, prop, fac))
    E.ensure("undo keeps the flags", np.array_equal(out.flag_array, f1))
    E.ensure("undo restores the units", out.vis_units == "uncalib" and out.pol_convention is None)


@contract("C10", funcs=[M + "uvcalibrate"], mode="bounded", cases=200)
def mismatches_rejected(E):
    """Times, channels or feeds of the data without a gain are rejected, and nothing is changed."""
    from pyuvdata import utils

    uv, c, tk, name_of, num_of = pair_of_objects(E)
    how = E.choice("how", ["time", "freq", "feed", "calibrated", "stokes"])
    r = E.np_rng
    if how == "time":
        E.assume(tk in ("same", "perm", "super", "range") and c.Ntimes > 1)
        t = uv.time_array.copy()
        t[uv.time_array == uv.time_array[r.integers(uv.Nblts)]] += 0.45 * DT
        uv.time_array = t
        uv.set_lsts_from_time_array()
    elif how == "freq":
        c.freq_array = c.freq_array.copy()
        k = int(np.argmin(np.abs(c.freq_array - uv.freq_array[r.integers(uv.Nfreqs)])))
        c.freq_array[k] += 4.3e4
    elif how == "feed":
        need = sorted({j for p in uv.polarization_array.tolist() for j in FEEDS[p]})
        swap = uv.telescope.x_orientation != c.telescope.x_orientation and need[0] < -4
        j = need[r.integers(len(need))]
        j = {-5: -6, -6: -5}[j] if swap else j
        fam = gen.FAMS["lin" if need[0] < -4 else "circ"]
        free = [x for x in fam if x not in c.jones_array and x != j]
        E.assume(len(free) > 0)
        c.jones_array = np.where(c.jones_array == j, free[0], c.jones_array)
    elif how == "calibrated":
        uv.pol_convention = "avg"
    else:
        E.assume(uv.Npols <= 4)
        uv.polarization_array = np.arange(1, uv.Npols + 1)
    old, cold = gen.snap(uv), gen.snap(c)
    E.ensure(f"{how} mismatch rejected", E.raises((ValueError, NotImplementedError), lambda: utils.uvcalibrate(uv, c, ant_check=False)))
    gen.unchanged(E, "rejected: visibilities", old, uv)
    gen.unchanged(E, "rejected: calibration", cold, c)


def np_isclose(E, g):
    import pvc.snp as snp

    return snp.function_call("isclose", (g, 0.0), {}) if E.mode == "sym" else bool(np.isclose(g, 0.0))


def cal_contract(E, flip, prop, axes):
    """uvcalibrate for any number of records, channels and gain times; a fixed antenna table and polarization list.

    The loop over keys is checked for every (antenna pair, polarization) of the table: get_antpairpols lists the pairs that
    occur (proved/executed under C06), antpair2ind gives exactly their records (C06); both are used by contract."""
    from pyuvdata import UVCal, UVData
    from pyuvdata.utils.uvcalibrate import uvcalibrate

    n = E.dim("Nblts", 2 if axes != "one" else 1, 5)
    nf = E.dim("Nfreqs", 1, 4) if axes == "one" else 2
    nums, names = [0, 1], ["A", "B"]
    E.opaque()
    pols = np.array([-7, -5])
    uv, c = UVData(), UVCal()
    for t in (uv.telescope, c.telescope):
        t.x_orientation = "east"
    uv.telescope.antenna_numbers, uv.telescope.antenna_names = E.lit(np.array(nums)), E.lit(np.array(names))
    cnums = [1, 5, 0] if E.mode == "sym" else E.choice("cnums", [[1, 5, 0], [3, 5, 8], [0, 5, 1]])
    c.telescope.antenna_numbers, c.telescope.antenna_names = E.lit(np.array(cnums)), E.lit(np.array(["A", "C", "B"]))
    c.ant_array = np.array([cnums[2], cnums[0]])  # B, A
    i1, i2 = E.array("i1", (n,), "i", lo=0, hi=1), E.array("i2", (n,), "i", lo=0, hi=1)
    if E.mode != "sym":
        i1[E.np_rng.integers(n)], i2[E.np_rng.integers(n)] = 0, 1
    uv.ant_1_array, uv.ant_2_array = i1, i2
    E.assume(E.at(i1, E.int("r0", 0, n - 1)) == 0 if E.mode == "sym" else True)
    E.assume(E.at(i2, E.int("r1", 0, n - 1)) == 1 if E.mode == "sym" else True)
    uv.polarization_array, uv.Npols = pols, 2
    c.jones_array, c.Njones = np.array([-6, -5]), 2
    uv.Nblts, uv.Nfreqs = n, nf
    uv.data_array = E.array("data", (n, nf, 2), "c")
    uv.flag_array = E.array("flags", (n, nf, 2), "b")
    d0, f0 = E.old(uv.data_array), E.old(uv.flag_array)
    uv.freq_array = E.array("freq", (nf,), "f", lo=10**8, hi=2 * 10**8, distinct=True)
    c.Nfreqs = nf
    if axes == "one":  # one gain time, channels stored alike
        uv.time_array = E.array("time", (n,), "f", lo=2455000, hi=2465000)
        c.freq_array, fx = uv.freq_array, (lambda f: f)
        ct, gt = 1, (lambda b: 0)
        c.time_array = E.array("ctime", (1,), "f", lo=2455000, hi=2465000)
    else:  # two channels and two gain times stored in the opposite order
        E.assume(E.Or(E.at(uv.freq_array, 0) > E.at(uv.freq_array, 1) + 1, E.at(uv.freq_array, 1) > E.at(uv.freq_array, 0) + 1))
        c.freq_array, fx = uv.freq_array[::-1], (lambda f: 1 - f)
        T = E.array("T", (2,), "f", lo=2455000, hi=2465000)
        if E.mode != "sym":
            T = 2455000.0 + np.sort(E.np_rng.choice(999, 2, replace=False)) * 2
        E.assume(E.at(T, 0) + 1 < E.at(T, 1))
        it = E.array("it", (n,), "i", lo=0, hi=1)
        if E.mode != "sym":
            it[E.np_rng.permutation(n)[:2]] = [0, 1]
        else:
            E.assume(E.at(it, E.int("r2", 0, n - 1)) == 0)
            E.assume(E.at(it, E.int("r3", 0, n - 1)) == 1)
        uv.time_array = T[it]
        ct, gt = 2, (lambda b: 1 - E.at(it, b))
        if axes == "range":
            c.time_range = E.array("trange", (2, 2), "f")
            if E.mode != "sym":
                c.time_range = np.stack([T[::-1] - 0.3, T[::-1] + 0.3], axis=1)
            for k in (0, 1):
                E.assume(E.And(E.at(c.time_range, k, 0) < E.at(T, 1 - k), E.at(T, 1 - k) < E.at(c.time_range, k, 1)))
            E.assume(E.at(c.time_range, 1, 1) < E.at(c.time_range, 0, 0))
        else:
            c.time_array = T[::-1]
    uv.Ntimes = c.Ntimes = ct
    c.gain_array = E.array("gain", (2, nf, ct, 2), "c")
    c.flag_array = E.array("gflag", (2, nf, ct, 2), "b")
    g0, gf0 = E.old(c.gain_array), E.old(c.flag_array)
    c.cal_type, c.gain_scale, c.wide_band = "gain", None, False
    c.gain_convention = E.choice("gconv", ["divide", "multiply"])
    c.pol_convention = "avg"
    uv.check = c.check = lambda *a, **k: True
    uv.history = ""
    undo = E.choice("undo", [False, True]) if axes == "one" else False
    uv.get_antpairpols = lambda: [(a, b, p) for a in nums for b in nums for p in ("xy", "xx")]
    uv.antpair2ind = lambda key: E.where([n], lambda i: E.And(E.at(uv.ant_1_array, i) == key[0], E.at(uv.ant_2_array, i) == key[1]))
    uvcalibrate(uv, c, prop_flags=prop, flip_gain_conj=flip, undo=undo, time_check=False, uvd_pol_convention="avg")
    divide = (c.gain_convention == "divide") != undo
    ji = {-7: (1, 0), -5: (1, 1)}  # feeds of the two antennas as positions on the Jones axis
    for p, pol in enumerate([-7, -5]):
        q1, q2 = ji[pol]
        for a1 in (0, 1):
            for a2 in (0, 1):
                def parts(b, f):
                    t = gt(b)
                    x1, x2 = 1 - a1, 1 - a2  # positions on the gain axis
                    g1, g2 = E.at(g0, x1, fx(f), t, q1), E.at(g0, x2, fx(f), t, q2)
                    g = g1.conjugate() * g2 if flip else g1 * g2.conjugate()
                    bad = E.Or(E.at(gf0, x1, fx(f), t, q1), E.at(gf0, x2, fx(f), t, q2), np_isclose(E, g)) if prop else False
                    return E.And(E.at(i1, b) == a1, E.at(i2, b) == a2), g, bad

                def value(b, f):
                    mine, g, bad = parts(b, f)
                    new, old = E.at(uv.data_array, b, f, p), E.at(d0, b, f, p)
                    cal = old / g if divide else old * g
                    return E.Implies(mine, E.And(E.Implies(bad, E.eq(new, old)), E.Implies(E.Not(bad), E.eq(new, cal))))

                def flags(b, f):
                    mine, g, bad = parts(b, f)
                    return E.Implies(mine, E.Iff(E.at(uv.flag_array, b, f, p), E.Or(E.at(f0, b, f, p), bad)))

                E.ensure_all(f"pol {pol}, antennas {a1},{a2}: own gains applied", [n, nf], value)
                E.ensure_all(f"pol {pol}, antennas {a1},{a2}: own flags and gain flags", [n, nf], flags)
    E.ensure("gains untouched", E.same_array(c.gain_array, g0))
    E.ensure("gain flags untouched", E.same_array(c.flag_array, gf0))


for _axes in ("one", "reorder"):
    for _flip in (False, True):
        for _prop in (False, True):
            if _axes != "one" and (_flip or _prop):
                continue
            contract("C10", funcs=[M + "uvcalibrate", M + "_match_axis", "pyuvdata.uvcal.uvcal:UVCal.get_gains", "pyuvdata.uvcal.uvcal:UVCal._slice_array"], cases=25, timeout=300,
                     name=f"gains_{_axes}{'_flip' if _flip else ''}{'_prop' if _prop else ''}")(
                lambda E, f=_flip, p=_prop, a=_axes: cal_contract(E, f, p, a))


@contract("C10", funcs=[M + "_get_pol_conventions", M + "_apply_pol_convention_corrections"], cases=300)
def conventions(E):
    """Which conventions are used, and the factor between them, for every combination of what the objects and the caller
    say (all 4*4*3*3*2 combinations) and every visibility array."""
    from types import SimpleNamespace

    import importlib

    mod = importlib.import_module("pyuvdata.utils.uvcalibrate")
    C = [None, "sum", "avg"]
    undo = E.choice("undo", [False, True])
    ca, da = E.choice("uvc argument", C + ["other"]), E.choice("uvd argument", C + ["other"])
    cc, dc = E.choice("uvcal says", C), E.choice("uvdata says", C)
    n, m = E.dim("nblt", 1, 3), E.dim("nfreq", 1, 3)
    npol = E.choice("npol", [1, 4])
    data = E.array("data", (n, m, npol), "c")
    uv, cal = SimpleNamespace(pol_convention=dc, data_array=data, Npols=npol), SimpleNamespace(pol_convention=cc)
    old = E.old(data)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = []
        bad = E.raises(ValueError, lambda: out.append(mod._get_pol_conventions(uv, cal, undo, ca, da)))
    clash = (ca is not None and cc is not None and ca != cc) or (undo and da is not None and dc is not None and da != dc)
    E.ensure("refused exactly if they contradict each other, are no conventions, or the data are calibrated already",
             bad == (clash or "other" in (ca, da) or (not undo and dc is not None)))
    E.ensure("objects keep their convention", uv.pol_convention == dc and cal.pol_convention == cc)
    if bad:
        return
    c, d = out[0]
    known_c, known_d = ca or cc, da or (dc if undo else None)
    E.ensure("gains: what the caller or the object says, else that of the data", c == (known_c or known_d))
    E.ensure("data: what the caller or (when undoing) the object says, else that of the gains", d == (known_d or known_c))
    mod._apply_pol_convention_corrections(uv, undo, c, d)
    # I = (XX + YY) / 2 under "avg", I = XX + YY under "sum": the same sky is half as large under "sum"
    f = {None: 1, "sum": 1, "avg": 2}
    num, den = (f[c], f[d]) if undo else (f[d], f[c])
    E.ensure("visibilities are rescaled from one convention to the other",
             E.forall((n, m), lambda i, k: E.And(*[E.at(uv.data_array, i, k, p) * den == E.at(old, i, k, p) * num for p in range(npol)])))
    E.ensure("label", uv.pol_convention == (None if undo else d))
