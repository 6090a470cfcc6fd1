"""Concrete generators of complete, valid objects (used by bounded contracts on public API calls)."""
from __future__ import annotations

import itertools

import numpy as np

from contracts.objs import location

FAMS = {"lin": [-5, -6, -7, -8], "circ": [-1, -2, -3, -4], "stokes": [1, 2, 3, 4]}
JD0 = 2458661.3


def telescope(E, tel, nant=None, numbers=None, xori=True):
    r = E.np_rng
    nant = nant or E.dim("nant", 3, 5)
    if numbers is None:
        numbers = r.choice(np.arange(0, 40), size=nant, replace=False)
        if E.choice("ant_order", ["any", "sorted"]) == "sorted":
            numbers = np.sort(numbers)
    from pyuvdata import utils

    loc = location()
    enu = np.zeros((nant, 3))
    enu[:, :2] = r.uniform(-100, 100, (nant, 2))
    enu[:, 2] = r.uniform(-2, 2, nant)
    ecef = utils.ECEF_from_ENU(enu, center_loc=loc)
    tel.name = "vtel"
    tel.location = loc
    tel.antenna_numbers = np.asarray(numbers, dtype=np.int64)
    tel.antenna_names = np.array([f"A{n:03d}" for n in numbers])
    tel.antenna_positions = ecef - np.array([loc.x.value, loc.y.value, loc.z.value])
    tel.antenna_diameters = r.uniform(5, 15, nant) if E.choice("diam", [True, False]) else None
    tel.Nants = nant
    tel.instrument = "vinst"
    if xori:
        tel.x_orientation = E.choice("xori", ["east", "north"])
    return tel


def freqs(E, obj, nspw=None, maxper=3, decreasing=True, contiguous=True, same=False):
    nspw = nspw or E.dim("nspw", 1, 2)
    spws = E.np_rng.choice(np.arange(0, 9), size=nspw, replace=False)
    f, w, ids = [], [], []
    order = E.np_rng.permutation(nspw)
    for j, s in zip(order, spws):
        n = n if same and f else E.dim(f"nf{j}", 1, maxper)
        cw = float(E.np_rng.integers(1, 5)) * 1e5
        x = 1.0e8 + 2e7 * j + cw * np.arange(n)
        if decreasing and E.choice(f"fdir{j}", [False, False, True]):
            x = x[::-1]
        f.append(x)
        w.append(np.full(n, cw))
        ids.append(np.full(n, s))
    return np.concatenate(f), np.concatenate(w), np.concatenate(ids).astype(np.int64), np.asarray(spws, dtype=np.int64)


def uvdata(E, phase=True, autos=True, grid=None, maxtimes=3, nspw=None, fams=("lin", "circ", "stokes"), npols=None, order=None,
           npc=None, numbers=None, phys=True, scan=True, eq=True, maxbl=5, nant=None, decreasing=True, maxper=3, same_int=False, orient=True, both=False, unproj=True, samenf=False):
    from pyuvdata import UVData

    r = E.np_rng
    uv = UVData()
    telescope(E, uv.telescope, numbers=numbers, nant=nant)
    ants = uv.telescope.antenna_numbers
    pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i + (0 if autos else 1):]]
    nbl = min(len(pairs), E.dim("nbl", 1, maxbl))
    pairs = [pairs[i] for i in r.permutation(len(pairs))[:nbl]]
    if orient:
        pairs = [p if r.random() < 0.5 else p[::-1] for p in pairs]
    if both and E.choice("both", [True, False]):
        pairs += [p[::-1] for p in pairs if p[0] != p[1] and r.random() < 0.6]
    nt = E.dim("ntimes", 1, maxtimes)
    dt = 10.0 / 86400
    times = JD0 + dt * np.arange(nt)
    recs = [(t, p) for t in times for p in pairs]
    g = grid if grid is not None else E.choice("grid", ["full", "gaps"])
    if g == "gaps" and len(recs) > 1:
        keep = r.random(len(recs)) < 0.7
        keep[r.integers(len(recs))] = True
        recs = [x for x, k in zip(recs, keep) if k]
    o = order or E.choice("order", ["time", "bl", "any", "revtime"])
    if o == "bl":
        recs.sort(key=lambda x: (pairs.index(x[1]), x[0]))
    elif o == "any":
        recs = [recs[i] for i in r.permutation(len(recs))]
    elif o == "revtime":
        recs = recs[::-1]
    n = len(recs)
    uv.Nblts = n
    uv.time_array = np.array([x[0] for x in recs])
    uv.ant_1_array = np.array([x[1][0] for x in recs], dtype=np.int64)
    uv.ant_2_array = np.array([x[1][1] for x in recs], dtype=np.int64)
    uv.baseline_array = uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)
    uv.Nbls = len(np.unique(uv.baseline_array))
    uv.Ntimes = len(np.unique(uv.time_array))
    uv.Nants_data = len(set(uv.ant_1_array) | set(uv.ant_2_array))
    if same_int:
        uv.integration_time = np.full(n, 10.0)
    else:
        bi = {p: v for p, v in zip(pairs, r.choice([10.0, 10.0, 20.0, 30.0], size=len(pairs)))}
        uv.integration_time = np.array([bi[x[1]] for x in recs])
    uv.freq_array, uv.channel_width, uv.flex_spw_id_array, uv.spw_array = freqs(E, uv, nspw, decreasing=decreasing, maxper=maxper, same=samenf)
    uv.Nfreqs, uv.Nspws = len(uv.freq_array), len(uv.spw_array)
    fam = FAMS[E.choice("fam", list(fams))]
    np_ = npols or E.dim("npols", 1, 4)
    if np_ == 4 or not phys:
        pols = [fam[i] for i in r.permutation(4)[:np_]]
    elif np_ == 2:
        a = [(0, 1), (2, 3)][E.choice("polpair", [0, 1])]
        pols = [fam[a[i]] for i in r.permutation(2)]
    elif np_ == 3:
        pols = [fam[i] for i in r.permutation(3)]
    else:
        pols = [fam[r.integers(2)]]
    uv.polarization_array = np.array(pols, dtype=np.int64)
    uv.Npols = len(pols)
    uv.data_array = r.normal(size=(n, uv.Nfreqs, uv.Npols)) + 1j * r.normal(size=(n, uv.Nfreqs, uv.Npols))
    par = np.isin(uv.polarization_array, [-1, -2, -5, -6, 1, 2, 3, 4])
    au = uv.ant_1_array == uv.ant_2_array
    if au.any():
        d = uv.data_array[au]
        d[:, :, par] = np.abs(d[:, :, par])
        uv.data_array[au] = d
    uv.flag_array = r.random(uv.data_array.shape) < r.choice([0.1, 0.3, 0.6])
    uv.nsample_array = r.integers(1, 9, size=uv.data_array.shape) / 2.0
    k = npc or E.dim("npc", 1, 2)
    uv.Nphase = 0
    for i in range(k):
        if phase and (not unproj or E.choice(f"pctype{i}", ["sidereal", "unprojected"]) == "sidereal"):
            uv._add_phase_center(f"src{i}", cat_type="sidereal", cat_lon=float(r.uniform(0, 6.2)), cat_lat=float(r.uniform(-0.9, 0.3)), cat_frame="icrs", cat_epoch=2000.0, info_source="x")
        else:
            uv._add_phase_center(f"zen{i}", cat_type="unprojected", info_source="x")
    ids = np.array(sorted(uv.phase_center_catalog))
    uv.phase_center_id_array = ids[r.integers(len(ids), size=n)]
    uv.phase_center_app_ra = np.zeros(n)
    uv.phase_center_app_dec = np.zeros(n)
    uv.phase_center_frame_pa = np.zeros(n)
    uv.lst_array = np.zeros(n)
    uv.set_lsts_from_time_array()
    uv._set_app_coords_helper()
    uv.uvw_array = np.zeros((n, 3))
    uv.set_uvws_from_antenna_positions(update_vis=False)
    uv.uvw_array[au] = 0
    if scan and E.choice("scan", [True, False]):
        uv.scan_number_array = r.integers(0, 3, size=n)
    if eq and E.choice("eq", [True, False]):
        uv.eq_coeffs = r.uniform(1, 2, size=(uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = "divide"
    uv.history = "made by verif"
    uv.vis_units = "uncalib"
    uv.set_rectangularity(force=True)
    uv.extra_keywords = {"KEYA": 1, "KEYB": "s"}
    return uv


def snap(obj):
    """Deep snapshot of every parameter value of an object (and its telescope)."""
    import copy

    out = {}
    for o, pre in ((obj, ""), (getattr(obj, "telescope", None), "tel.")):
        if o is None:
            continue
        for p in o:
            par = getattr(o, p)
            if par.name == "telescope":
                continue
            out[pre + par.name] = copy.deepcopy(par.value)
    return out


def val_eq(a, b, tol=None):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(val_eq(a[k], b[k], tol) for k in a)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return a == b
    if isinstance(a, (list, tuple)) and any(isinstance(x, (list, tuple, np.ndarray, dict)) for x in a):
        return len(a) == len(b) and all(val_eq(x, y, tol) for x, y in zip(a, b))
    try:
        x, y = np.asarray(a), np.asarray(b)
    except Exception:
        return a == b
    if x.dtype == object or y.dtype == object:
        return bool(np.all(a == b))
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        if x.dtype.kind in "US" or y.dtype.kind in "US":
            return False
        if tol is None:
            return bool(np.array_equal(x, y, equal_nan=True))
        return bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))
    return bool(np.array_equal(x, y))


def unchanged(E, name, before, obj, skip=()):
    after = snap(obj)
    for k in before:
        if k not in skip:
            E.ensure(f"{name}: {k} unchanged", val_eq(before[k], after[k]), detail=(k, str(before[k])[:200], str(after[k])[:200]))


BLT = ["time_array", "lst_array", "integration_time", "ant_1_array", "ant_2_array", "baseline_array", "uvw_array", "phase_center_id_array",
       "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "scan_number_array"]
FREQ = ["freq_array", "channel_width", "flex_spw_id_array"]
VIS = ["data_array", "flag_array", "nsample_array"]


def expect_uvdata(E, uv, old, bi, fi, pi, spw=None, what="", exact=True):
    """uv holds exactly the records bi, channels fi, pols pi of the snapshot `old`, in that order."""
    tol = None if exact else 1e-9
    bi, fi, pi = (np.asarray(x, dtype=int) for x in (bi, fi, pi))

    def chk(name, got, want):
        E.ensure(f"{what}{name}", val_eq(want, got, tol), detail=(str(want)[:250], str(got)[:250]))

    for a in BLT:
        if old[a] is not None:
            chk(a, getattr(uv, a), old[a][bi])
    for a in FREQ:
        if old[a] is not None:
            chk(a, getattr(uv, a), old[a][fi])
    chk("polarization_array", uv.polarization_array, old["polarization_array"][pi])
    for a in VIS:
        if old[a] is not None:
            chk(a, getattr(uv, a), old[a][np.ix_(bi, fi, pi)])
    if old["eq_coeffs"] is not None:
        chk("eq_coeffs", uv.eq_coeffs, old["eq_coeffs"][:, fi])
    kept = [i for i, s in enumerate(old["spw_array"]) if s in set(old["flex_spw_id_array"][fi])]
    if spw is None:
        chk("spw_array", uv.spw_array, old["spw_array"][kept])
    chk("Nblts", uv.Nblts, len(bi))
    chk("Nfreqs", uv.Nfreqs, len(fi))
    chk("Npols", uv.Npols, len(pi))
    chk("Nspws", uv.Nspws, len(uv.spw_array))
    chk("Nbls", uv.Nbls, len(set(old["baseline_array"][bi])))
    chk("Ntimes", uv.Ntimes, len(set(old["time_array"][bi])))
    chk("Nants_data", uv.Nants_data, len(set(old["ant_1_array"][bi]) | set(old["ant_2_array"][bi])))


UV_FIXED = ["vis_units", "extra_keywords", "phase_center_catalog", "Nphase", "tel.name", "tel.location", "tel.instrument", "tel.x_orientation",
            "tel.antenna_names", "tel.antenna_numbers", "tel.antenna_positions", "tel.antenna_diameters", "tel.Nants", "eq_coeffs_convention"]


def fixed(E, obj, old, names=UV_FIXED, what=""):
    cur = snap(obj)
    for a in names:
        if a in old:
            E.ensure(f"{what}{a} untouched", val_eq(old[a], cur[a]), detail=(str(old[a])[:200], str(cur[a])[:200]))


def is_grid(a1, a2, t):
    """(rectangular, time fastest) by definition: records are the product of distinct pairs and distinct times, one axis contiguous."""
    n = len(t)
    prs = list(zip(a1.tolist(), a2.tolist()))
    up, ut = list(dict.fromkeys(prs)), list(dict.fromkeys(t.tolist()))
    if len(up) * len(ut) != n:
        return set()
    out = set()
    if prs == [p for p in up for _ in ut] and t.tolist() == [x for _ in up for x in ut]:
        out.add(True)
    if prs == [p for _ in ut for p in up] and t.tolist() == [x for x in ut for _ in up]:
        out.add(False)
    return out


ORDER_KEYS = {"time": "time_array", "baseline": "baseline_array", "ant1": "ant_1_array", "ant2": "ant_2_array"}


def is_sorted_by(uv, order):
    if order == ("bda",):
        keys = [uv.integration_time.tolist(), uv.baseline_array.tolist(), uv.time_array.tolist()]
    else:
        keys = [getattr(uv, ORDER_KEYS[k]).tolist() for k in order]
    rec = list(zip(*keys))
    return all(x <= y for x, y in zip(rec, rec[1:]))


def true_reports(E, uv, what=""):
    """blt_order and rectangularity, where reported, are true of the records."""
    g = is_grid(uv.ant_1_array, uv.ant_2_array, uv.time_array)
    if uv.blts_are_rectangular:
        E.ensure(f"{what}reported grid is a grid", bool(uv.time_axis_faster_than_bls) in g, detail=(uv.time_array.tolist(), uv.ant_1_array.tolist(), uv.ant_2_array.tolist(), uv.time_axis_faster_than_bls))
    elif uv.blts_are_rectangular is not None:
        E.ensure(f"{what}grid is reported", not g, detail=(uv.time_array.tolist(), uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    if uv.blt_order is not None:
        E.ensure(f"{what}reported order is true", is_sorted_by(uv, tuple(uv.blt_order)), detail=(uv.blt_order, uv.time_array.tolist(), uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))


def lookups_true(E, uv, what="", keys=None):
    """Every keyed lookup on uv returns exactly the matching records (by scanning the labels)."""
    from contracts.c09 import CONJ

    pols = uv.polarization_array.tolist()
    prs = sorted(set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))
    cand = set(prs) | {p[::-1] for p in prs}
    for a, b in sorted(cand):
        i1 = np.nonzero((uv.ant_1_array == a) & (uv.ant_2_array == b))[0]
        i2 = np.nonzero((uv.ant_1_array == b) & (uv.ant_2_array == a))[0] if a != b else np.array([], dtype=int)
        for ordered in (True, False):
            got = uv.antpair2ind(a, b, ordered=ordered)
            want = i1 if (ordered or a == b) else np.append(i1, i2)
            E.ensure(f"{what}antpair2ind", (got is None and len(want) == 0) or (got is not None and np.arange(uv.Nblts)[got].tolist() == want.tolist()), detail=((a, b, ordered), str(got), want.tolist()))
        closed = all(CONJ[p] in pols for p in pols)
        for pol in [None] + pols + [CONJ[p] for p in pols if CONJ[p] not in pols]:
            if pol is None:
                p1 = list(range(len(pols)))
                p2 = [pols.index(CONJ[p]) for p in pols] if closed else None
            else:
                p1 = [pols.index(pol)] if pol in pols else None
                p2 = [pols.index(CONJ[pol])] if CONJ[pol] in pols else None
            j1 = i1 if p1 is not None else i1[:0]
            j2 = i2 if p2 is not None else i2[:0]
            key = (a, b) if pol is None else (a, b, pol)
            if len(j1) + len(j2) == 0:
                E.ensure(f"{what}absent key rejected", E.raises(KeyError, lambda: uv.get_data(key)), detail=key)
                continue

            def pick(arr, cj):
                parts = []
                if len(j1):
                    parts.append(arr[j1][:, :, p1])
                if len(j2):
                    y = arr[j2][:, :, p2]
                    parts.append(np.conj(y) if cj else y)
                return np.concatenate(parts, axis=0)

            for nm, f, arr, cj in (("data", uv.get_data, uv.data_array, True), ("flags", uv.get_flags, uv.flag_array, False), ("nsamples", uv.get_nsamples, uv.nsample_array, False)):
                got = f(key, squeeze="none")
                want = pick(arr, cj)
                E.ensure(f"{what}get_{nm}", got.shape == want.shape and np.array_equal(got, want), detail=(key, got.shape, want.shape))
            jj = np.append(j1, j2)
            E.ensure(f"{what}get_times", np.array_equal(uv.get_times(key), uv.time_array[jj]), detail=key)
            E.ensure(f"{what}get_lsts", np.array_equal(uv.get_lsts(key), uv.lst_array[jj]), detail=key)


# ------------------------------------------------------------------ calibration objects
def uvcal(E, kind=None, numbers=None, maxtimes=3, nspw=None, tel=None, times=None, fr=None, jones=None, time_kind=None, decreasing=False, extras=True, ants=None, style=None, maxper=3):
    """A valid UVCal: gain / delay / wide-band gain, time_array or time_range."""
    from pyuvdata import UVCal

    r = E.np_rng
    c = UVCal()
    kind = kind or E.choice("cal_kind", ["gain", "gain", "delay", "wide"])
    if tel is not None:
        c.telescope = tel.copy()
    else:
        telescope(E, c.telescope, numbers=numbers)
    c.telescope.x_orientation = c.telescope.x_orientation or "east"
    nums = c.telescope.antenna_numbers
    if ants is None:
        k = E.dim("ncalant", 1, len(nums))
        ants = r.permutation(nums)[:k]
        if E.choice("calsort", [True, False]):
            ants = np.sort(ants)
    c.ant_array = np.asarray(ants, dtype=np.int64)
    c.Nants_data = na = len(c.ant_array)
    c.cal_style = style or E.choice("style", ["redundant", "sky"])
    if c.cal_style == "sky":
        c.sky_catalog = "cat"
        c.ref_antenna_name = str(c.telescope.antenna_names[0])
    c.gain_convention = E.choice("gconv", ["divide", "multiply"])
    if c.cal_style == "sky" and E.choice("refarr", [False, True]):
        refs = True
    else:
        refs = False
    ff = fr or freqs(E, c, nspw, decreasing=decreasing, maxper=maxper)
    f, w, ids, spws = ff
    c.Nspws, c.spw_array = len(spws), np.asarray(spws)
    if kind == "wide":
        c._set_wide_band(True)
        c._set_gain()
        lo = np.array([f[ids == s].min() for s in spws])
        hi = np.array([f[ids == s].max() + 1e5 for s in spws])
        c.freq_range = np.stack([lo, hi], axis=1)
        c.Nfreqs = 1
        nf = c.Nspws
    elif kind == "delay":
        c._set_delay()
        lo = np.array([f[ids == s].min() for s in spws])
        hi = np.array([f[ids == s].max() + 1e5 for s in spws])
        c.freq_range = np.stack([lo, hi], axis=1)
        c.Nfreqs = 1
        nf = c.Nspws
    else:
        c._set_gain()
        c.freq_array, c.channel_width, c.flex_spw_id_array = f, w, ids
        c.Nfreqs = nf = len(f)
    tk = time_kind or E.choice("time_kind", ["array", "array", "range"])
    nt = len(times) if times is not None else E.dim("ncaltimes", 1, maxtimes)
    dt = 10.0 / 86400
    tt = np.asarray(times) if times is not None else JD0 + dt * np.arange(nt)
    if times is None and E.choice("torder", [False, False, True]):
        tt = tt[::-1].copy()
    c.Ntimes = nt
    if tk == "array":
        c.time_array = tt
    else:
        c.time_range = np.stack([tt - dt / 3, tt + dt / 3], axis=1)
    c.integration_time = r.choice([5.0, 10.0], size=nt)
    c.set_lsts_from_time_array()
    if jones is None:
        fam = E.choice("jfam", [[-5, -6, -7, -8], [-1, -2, -3, -4]])
        nj = E.dim("njones", 1, 4)
        jones = [fam[i] for i in (r.permutation(4)[:nj] if nj != 2 else r.permutation(2))]
    c.jones_array = np.asarray(jones, dtype=np.int64)
    c.Njones = nj = len(c.jones_array)
    sh = (na, nf, nt, nj)
    if kind == "delay":
        c.delay_array = r.normal(size=sh)
    else:
        c.gain_array = r.uniform(0.5, 2, sh) * np.exp(2j * np.pi * r.random(sh))
    c.flag_array = r.random(sh) < 0.3
    if extras and E.choice("qual", [True, False]):
        c.quality_array = r.normal(size=sh)
    if extras and E.choice("tqual", [True, False]):
        c.total_quality_array = r.normal(size=sh[1:])
    if extras and E.choice("calscan", [True, False]):
        c.scan_number_array = r.integers(0, 4, nt)
    if refs:
        c.ref_antenna_array = r.choice(c.ant_array, nt)
        c.ref_antenna_name = "various"
    if extras and E.choice("calpc", [True, False]):
        c.Nphase = 0
        c.phase_center_catalog = {}
        for i in range(2):
            c._add_phase_center(f"p{i}", cat_type="sidereal", cat_lon=0.1 + i, cat_lat=-0.2, cat_frame="icrs", cat_epoch=2000.0, info_source="x")
        c.phase_center_id_array = r.choice(np.array(sorted(c.phase_center_catalog)), nt)
    c.history = "made by verif"
    c.gain_scale = "Jy" if E.choice("gscale", [True, False]) else None
    c.extra_keywords = {"KEYA": 1}
    return c


def cal_axes(c):
    """attribute -> axes of a UVCal object (specification table)."""
    fa = "spw" if (c.wide_band or c.cal_type == "delay") else "freq"
    ax = dict(ant_array="ant", time_array="time", time_range="time 2", lst_array="time", lst_range="time 2", integration_time="time", ref_antenna_array="time",
              scan_number_array="time", phase_center_id_array="time", jones_array="jones", spw_array="spw", freq_range="spw 2",
              flag_array=f"ant {fa} time jones", quality_array=f"ant {fa} time jones", total_quality_array=f"{fa} time jones",
              gain_array=f"ant {fa} time jones", delay_array="ant spw time jones")
    if fa == "freq":
        ax.update(freq_array="freq", channel_width="freq", flex_spw_id_array="freq")
        ax.pop("freq_range")
    return ax


def take(a, axes, idx):
    """a restricted to idx (dict axis -> index list) on its named axes."""
    for d, x in enumerate(axes.split()):
        if x in idx:
            a = np.take(a, idx[x], axis=d)
    return a


def expect_axes(E, obj, old, axes, idx, what="", tol=None, skip=()):
    """Every attribute in the table equals its old value restricted / permuted along idx."""
    for a, ax in axes.items():
        if a in skip or old.get(a) is None:
            continue
        want = take(np.asarray(old[a]), ax, idx)
        got = getattr(obj, a)
        E.ensure(f"{what}{a}", val_eq(want, got, tol), detail=(str(want)[:200], str(got)[:200]))


# ------------------------------------------------------------------ beams
def uvbeam(E, beam_type=None, coords=None, naz=None, nza=None, maxfreqs=4, extras=True, pols=None, feeds=None, full=True, hpx=True, smooth=False, norm=None):
    from pyuvdata import UVBeam

    r = E.np_rng
    b = UVBeam()
    b.telescope_name, b.feed_name, b.feed_version, b.model_name, b.model_version = "vt", "f", "1", "m", "1"
    b.history = "made by verif"
    coords = coords or E.choice("coords", ["az_za", "healpix"] if hpx else ["az_za"])
    b.pixel_coordinate_system = coords
    nf = E.dim("nbfreq", 1, maxfreqs)
    b.Nfreqs = nf
    b.freq_array = 1e8 + 1e6 * np.arange(nf)
    if coords == "az_za":
        b._set_cs_params()
        b.Naxes1 = naz or E.dim("naz", 3, 8)
        b.Naxes2 = nza or E.dim("nza", 3, 6)
        b.axis1_array = np.arange(b.Naxes1) * 2 * np.pi / b.Naxes1
        b.axis2_array = np.arange(b.Naxes2) * (np.pi / 2 / (b.Naxes2 - 1))
        pix = (b.Naxes2, b.Naxes1)
    else:
        b._set_cs_params()
        b.nside, b.ordering = 1, E.choice("hord", ["ring", "nested"])
        n = 12
        b.pixel_array = np.arange(12) if full and E.choice("hfull", [True, False]) else np.sort(r.permutation(12)[:E.dim("npix", 3, 11)])
        b.Npixels = len(b.pixel_array)
        pix = (b.Npixels,)
    bt = beam_type or E.choice("beam_type", ["efield", "power"])
    if bt == "efield":
        b._set_efield()
        b.Naxes_vec, b.Ncomponents_vec = 2, 2
        fd = feeds or E.choice("feeds", [["x", "y"], ["y", "x"], ["r", "l"], ["l", "r"], ["x"], ["e", "n"], ["n", "e"]])
        b.feed_array = np.array(fd)
        b.Nfeeds = len(fd)
        b.x_orientation = E.choice("bxo", ["east", "north"])
        sh = (2, b.Nfeeds, nf) + pix
        b.data_array = r.normal(size=sh) + 1j * r.normal(size=sh)
        b.basis_vector_array = np.zeros((2, 2) + pix)
        if E.choice("basis", ["aligned", "rotated"]) == "aligned":
            b.basis_vector_array[0, 0] = 1
            b.basis_vector_array[1, 1] = 1
        else:
            th = r.uniform(0, 6, pix)
            b.basis_vector_array[0, 0], b.basis_vector_array[0, 1] = np.cos(th), np.sin(th)
            b.basis_vector_array[1, 0], b.basis_vector_array[1, 1] = -np.sin(th), np.cos(th)
        b.polarization_array = b.Npols = None
    else:
        b.Naxes_vec = 1
        pl = pols or E.choice("bpols", [[-5, -6], [-6, -5], [-5, -6, -7, -8], [-8, -5, -7, -6], [-1, -2, -3, -4], [1, 2, 3, 4], [-5]])
        b.polarization_array = np.array(pl)
        b.Npols = len(pl)
        b._set_power()
        b.x_orientation = E.choice("bxo", ["east", "north"])
        sh = (1, b.Npols, nf) + pix
        d = r.uniform(0.1, 2, sh)
        if np.any(np.isin(b.polarization_array, [-3, -4, -7, -8])):
            b.data_array = d + 1j * r.normal(size=sh)
            re = np.isin(b.polarization_array, [-1, -2, -5, -6])
            b.data_array[:, re] = np.abs(b.data_array[:, re])
            b._data_array.expected_type = complex
        else:
            b.data_array = d
    b.bandpass_array = r.uniform(0.5, 2, nf)
    b.data_normalization = norm or "physical"
    b.antenna_type = "simple"
    b._set_simple()
    if extras and E.choice("bextra", [True, False]):
        b.receiver_temperature_array = r.uniform(10, 20, nf)
        b.loss_array = r.uniform(0, 1, nf)
        b.mismatch_array = r.uniform(0, 1, nf)
        b.s_parameters = r.uniform(0, 1, (4, nf))
    if extras and E.choice("bphased", [False, False, True]) and bt == "efield":
        b._set_phased_array()
        b.Nelements = 2
        b.delay_array = r.uniform(0, 1, 2)
        b.gain_array = r.uniform(0, 1, 2)
        b.element_location_array = r.uniform(0, 1, (2, 2))
        b.element_coordinate_system = "x-y"
        b.coupling_matrix = r.normal(size=(2, 2, b.Nfeeds, b.Nfeeds, nf)) + 0j
    b.extra_keywords = {"KEYA": 1}
    return b


def beam_axes(b):
    pix = "ax2 ax1" if b.pixel_coordinate_system != "healpix" else "pix"
    fp = "feed" if b.beam_type == "efield" else "pol"
    ax = dict(freq_array="freq", bandpass_array="freq", receiver_temperature_array="freq", loss_array="freq", mismatch_array="freq", s_parameters="4 freq",
              data_array=f"vec {fp} freq {pix}", basis_vector_array=f"vec comp {pix}", feed_array="feed", polarization_array="pol",
              axis1_array="ax1", axis2_array="ax2", pixel_array="pix", coupling_matrix="el el feed feed2 freq")
    return ax


# ------------------------------------------------------------------ flag objects
def uvflag(E, ftype=None, mode=None, uv=None, maxtimes=3, dups=False):
    """A valid UVFlag of any type, built directly."""
    from pyuvdata import UVFlag

    r = E.np_rng
    ftype = ftype or E.choice("ftype", ["baseline", "antenna", "waterfall"])
    mode = mode or E.choice("fmode", ["flag", "metric"])
    uv = uv or uvdata(E, eq=False, scan=False, maxtimes=maxtimes, phase=False, npc=1, decreasing=False, phys=False)
    f = UVFlag()
    f.type, f.mode, f.label = ftype, mode, "lab"
    f.telescope = uv.telescope.copy()
    for a in ("freq_array", "channel_width", "flex_spw_id_array", "spw_array", "Nspws", "Nfreqs"):
        v = getattr(uv, a)
        setattr(f, a, v.copy() if isinstance(v, np.ndarray) else v)
    if ftype == "baseline":
        f._set_type_baseline()
        for a in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array"):
            setattr(f, a, getattr(uv, a).copy())
        f.Nblts, f.Nbls, f.Ntimes, f.Nants_data = uv.Nblts, uv.Nbls, uv.Ntimes, uv.Nants_data
        lead = (f.Nblts,)
    else:
        tt, ti = np.unique(uv.time_array, return_index=True)
        f.time_array, f.lst_array = tt, uv.lst_array[ti]
        if E.choice("ftorder", [False, True]):
            f.time_array, f.lst_array = f.time_array[::-1].copy(), f.lst_array[::-1].copy()
        f.Ntimes = len(tt)
        if ftype == "antenna":
            f._set_type_antenna()
            aa = np.unique(np.append(uv.ant_1_array, uv.ant_2_array))
            f.ant_array = r.permutation(aa) if E.choice("faorder", [False, True]) else aa
            f.Nants_data = len(aa)
            f.Nblts = None
        else:
            f._set_type_waterfall()
            f.Nblts = None
    f.polarization_array = uv.polarization_array.copy()
    f.Npols = uv.Npols
    if ftype == "antenna":
        # antenna-type objects carry Jones terms in polarization_array
        sh = (f.Nants_data, f.Nfreqs, f.Ntimes, f.Npols)
    elif ftype == "baseline":
        sh = (f.Nblts, f.Nfreqs, f.Npols)
    else:
        sh = (f.Ntimes, f.Nfreqs, f.Npols)
    if mode == "flag":
        f._set_mode_flag()
        f.flag_array = r.random(sh) < 0.4
    else:
        f._set_mode_metric()
        f.metric_array = r.normal(size=sh)
        f.weights_array = r.uniform(0, 2, sh)
        if ftype == "waterfall" and E.choice("wsq", [False, True]):
            f.weights_square_array = r.uniform(0, 2, sh)
    f.history = "made by verif"
    f.extra_keywords = {"KEYA": 1}
    return f


def flag_axes(f):
    d = {"baseline": "blt freq pol", "antenna": "ant freq time pol", "waterfall": "time freq pol"}[f.type]
    t = "blt" if f.type == "baseline" else "time"
    return dict(flag_array=d, metric_array=d, weights_array=d, weights_square_array=d, time_array=t, lst_array=t, ant_1_array="blt", ant_2_array="blt",
                baseline_array="blt", ant_array="ant", freq_array="freq", channel_width="freq", flex_spw_id_array="freq", polarization_array="pol")
