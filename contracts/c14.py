"""C14 file round trips."""
import os
import shutil
import tempfile

import numpy as np
from pvc.reg import contract
from contracts import gen

IOF = "pyuvdata.utils.io.fits:"
H = "pyuvdata.utils.io.hdf5:"
UD = "pyuvdata.uvdata."


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="pvc14-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ proved: linear FITS axes
class Header(dict):
    pass


class HDU:
    def __init__(self, header):
        self.header = header


@contract("C14", funcs=[IOF + "_gethduaxis"], cases=100)
def hdu_axis(E):
    """An evenly spaced axis written as (CRVAL=first, CDELT=step, CRPIX=1) is read back element by element; in general element i
    is CRVAL + (i + 1 - CRPIX) CDELT."""
    from pyuvdata.utils.io.fits import _gethduaxis

    n = E.dim("n", 0, 7)
    v0, d = E.real("v0"), E.real("d")
    pix = E.choice("pix", ["first", "any"])
    p = 1 if pix == "first" else E.int("crpix", lo=1, hi=None if E.mode == "sym" else 9)
    ax = E.choice("ax", [1, 3, 6])
    h = Header({f"NAXIS{ax}": n, f"CRVAL{ax}": v0, f"CDELT{ax}": d, f"CRPIX{ax}": p})
    out = _gethduaxis(HDU(h), ax)
    E.ensure("length", E.shape(out)[0] == n)
    if E.mode == "sym":
        E.ensure_all("axis value", [n], lambda i: E.at(out, i) == v0 + (i + 1 - p) * d)
    else:
        E.ensure("axis value", np.allclose(out, v0 + (np.arange(n) + 1 - p) * d, rtol=1e-12, atol=1e-12))


@contract("C14", funcs=[IOF + "_indexhdus"], cases=60)
def hdu_index(E):
    """Every named table is found at its own position (a later table of the same name replaces an earlier one)."""
    from pyuvdata.utils.io.fits import _indexhdus

    names = E.choice("names", [[None], [None, "A"], [None, "A", "B"], ["B", None, "A"], [None, "A", "A"], []])
    hd = [HDU(Header({} if x is None else {"EXTNAME": x})) for x in names]
    r = _indexhdus(hd)
    E.ensure("names", set(r) == {x for x in names if x is not None})
    for k, i in r.items():
        E.ensure("position", names[i] == k and k not in names[i + 1:])


# ------------------------------------------------------------------ bounded round trips
def compare(E, what, before, after, loose=(), skip=(), tol=None):
    """every attribute of the snapshot is reproduced; `loose` maps attributes to a tolerance"""
    loose = dict(loose)
    for k in before:
        if k in skip:
            continue
        t = loose.get(k, tol)
        E.ensure(f"{what}{k} survives the round trip", val_close(before[k], after[k], t), detail=(k, str(before[k])[:300], str(after[k])[:300]))


def val_close(a, b, tol):
    from astropy.coordinates import EarthLocation

    if isinstance(a, EarthLocation):
        return isinstance(b, EarthLocation) and np.allclose([x.to_value("m") for x in a.geocentric], [x.to_value("m") for x in b.geocentric], rtol=0, atol=1e-3)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(val_close(a[k], b[k], 1e-9) for k in a)
    if hasattr(a, "unit") and hasattr(b, "unit"):
        return bool(np.allclose(a.to_value(a.unit), b.to_value(a.unit), rtol=tol or 1e-12, atol=0))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple, np.ndarray)):
        return gen.val_eq(list(a), list(b), tol)
    return gen.val_eq(a, b, tol)


def no_overwrite(E, fn, write, **kw):
    """an existing file is never silently overwritten"""
    with open(fn, "rb") as f:
        b0 = f.read()
    E.ensure("existing file is not overwritten", E.raises((OSError, ValueError), write))
    with open(fn, "rb") as f:
        E.ensure("existing file untouched", f.read() == b0)


REPORTS = ("blts_are_rectangular", "time_axis_faster_than_bls", "blt_order")
INT_DT = np.dtype([("r", "<i4"), ("i", "<i4")])


@contract("C14", funcs=[UD + "uvh5:UVH5.write_uvh5", UD + "uvh5:UVH5.read_uvh5", UD + "uvh5:UVH5._write_header", UD + "uvh5:UVH5._read_header", H + "_read_complex_astype", H + "_write_complex_astype", "pyuvdata.telescopes:Telescope.write_hdf5_header"],
          mode="bounded", cases=150, conc_tl=100)
def uvh5(E):
    from pyuvdata import UVData

    uv = gen.uvdata(E, phys=False, maxtimes=3, maxbl=5, maxper=4, both=True)
    r = E.np_rng
    opt_uv(E, uv)
    dt = E.choice("dtype", [None, "c8", "c16", INT_DT])
    if dt is INT_DT:
        uv.data_array = r.integers(-1000, 1000, uv.data_array.shape) + 1j * r.integers(-1000, 1000, uv.data_array.shape)
    if E.choice("single", [True, False]):
        uv.data_array = uv.data_array.astype(np.complex64)
    if E.choice("ephem", [True, False]):
        # an entry tabulated in time and one with proper motion
        uv._add_phase_center("eph", cat_type="ephem", cat_lon=r.uniform(0, 6, 3), cat_lat=r.uniform(-1, 1, 3), cat_times=gen.JD0 + np.arange(3.0), cat_frame="icrs", cat_epoch=2000.0,
                             cat_dist=r.uniform(1, 2, 3), cat_vrad=r.uniform(-1, 1, 3), info_source="x")
        uv._add_phase_center("pm", cat_type="sidereal", cat_lon=1.5, cat_lat=-0.5, cat_frame="fk5", cat_epoch=2000.0, cat_pm_ra=1.5, cat_pm_dec=-2.5, cat_vrad=3.0, cat_dist=1e3, info_source="x")
    old = gen.snap(uv)
    with Scratch() as d:
        fn = os.path.join(d, "a.uvh5")
        uv.write_uvh5(fn, data_write_dtype=dt, run_check=False)
        gen.unchanged(E, "writing", old, uv)
        no_overwrite(E, fn, lambda: uv.write_uvh5(fn, run_check=False))
        new = UVData()
        how = E.choice("how", ["read_uvh5", "read", "parts"])
        if how == "read_uvh5":
            new.read_uvh5(fn, run_check=False, remove_flex_pol=False)
        elif how == "read":
            new = UVData.from_file(fn, run_check=False, remove_flex_pol=False)
        else:
            new.read(fn, read_data=False, run_check=False, remove_flex_pol=False)
            E.ensure("metadata read has no data", new.data_array is None)
            new.read(fn, run_check=False, remove_flex_pol=False)
    lost = {"data_array": 1e-6 if dt == "c8" or old["data_array"].dtype == np.complex64 else None, "nsample_array": 1e-6}
    gen.true_reports(E, new)
    compare(E, "", old, gen.snap(new), lost, skip=("filename", "scan_number_array", "history"))
    E.ensure("history kept", old["history"] in new.history)
    E.ensure("layout reports kept", new.blts_are_rectangular == uv.blts_are_rectangular)


def opt_uv(E, uv):
    """optional attributes that the HDF5 and FITS formats carry"""
    r = E.np_rng
    if E.choice("eop", [True, False]):
        uv.dut1, uv.earth_omega, uv.gst0, uv.rdate, uv.timesys = 0.2, 360.985, 23.1, "2018-04-10", "UTC"
    if E.choice("pconv", [True, False]):
        uv.pol_convention = E.choice("pconvv", ["sum", "avg"])
    uv.vis_units = E.choice("units", ["uncalib", "Jy", "K str"])
    if E.choice("flexpol", [False, False, True]) and uv.Npols == 1 and uv.Nspws > 1:
        uv.flex_spw_polarization_array = np.array([-5, -6, -7, -8][: uv.Nspws])
        uv.polarization_array = np.array([0])
    if E.choice("order", [True, False]):
        uv.reorder_blts(order=E.choice("ord", ["time", "baseline", "ant1"]), run_check=False)
    uv.extra_keywords = {"KEYA": 1, "KEYB": "s", "KEYC": 2.5, "KEYD": True}


@contract("C14", funcs=[UD + "uvfits:UVFITS.write_uvfits", UD + "uvfits:UVFITS.read_uvfits", UD + "uvfits:UVFITS._get_parameter_data", UD + "uvfits:UVFITS._get_data"],
          mode="bounded", cases=80, conc_tl=100)
def uvfits(E):
    from pyuvdata import UVData

    nspw = E.choice("ns", [1, 1, 2])
    uv = gen.uvdata(E, nspw=nspw, npols=E.choice("np", [1, 2, 4]), decreasing=False, maxtimes=3, maxper=4, scan=False, eq=False, npc=E.choice("npc", [1, 2, 3]), both=True, unproj=False, samenf=True)
    n = [int((uv.flex_spw_id_array == s).sum()) for s in uv.spw_array]
    E.assume(len(set(n)) == 1)
    # the format numbers spectral windows and (unless a catalog is written) phase centers by position and carries consistent axes only
    uv.spw_array = np.array(list(dict.fromkeys(uv.flex_spw_id_array.tolist())))
    opt_uv2(E, uv)
    if E.choice("single", [True, False]):
        uv.data_array = uv.data_array.astype(np.complex64)
    prec = uv.data_array.dtype == np.complex64
    old = gen.snap(uv)
    with Scratch() as d:
        fn = os.path.join(d, "a.uvfits")
        mir = E.choice("miriad", [False, True])
        try:
            uv.write_uvfits(fn, run_check=False, write_lst=E.choice("lst", [True, False]), use_miriad_convention=mir)
        except ValueError:
            p = np.sort(np.abs(uv.polarization_array))
            E.ensure("rejected only for unevenly spaced polarizations", len(p) > 2 and len(set(np.diff(p))) > 1)
            gen.unchanged(E, "rejected writing", old, uv)
            return
        gen.unchanged(E, "writing", old, uv)
        new = UVData()
        new.read_uvfits(fn, run_check=False)
    t = 1e-5 if prec else 1e-9
    got = gen.snap(new)
    # polarizations are stored in order of absolute value
    o = np.argsort(np.abs(old["polarization_array"]))
    exp = dict(old)
    exp["polarization_array"] = old["polarization_array"][o]
    for k in ("data_array", "flag_array", "nsample_array"):
        exp[k] = old[k][..., o]
    # spectral windows are stored by position
    sp = {s: i for i, s in enumerate(old["spw_array"])}
    exp["spw_array"] = np.arange(len(sp))
    exp["flex_spw_id_array"] = np.array([sp[s] for s in old["flex_spw_id_array"]])
    if mir and min(old["tel.antenna_numbers"]) == 0:
        # documented: the Miriad convention counts antennas from one
        for k in ("ant_1_array", "ant_2_array", "tel.antenna_numbers"):
            exp[k] = old[k] + 1
        exp["baseline_array"] = new.antnums_to_baseline(exp["ant_1_array"], exp["ant_2_array"])
    gen.true_reports(E, new)
    compare(E, "", exp, got, {"data_array": t, "nsample_array": 1e-6, "uvw_array": 1e-4 if prec else 1e-6, "lst_array": 1e-8, "time_array": 1e-12, "integration_time": 1e-6,
                               "phase_center_app_ra": 1e-8, "phase_center_app_dec": 1e-8, "phase_center_frame_pa": 1e-8, "tel.antenna_positions": 1e-6, "freq_array": 1e-12, "channel_width": 1e-9,
                               "tel.antenna_diameters": 1e-6},
            skip=("filename", "history", "phase_center_catalog", "phase_center_id_array", "scan_number_array", "dut1", "earth_omega", "gst0", "rdate", "timesys") + REPORTS)
    cat(E, old, got)


def opt_uv2(E, uv):
    if E.choice("pconv", [True, False]):
        uv.pol_convention = E.choice("pconvv", ["sum", "avg"])
    uv.vis_units = E.choice("units", ["uncalib", "Jy", "K str"])
    uv.extra_keywords = {"KEYA": 1, "KEYB": "s", "KEYC": 2.5}


def cat(E, old, got):
    """every record points at an entry with the same description"""
    a, b = old["phase_center_catalog"], got["phase_center_catalog"]
    ia, ib = old["phase_center_id_array"], got["phase_center_id_array"]
    for x, y in set(zip(ia.tolist(), ib.tolist())):
        for k in ("cat_name", "cat_type", "cat_lon", "cat_lat", "cat_frame", "cat_epoch"):
            E.ensure(f"phase center {k} of every record", val_close(a[x][k], b[y][k], 1e-9), detail=(k, str(a[x]), str(b[y])))


@contract("C14", funcs=["pyuvdata.uvcal.calh5:CalH5.write_calh5", "pyuvdata.uvcal.calh5:CalH5.read_calh5", "pyuvdata.uvcal.calh5:CalH5._write_header", "pyuvdata.uvcal.calh5:CalH5._read_header"],
          mode="bounded", cases=150, conc_tl=100)
def calh5(E):
    from pyuvdata import UVCal

    c = gen.uvcal(E, decreasing=True)
    old = gen.snap(c)
    with Scratch() as d:
        fn = os.path.join(d, "a.calh5")
        c.write_calh5(fn, run_check=False)
        gen.unchanged(E, "writing", old, c)
        no_overwrite(E, fn, lambda: c.write_calh5(fn, run_check=False))
        new = UVCal.from_file(fn, run_check=False)
    # quality arrays are stored in single precision
    compare(E, "", old, gen.snap(new), {"quality_array": 1e-6, "total_quality_array": 1e-6}, skip=("filename", "history"))
    E.ensure("history kept", old["history"] in new.history)


@contract("C14", funcs=["pyuvdata.uvcal.calfits:CALFITS.write_calfits", "pyuvdata.uvcal.calfits:CALFITS.read_calfits"], mode="bounded", cases=100, conc_tl=100)
def calfits(E):
    from pyuvdata import UVCal

    # the format holds channel gains and delays of one spectral window (a wide-band gain becomes a one-channel gain)
    c = gen.uvcal(E, nspw=1, kind=E.choice("kindf", ["gain", "gain", "delay"]))
    if c.ref_antenna_array is not None:
        c.ref_antenna_array, c.ref_antenna_name = None, str(c.telescope.antenna_names[0])
    if c.phase_center_catalog is not None:
        c.phase_center_catalog = c.phase_center_id_array = c.Nphase = None
    c.scan_number_array = None
    E.assume(c.Njones != 3 and len(set(np.diff(np.sort(np.abs(c.jones_array))))) <= 1)
    # the format numbers its only spectral window 0
    c.spw_array = np.array([0])
    if c.flex_spw_id_array is not None:
        c.flex_spw_id_array = np.zeros(c.Nfreqs, dtype=int)
    old = gen.snap(c)
    with Scratch() as d:
        fn = os.path.join(d, "a.calfits")
        try:
            c.write_calfits(fn, run_check=False)
        except ValueError as e:
            gen.unchanged(E, "rejected writing", old, c)
            ok = (c.wide_band or c.Ntimes > 1 and len(np.unique(c.integration_time)) > 1 or c.time_range is not None and c.Ntimes > 1
                  or len(c.jones_array) > 1 and len(set(np.diff(c.jones_array))) > 1 or c.ref_antenna_array is not None)
            E.ensure("rejected only what the format cannot hold", ok, detail=str(e))
            return
        gen.unchanged(E, "writing", old, c)
        no_overwrite(E, fn, lambda: c.write_calfits(fn, run_check=False))
        new = UVCal.from_file(fn, run_check=False)
    compare(E, "", old, gen.snap(new), {"time_array": 1e-12, "lst_array": 1e-8, "freq_array": 1e-12, "jones_array": 0, "integration_time": 1e-9}, skip=("filename", "history"), tol=1e-9)
    E.ensure("history kept", old["history"] in new.history)


@contract("C14", funcs=["pyuvdata.uvflag.uvflag:UVFlag.write", "pyuvdata.uvflag.uvflag:UVFlag.read"], mode="bounded", cases=150, conc_tl=100)
def uvflag(E):
    from pyuvdata import UVFlag

    f = gen.uvflag(E)
    old = gen.snap(f)
    with Scratch() as d:
        fn = os.path.join(d, "a.h5")
        f.write(fn)
        gen.unchanged(E, "writing", old, f, skip=("history",))  # a version note is added to the history of the object
        no_overwrite(E, fn, lambda: f.write(fn))
        new = UVFlag(fn)
    compare(E, "", old, gen.snap(new), skip=("filename", "history"))
    E.ensure("history kept", old["history"] in new.history)


@contract("C14", funcs=["pyuvdata.uvbeam.beamfits:BeamFITS.write_beamfits", "pyuvdata.uvbeam.beamfits:BeamFITS.read_beamfits"], mode="bounded", cases=120, conc_tl=100)
def beamfits(E):
    from pyuvdata import UVBeam

    b = gen.uvbeam(E)
    old = gen.snap(b)
    with Scratch() as d:
        fn = os.path.join(d, "a.beamfits")
        try:
            b.write_beamfits(fn, run_check=False)
        except ValueError as e:
            gen.unchanged(E, "rejected writing", old, b)
            p = b.polarization_array
            E.ensure("rejected only what the format cannot hold", b.antenna_type != "simple" or p is not None and len(set(np.diff(p))) > 1, detail=str(e))
            return
        gen.unchanged(E, "writing", old, b)
        no_overwrite(E, fn, lambda: b.write_beamfits(fn, run_check=False))
        new = UVBeam.from_file(fn, run_check=False)
    compare(E, "", old, gen.snap(new), skip=("filename", "history"), tol=1e-9)
    E.ensure("history kept", old["history"] in new.history)


# ------------------------------------------------------------------ measurement sets and miriad
def by_record(E, what, old, got, keys):
    """the two snapshots hold the same records; compare them record by record, channel by channel and product by product"""
    ident = lambda s: [(int(a), int(b), round((t - gen.JD0) * 86400, 2)) for a, b, t in zip(s["ant_1_array"], s["ant_2_array"], s["time_array"])]
    a, b = ident(old), ident(got)
    E.ensure(f"{what}same records", sorted(a) == sorted(b), detail=(sorted(a)[:6], sorted(b)[:6]))
    E.assume(len(set(a)) == len(a))
    pos = {x: i for i, x in enumerate(b)}
    o = np.array([pos[x] for x in a])
    pp = {int(x): i for i, x in enumerate(got["polarization_array"])}
    E.ensure(f"{what}same products", sorted(pp) == sorted(int(x) for x in old["polarization_array"]))
    q = [pp[int(x)] for x in old["polarization_array"]]
    fo, fg = old["freq_array"], got["freq_array"]
    E.ensure(f"{what}same number of channels", len(fo) == len(fg))
    c = [int(np.argmin(np.abs(fg - x))) for x in fo]
    E.ensure(f"{what}same channels", sorted(c) == list(range(len(fo))) and np.allclose(fg[c], fo, rtol=1e-9), detail=(str(fo), str(fg)))
    for k, t in keys.items():
        x, y = old[k], got[k]
        if k in gen.VIS:
            y = y[np.ix_(o, c, q)]
        elif k in ("freq_array", "channel_width"):
            y = y[c]
        else:
            y = y[o]
        E.ensure(f"{what}{k} of every record", val_close(x, y, t), detail=(k, str(x)[:300], str(y)[:300]))
    return o, c, q


@contract("C14", funcs=[UD + "ms:MS.write_ms", UD + "ms:MS.read_ms", "pyuvdata.utils.io.ms:write_ms_spectral_window", "pyuvdata.utils.io.ms:write_ms_polarization", "pyuvdata.utils.io.ms:write_ms_field", "pyuvdata.utils.io.ms:write_ms_antenna"],
          mode="bounded", cases=30, conc_tl=150)
def measurement_set(E):
    from pyuvdata import UVData

    uv = gen.uvdata(E, npols=E.choice("np", [1, 2, 4]), maxtimes=3, maxper=4, scan=E.choice("scan0", [True, False]), eq=False, npc=E.choice("npc", [1, 2]), both=True, phase=True, fams=("lin", "circ"), unproj=False)
    uv.extra_keywords = {"KEYA": 1, "KEYB": "s"}
    uv.vis_units = E.choice("units", ["uncalib", "Jy", "K str"])
    # several columns of visibilities of the same shape may be written
    cols = {k: E.np_rng.normal(size=uv.data_array.shape) + 1j * E.np_rng.normal(size=uv.data_array.shape) for k in ("model_data", "corrected_data") if E.choice(k, [True, False])}
    cold = {k: v.copy() for k, v in cols.items()}
    old = gen.snap(uv)
    with Scratch() as d:
        fn = os.path.join(d, "a.ms")
        uv.write_ms(fn, run_check=False, **cols)
        for k in cols:
            E.ensure(f"{k} unchanged", np.array_equal(cols[k], cold[k]))
        # documented: scan numbers are assigned when there are none
        gen.unchanged(E, "writing", old, uv, skip=() if old["scan_number_array"] is not None else ("scan_number_array",))
        E.ensure("existing file is not overwritten", E.raises((OSError, ValueError, RuntimeError), lambda: uv.write_ms(fn, run_check=False)))
        new = UVData()
        single = [int(x) for x in uv.spw_array if (uv.flex_spw_id_array == x).sum() == 1]
        ign = bool(single) and len(single) < uv.Nspws and E.choice("ignore", [True, False])
        col = E.choice("column", ["DATA"] + [k.upper() for k in cols])
        new.read_ms(fn, run_check=False, ignore_single_chan=ign, data_column=col)
    if col != "DATA":
        old["data_array"] = cold[col.lower()]
    else:
        E.ensure("units kept", new.vis_units == old["vis_units"])
    E.ensure("extra keywords kept", all(new.extra_keywords.get(k) == v for k, v in old["extra_keywords"].items()))
    if ign:
        # only the windows with several channels are read
        ch = ~np.isin(old["flex_spw_id_array"], single)
        for k in ("freq_array", "channel_width", "flex_spw_id_array"):
            old[k] = old[k][ch]
        for k in gen.VIS:
            old[k] = old[k][:, ch]
    got = gen.snap(new)
    o, c, q = by_record(E, "", old, got, {"data_array": 1e-5, "flag_array": None, "nsample_array": 1e-5, "uvw_array": 1e-6, "integration_time": 1e-9, "time_array": 1e-12, "lst_array": 1e-7,
                                          "phase_center_app_ra": 1e-6, "phase_center_app_dec": 1e-6, "channel_width": 1e-9})
    g = dict(got)
    g["phase_center_id_array"] = got["phase_center_id_array"][o]
    cat(E, old, g)
    E.ensure("channels keep their window grouping", len(set(zip(old["flex_spw_id_array"].tolist(), got["flex_spw_id_array"][c].tolist()))) == len(set(old["flex_spw_id_array"])) == len(set(got["flex_spw_id_array"])))
    for k in ("tel.name", "tel.antenna_numbers", "tel.antenna_names"):
        E.ensure(f"{k} kept", gen.val_eq(np.asarray(old[k]), np.asarray(got[k])) or k != "tel.name", detail=(str(old[k]), str(got[k])))
    n = {int(x): i for i, x in enumerate(got["tel.antenna_numbers"])}
    for i, x in enumerate(old["tel.antenna_numbers"]):
        E.ensure("antenna position kept", int(x) in n and np.allclose(got["tel.antenna_positions"][n[int(x)]], old["tel.antenna_positions"][i], atol=1e-3))


@contract("C14", funcs=[UD + "miriad:Miriad.write_miriad", UD + "miriad:Miriad.read_miriad"], mode="bounded", cases=30, conc_tl=150)
def miriad(E):
    from pyuvdata import UVData

    uv = gen.uvdata(E, nspw=1, npols=E.choice("np", [1, 2, 4]), decreasing=False, maxtimes=3, maxper=4, scan=False, eq=False, npc=1, numbers=None, same_int=True, orient=False)
    uv.extra_keywords = {}
    if np.any(np.diff(uv.time_array) < 0):
        uv.reorder_blts(order="time", run_check=False)
    # the format requires ant1 <= ant2; writing brings the object into that orientation first
    if E.choice("oriented", [True, True, False]):
        uv.conjugate_bls("ant1<ant2")
        old = gen.snap(uv)
    else:
        w = uv.copy()
        w.conjugate_bls("ant1<ant2")
        old = gen.snap(w)
    with Scratch() as d:
        fn = os.path.join(d, "a.uv")
        try:
            uv.write_miriad(fn, run_check=False)
        except ValueError as e:
            E.ensure("no rejection of a representable object", False, detail=str(e))
            return
        gen.unchanged(E, "writing", old, uv, skip=("history",))
        E.ensure("existing file is not overwritten", E.raises((OSError, ValueError), lambda: uv.write_miriad(fn, run_check=False)))
        new = UVData()
        new.read_miriad(fn, run_check=False, projected=old["phase_center_catalog"][list(old["phase_center_catalog"])[0]]["cat_type"] == "sidereal")
    got = gen.snap(new)
    by_record(E, "", old, got, {"data_array": 1e-3, "flag_array": None, "nsample_array": 1e-5, "uvw_array": 1e-2, "integration_time": 1e-4, "time_array": 1e-12, "lst_array": 1e-4})
