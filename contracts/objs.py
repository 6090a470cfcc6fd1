"""Polymorphic object builders: the same code builds symbolic (proof) and concrete objects.

The attribute -> axes tables below are part of the *specification*: they are
written from the documented meaning of each attribute, not read from the code.
"""
from __future__ import annotations

import numpy as np

# attribute: (axes, kind)
UVDATA_AXES = {
    "data_array": ("blt freq pol", "c"),
    "flag_array": ("blt freq pol", "b"),
    "nsample_array": ("blt freq pol", "f"),
    "time_array": ("blt", "f"),
    "lst_array": ("blt", "f"),
    "integration_time": ("blt", "f"),
    "ant_1_array": ("blt", "i"),
    "ant_2_array": ("blt", "i"),
    "baseline_array": ("blt", "i"),
    "uvw_array": ("blt 3", "f"),
    "phase_center_id_array": ("blt", "i"),
    "phase_center_app_ra": ("blt", "f"),
    "phase_center_app_dec": ("blt", "f"),
    "phase_center_frame_pa": ("blt", "f"),
    "scan_number_array": ("blt", "i"),
    "freq_array": ("freq", "f"),
    "channel_width": ("freq", "f"),
    "flex_spw_id_array": ("freq", "i"),
    "eq_coeffs": ("ant freq", "f"),
    "polarization_array": ("pol", "i"),
    "spw_array": ("spw", "i"),
}
TEL_AXES = {
    "antenna_numbers": ("ant", "i"),
    "antenna_names": ("ant", "U"),
    "antenna_positions": ("ant 3", "f"),
    "antenna_diameters": ("ant", "f"),
}
BLT_ATTRS = [a for a, (ax, _) in UVDATA_AXES.items() if ax.startswith("blt")]
POL_POOL = [-8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4]

_LOC = None


def location():
    global _LOC
    if _LOC is None:
        from astropy.coordinates import EarthLocation

        _LOC = EarthLocation.from_geocentric(5109325.85521063, 2005235.09142983, -3239928.42475395, unit="m")
    return _LOC


def make_uvdata(E, dims=None, eq_coeffs=True, diam=True, scan=True, spw_per_freq=None, prefix="", pols=None, npc=1,
                nants=None, data=True, rect=None):
    """A UVData object with arbitrary contents satisfying the representation invariant."""
    from pyuvdata import UVData

    P = prefix
    d = dict(dims or {})
    nblt = d["blt"] if "blt" in d else E.dim(P + "Nblts", 1, 6)
    nf = d["freq"] if "freq" in d else E.dim(P + "Nfreqs", 1, 4)
    npol = d["pol"] if "pol" in d else E.dim(P + "Npols", 1, 3)
    nant = d["ant"] if "ant" in d else E.dim(P + "Nants", 2, 4)
    nspw = d["spw"] if "spw" in d else E.dim(P + "Nspws", 1, 2)
    D = {"blt": nblt, "freq": nf, "pol": npol, "ant": nant, "spw": nspw, "3": 3}
    uv = UVData()
    tel = uv.telescope
    gen = {
        "time_array": dict(lo=2455000, hi=2465000),
        "lst_array": dict(lo=0, hi=6),
        "integration_time": dict(lo=1, hi=20),
        "phase_center_id_array": dict(pool=list(range(npc))),
        "freq_array": dict(lo=10**8, hi=2 * 10**8, distinct=True),
        "channel_width": dict(lo=10**3, hi=10**6),
        "nsample_array": dict(lo=0, hi=4),
        "antenna_numbers": dict(lo=0, hi=2**31 - 1, distinct=True) if E.mode == "sym" else dict(lo=0, hi=20, distinct=True),
        "antenna_names": dict(distinct=True),
        "spw_array": dict(lo=0, hi=9, distinct=True),
        "polarization_array": dict(pool=POL_POOL, distinct=True) if E.mode != "sym" else dict(lo=-8, hi=4, distinct=True),
        "eq_coeffs": dict(lo=1, hi=9),
        "antenna_diameters": dict(lo=1, hi=30),
        "scan_number_array": dict(lo=0, hi=5),
    }
    skip = set()
    if not eq_coeffs:
        skip.add("eq_coeffs")
    if not diam:
        skip.add("antenna_diameters")
    if not scan:
        skip.add("scan_number_array")
    if not data:
        skip |= {"data_array", "flag_array", "nsample_array"}
    special = {"ant_1_array", "ant_2_array", "baseline_array", "flex_spw_id_array"}
    vals = {}
    for a, (ax, k) in TEL_AXES.items():
        if a in skip:
            continue
        vals[a] = E.array(P + a, tuple(D[x] for x in ax.split()), k, **gen.get(a, {}))
        setattr(tel, a, vals[a])
    tel.Nants = nant
    tel.name = "vtel"
    tel.location = location()
    for a, (ax, k) in UVDATA_AXES.items():
        if a in skip or a in special:
            continue
        if a == "polarization_array" and pols is not None:
            vals[a] = pols
        else:
            vals[a] = E.array(P + a, tuple(D[x] for x in ax.split()), k, **gen.get(a, {}))
        setattr(uv, a, vals[a])
    # antennas of each record: positions in the telescope table
    i1 = E.array(P + "i1", (nblt,), "i", lo=0, hi=nant - 1)
    i2 = E.array(P + "i2", (nblt,), "i", lo=0, hi=nant - 1)
    uv.ant_1_array = vals["antenna_numbers"][i1]
    uv.ant_2_array = vals["antenna_numbers"][i2]
    # spw of each channel
    isp = E.array(P + "ispw", (nf,), "i", lo=0, hi=nspw - 1)
    if E.mode != "sym" and nf >= nspw:
        isp = np.sort(isp)
        isp[:nspw] = np.arange(nspw)
        isp = np.sort(isp)
    uv.flex_spw_id_array = vals["spw_array"][isp]
    uv.Nblts, uv.Nfreqs, uv.Npols, uv.Nspws = nblt, nf, npol, nspw
    if E.mode == "sym":
        uv.baseline_array = E.array(P + "baseline_array", (nblt,), "i", lo=0)
        # baseline numbers are an injective code of the antenna pair (C01)
        E.stub("baseline_array is an injective code of (ant_1, ant_2) (postcondition of C01)")
        uv.Nbls = E.dim(P + "Nbls")
        uv.Ntimes = E.dim(P + "Ntimes")
        uv.Nants_data = E.dim(P + "Nants_data")
        uv.blts_are_rectangular = E.bool(P + "rect") if rect is None else rect
        uv.time_axis_faster_than_bls = E.bool(P + "tfast")
    else:
        uv.baseline_array = uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)
        uv.Nbls = len(np.unique(uv.baseline_array))
        uv.Ntimes = len(np.unique(uv.time_array))
        uv.Nants_data = len(set(uv.ant_1_array) | set(uv.ant_2_array))
        autos = uv.ant_1_array == uv.ant_2_array
        uv.uvw_array[autos] = 0
        uv.set_rectangularity(force=True)
    uv.history = "h"
    uv.vis_units = "uncalib"
    uv.Nphase = npc
    uv.phase_center_catalog = {i: {"cat_name": f"pc{i}", "cat_type": "sidereal", "cat_lon": 0.1 * i, "cat_lat": -0.3,
                                   "cat_frame": "icrs", "cat_epoch": 2000.0, "cat_times": None, "cat_pm_ra": None,
                                   "cat_pm_dec": None, "cat_vrad": None, "cat_dist": None, "info_source": "x"}
                               for i in range(npc)}
    return uv, D


def snap_uvdata(E, uv):
    """Pre-state: copies of every array attribute present."""
    out = {}
    for a in UVDATA_AXES:
        v = getattr(uv, a)
        if v is not None:
            out[a] = E.old(v)
    for a in TEL_AXES:
        v = getattr(uv.telescope, a)
        if v is not None:
            out["tel." + a] = E.old(v)
    return out


def bl_code(E, uv):
    """Modular use of C01 in proof mode: baseline numbers are an arbitrary (injective) code table BL[ant1, ant2];
    calls of uv.antnums_to_baseline are answered from that contract instead of its body."""
    na = E.dim("NA", 2**31)
    BL = E.array("BL", (na, na), "i", lo=0)
    E.stub("UVData.antnums_to_baseline(a1, a2) = BL[a1, a2] for an injective table BL (postcondition proved under C01)")
    uv.antnums_to_baseline = lambda a1, a2, **k: BL[a1, a2]
    uv.baseline_array = BL[uv.ant_1_array, uv.ant_2_array]
    return BL
