"""C12 combining objects."""
import itertools

import numpy as np
from pvc.reg import contract
from contracts.objs import *
from contracts import gen

U = "pyuvdata.uvdata.uvdata:UVData."
T = "pyuvdata.utils.tools:"


@contract("C12", funcs=[T + "_sorted_unique_union", T + "_sorted_unique_intersection", T + "_sorted_unique_difference"], cases=200)
def sorted_sets(E):
    from pyuvdata.utils import tools

    n, m = E.dim("n", 1, 5), E.dim("m", 1, 5)
    a = E.array("a", (n,), "i", lo=0, hi=None if E.mode == "sym" else 6)
    b = E.array("b", (m,), "i", lo=0, hi=None if E.mode == "sym" else 6)
    f, mem = E.choice("f", [
        (tools._sorted_unique_union, lambda x: E.Or(E.member(a, x), E.member(b, x))),
        (tools._sorted_unique_intersection, lambda x: E.And(E.member(a, x), E.member(b, x))),
        (tools._sorted_unique_difference, lambda x: E.And(E.member(a, x), E.Not(E.member(b, x))))])
    r = f(a, b)
    L = E.length(r)
    E.ensure_all("sorted, without repeats", [L, L], lambda i, j: E.Implies(i < j, E.at(r, i) < E.at(r, j)))
    E.ensure_all("only members", [L], lambda i: mem(E.at(r, i)))
    E.ensure_all("every member of the first", [n], lambda i: E.Implies(mem(E.at(a, i)), E.member(r, E.at(a, i))))
    E.ensure_all("every member of the second", [m], lambda i: E.Implies(mem(E.at(b, i)), E.member(r, E.at(b, i))))


# ------------------------------------------------------------------ labelled-entry view of a UVData
def pc_desc(uv, i):
    d = dict(uv.phase_center_catalog[int(uv.phase_center_id_array[i])])
    d.pop("info_source", None)
    return tuple(sorted((k, str(v)) for k, v in d.items()))


def view(uv):
    """{label: values}: what the object says, independent of storage order."""
    blt = {}
    for i in range(uv.Nblts):
        k = (round(float(uv.time_array[i]), 8), int(uv.baseline_array[i]))
        assert k not in blt
        blt[k] = dict(ants=(int(uv.ant_1_array[i]), int(uv.ant_2_array[i])), lst=float(uv.lst_array[i]), it=float(uv.integration_time[i]),
                      uvw=tuple(uv.uvw_array[i].tolist()), ra=float(uv.phase_center_app_ra[i]), dec=float(uv.phase_center_app_dec[i]),
                      pa=float(uv.phase_center_frame_pa[i]), pc=pc_desc(uv, i), time=float(uv.time_array[i]),
                      scan=None if uv.scan_number_array is None else int(uv.scan_number_array[i]), row=i)
    fr = {}
    for j in range(uv.Nfreqs):
        k = (int(uv.flex_spw_id_array[j]), float(uv.freq_array[j]))
        assert k not in fr
        fr[k] = dict(cw=float(uv.channel_width[j]), eq=None if uv.eq_coeffs is None else tuple(uv.eq_coeffs[:, j].tolist()), row=j)
    po = {int(p): dict(row=j) for j, p in enumerate(uv.polarization_array)}
    return blt, fr, po


def check_union(E, out, parts, what="", soft=("scan", "eq")):
    """out is exactly the labelled union of the parts; samples of no part are flagged with zero weight."""
    vo = view(out)
    vp = [view(p) for p in parts]
    for ax, nm in enumerate(("records", "channels", "polarizations")):
        want = set().union(*[set(v[ax]) for v in vp])
        E.ensure(f"{what}{nm} are the union", set(vo[ax]) == want, detail=(sorted(vo[ax]), sorted(want)))
        for v in vp:
            for k, d in v[ax].items():
                for q, x in d.items():
                    if q == "row":
                        continue
                    y = vo[ax][k][q]
                    if q in soft and (y is None or x is None):
                        continue
                    E.ensure(f"{what}{nm}: {q} kept", y == x, detail=(k, q, x, y))
    if out.data_array is None:
        return
    cover = np.zeros(out.data_array.shape, dtype=bool)
    for p, v in zip(parts, vp):
        rows = [[vo[ax][k]["row"] for k in v[ax]] for ax in range(3)]
        src = [[d["row"] for d in v[ax].values()] for ax in range(3)]
        ix, sx = np.ix_(*rows), np.ix_(*src)
        if not hasattr(p, "_overwritten"):
            for a in gen.VIS:
                E.ensure(f"{what}{a} kept", np.array_equal(getattr(out, a)[ix], getattr(p, a)[sx]))
        cover[ix] = True
    gap = ~cover
    E.ensure(f"{what}gaps are flagged", out.flag_array[gap].all())
    E.ensure(f"{what}gaps have no weight", not out.nsample_array[gap].any() and not out.data_array[gap].any())


def _shuffle(E, uv, tag):
    r = E.np_rng
    if E.choice(f"shuf{tag}", [True, False]):
        uv.reorder_blts(r.permutation(uv.Nblts), run_check=False)
    if E.choice(f"shufp{tag}", [True, False]):
        uv.reorder_pols(r.permutation(uv.Npols), run_check=False)
    if E.choice(f"shuff{tag}", ["no", "rev", "spw"]) == "rev":
        uv.reorder_freqs(channel_order="-freq", run_check=False)
    return uv


def _regular(E, **k):
    """object whose records are unique (time, baseline) and whose polarizations are complete enough to pass checks"""
    return gen.uvdata(E, phys=False, fams=("lin", "circ"), npols=E.choice("np", [1, 2, 3, 4]), decreasing=False, maxper=4, **k)


def pieces(E, uv):
    """Cut uv into two rectangular pieces along one axis, or a product of subsets (possibly leaving gaps / overlapping on labels but not samples)."""
    r = E.np_rng
    n = dict(blt=uv.Nblts, freq=uv.Nfreqs, pol=uv.Npols)
    mode = E.choice("cut", ["one", "one", "cross"])
    sel = [{}, {}]
    if mode == "one":
        ax = E.choice("axis", [a for a in n if n[a] > 1] or ["none"])
        E.assume(ax != "none")
        m = r.random(n[ax]) < 0.5
        m[r.integers(n[ax])] ^= True
        E.assume(m.any() and not m.all())
        sel[0][ax], sel[1][ax] = np.nonzero(m)[0], np.nonzero(~m)[0]
    else:
        # disjoint on one axis, arbitrary (overlapping or not) subsets on the others
        ax = E.choice("axis", [a for a in n if n[a] > 1] or ["none"])
        E.assume(ax != "none")
        m = r.random(n[ax]) < 0.5
        E.assume(m.any() and not m.all())
        sel[0][ax], sel[1][ax] = np.nonzero(m)[0], np.nonzero(~m)[0]
        for b in n:
            if b != ax and n[b] > 1:
                for q in (0, 1):
                    k = r.integers(1, n[b] + 1)
                    sel[q][b] = np.sort(r.permutation(n[b])[:k])
    out = []
    for s in sel:
        kw = {}
        if "blt" in s:
            kw["blt_inds"] = s["blt"]
        if "freq" in s:
            kw["freq_chans"] = s["freq"]
        if "pol" in s:
            kw["polarizations"] = [int(p) for p in uv.polarization_array[s["pol"]]]
        out.append(uv.select(inplace=False, run_check=False, **kw))
    return out


@contract("C12", funcs=[U + "__add__", U + "__iadd__"], mode="bounded", cases=250, conc_tl=120)
def add_uvdata(E):
    """Splitting and adding, in any stored order: exactly the labelled union."""
    uv = _regular(E)
    a, b = pieces(E, uv)
    if E.choice("meta", [False, False, False, True]):
        for o in (a, b):
            o.data_array = o.flag_array = o.nsample_array = None
    _shuffle(E, a, "a")
    _shuffle(E, b, "b")
    sa, sb = gen.snap(a), gen.snap(b)
    ref = [a.copy(), b.copy()]
    if E.choice("inplace", [True, False]):
        out = a.copy()
        out += b
    else:
        out = a + b
        gen.unchanged(E, "first input", sa, a)
    gen.unchanged(E, "second input", sb, b)
    check_union(E, out, ref)
    gen.true_reports(E, out)
    out.check(run_check_acceptability=False)


@contract("C12", funcs=[U + "__add__"], mode="bounded", cases=60)
def add_rejects(E):
    """Overlapping samples are not silently merged; unless the first object's are all flagged zeros."""
    uv = _regular(E)
    a, b = pieces(E, uv)
    r = E.np_rng
    i, j, p = r.integers(b.Nblts), r.integers(b.Nfreqs), r.integers(b.Npols)
    x = b.select(blt_inds=[i], freq_chans=[j], polarizations=[int(b.polarization_array[p])], inplace=False, run_check=False)
    sx, sb = gen.snap(x), gen.snap(b)
    how = E.choice("how", ["plain", "this-empty", "other-empty"])
    if how == "plain":
        E.assume(x.data_array[0, 0, 0] != 0)
        E.ensure("overlap rejected", E.raises(ValueError, lambda: x + b) and E.raises(ValueError, lambda: b + x))
    elif how == "other-empty":
        x.data_array[...] = 0
        x.flag_array[...] = True
        E.assume(not (b.flag_array[i, j, p] and b.data_array[i, j, p] == 0))
        E.ensure("invalid data does not overwrite", E.raises(ValueError, lambda: b + x))
        out = x + b
        x._overwritten = True
        check_union(E, out, [b], "overwrite: ")
    else:
        y = b.copy()
        y.vis_units = "Jy"
        E.ensure("different units rejected", E.raises(ValueError, lambda: a + y))
        y = b.copy()
        y.telescope.antenna_positions = y.telescope.antenna_positions + 5.0
        E.ensure("different telescopes rejected", E.raises(ValueError, lambda: a + y))
    gen.unchanged(E, "rejected", sb, b)


@contract("C12", funcs=[U + "fast_concat"], mode="bounded", cases=200, conc_tl=120)
def concat_uvdata(E):
    """fast_concat of any number of disjoint parts keeps everything, in the order given."""
    uv = _regular(E, npc=E.choice("npc_", [1, 2, 3]), maxtimes=4)
    r = E.np_rng
    axis = E.choice("axis", ["blt", "freq", "polarization"])
    n = dict(blt=uv.Nblts, freq=uv.Nfreqs, polarization=uv.Npols)[axis]
    k = E.dim("parts", 2, 4)
    E.assume(n >= k)
    lab = np.concatenate([np.arange(k), r.integers(k, size=n - k)])
    lab = r.permutation(lab)
    parts, idx = [], []
    for q in range(k):
        s = np.nonzero(lab == q)[0]
        kw = {"blt": dict(blt_inds=s), "freq": dict(freq_chans=s), "polarization": dict(polarizations=[int(uv.polarization_array[i]) for i in s if i < uv.Npols])}[axis]
        o = uv.select(inplace=False, run_check=False, **kw)
        if axis == "blt":
            # catalogs of parts may list their sources under different ids
            for pid in list(o.phase_center_catalog):
                if pid not in o.phase_center_id_array:
                    if len(o.phase_center_catalog) > 1:
                        o._remove_phase_center(pid)
            if E.choice(f"renum{q}", [True, False]):
                for t, pid in enumerate(sorted(o.phase_center_catalog)):
                    o._update_phase_center_id(pid, new_id=100 + t)
                for t, pid in enumerate(sorted(o.phase_center_catalog)):
                    o._update_phase_center_id(pid, new_id=t)
        parts.append(o)
        idx.append(s)
    if axis == "freq":  # windows interleaved by the request are rejected with an error
        ids = np.concatenate([p.flex_spw_id_array for p in parts])
        E.assume(1 + np.count_nonzero(np.diff(ids)) == len(set(ids)))
    ref = [p.copy() for p in parts]
    snaps = [gen.snap(p) for p in parts]
    if E.choice("inplace", [True, False]):
        out = parts[0].copy()
        out.fast_concat(parts[1:], axis, inplace=True, run_check=False)
    else:
        out = parts[0].fast_concat(parts[1:] if k > 2 else parts[1], axis, run_check=False)
        gen.unchanged(E, "first input", snaps[0], parts[0])
    for q in range(1, k):
        gen.unchanged(E, f"input {q}", snaps[q], parts[q])
    check_union(E, out, ref)
    gen.true_reports(E, out)
    o = np.concatenate(idx)
    if axis == "blt":
        E.ensure("order as given", np.array_equal(out.time_array, uv.time_array[o]) and np.array_equal(out.baseline_array, uv.baseline_array[o]))
    elif axis == "freq":
        E.ensure("order as given", np.array_equal(out.freq_array, uv.freq_array[o]))
    else:
        E.ensure("order as given", np.array_equal(out.polarization_array, uv.polarization_array[o]))
    out.check(run_check_acceptability=False)


# ------------------------------------------------------------------ calibration, beam and flag objects
UC, UB, UF = "pyuvdata.uvcal.uvcal:UVCal.", "pyuvdata.uvbeam.uvbeam:UVBeam.", "pyuvdata.uvflag.uvflag:UVFlag."


def _labels(o):
    """axis name -> list of labels of the object's entries along it."""
    out = {}
    if hasattr(o, "cal_type"):
        out["ant"] = [int(x) for x in o.ant_array]
        out["time"] = [round(float(x), 8) for x in (o.time_array if o.time_array is not None else o.time_range[:, 0])]
        out["jones"] = [int(x) for x in o.jones_array]
        if o.wide_band or o.cal_type == "delay":
            out["spw"] = [int(x) for x in o.spw_array]
        else:
            out["freq"] = [(int(s), float(f)) for s, f in zip(o.flex_spw_id_array, o.freq_array)]
    elif hasattr(o, "beam_type"):
        out["freq"] = [float(x) for x in o.freq_array]
        if o.beam_type == "efield":
            out["feed"] = [str(x) for x in o.feed_array]
        else:
            out["pol"] = [int(x) for x in o.polarization_array]
        if o.pixel_coordinate_system == "healpix":
            out["pix"] = [int(x) for x in o.pixel_array]
        else:
            out["ax1"] = [round(float(x), 9) for x in o.axis1_array]
            out["ax2"] = [round(float(x), 9) for x in o.axis2_array]
    else:
        out["freq"] = [(int(s), float(f)) for s, f in zip(o.flex_spw_id_array, o.freq_array)]
        out["pol"] = [int(x) for x in o.polarization_array]
        if o.type == "baseline":
            out["blt"] = [(round(float(t), 8), int(b)) for t, b in zip(o.time_array, o.baseline_array)]
        else:
            out["time"] = [round(float(x), 8) for x in o.time_array]
            if o.type == "antenna":
                out["ant"] = [int(x) for x in o.ant_array]
    for k, v in out.items():
        assert len(set(v)) == len(v), (k, v)
    return out


def check_labelled(E, out, parts, axes_of, drop=(), gaps=None, fixed=()):
    """Every entry of every part is in `out` under its labels with its value; the labels are the union; what no part supplies is a gap."""
    lo = _labels(out)
    lp = [_labels(p) for p in parts]
    for ax in lo:
        want = set().union(*[set(l[ax]) for l in lp])
        E.ensure(f"labels of axis {ax} are the union", sorted(lo[ax]) == sorted(want), detail=(lo[ax], sorted(want)))
    axes = axes_of(out)
    cover = {}
    for q, (p, l) in enumerate(zip(parts, lp)):
        rows = {ax: [lo[ax].index(x) for x in l[ax]] for ax in l}
        for a, ax in axes.items():
            if a in drop or getattr(p, a, None) is None:
                continue
            got = getattr(out, a)
            E.ensure(f"{a} is kept", got is not None)
            if got is None:
                continue
            names = [x.rstrip("2") if x == "feed2" else x for x in ax.split()]
            ix = np.ix_(*[rows.get(nm, np.arange(got.shape[d])) for d, nm in enumerate(names)])
            src = np.asarray(getattr(p, a))
            E.ensure(f"{a} keeps the values of input {q}", np.array_equal(np.asarray(got)[ix], src, equal_nan=src.dtype.kind in "fc"), detail=(str(np.asarray(got)[ix])[:300], str(src)[:300]))
            if gaps and a in gaps:
                cover.setdefault(a, np.zeros(got.shape, bool))[ix] = True
    for a, c in cover.items():
        got = getattr(out, a)
        E.ensure(f"gaps of {a}", bool(np.all(got[~c] == gaps[a])))


def cut_two(E, o, axes, labels, allow_cross=True, only=None):
    """index dictionaries (axis -> rows) of two pieces that share no sample."""
    r = E.np_rng
    n = {k: len(v) for k, v in labels.items()}
    ax = E.choice("axis", sorted(a for a in n if n[a] > 1 and (only is None or a in only)) or ["none"])
    E.assume(ax != "none")
    m = r.random(n[ax]) < 0.5
    m[r.integers(n[ax])] ^= True
    E.assume(m.any() and not m.all())
    sel = [{ax: np.nonzero(m)[0]}, {ax: np.nonzero(~m)[0]}]
    cross = allow_cross and E.choice("cross", [False, False, True])
    if cross:
        for b in n:
            if b != ax and n[b] > 1:
                for q in (0, 1):
                    sel[q][b] = np.sort(r.permutation(n[b])[:r.integers(1, n[b] + 1)])
    return ax, sel, cross


def cal_take(c, s):
    """restriction of a UVCal, built attribute by attribute (independent of select)."""
    o = c.copy()
    for a, ax in gen.cal_axes(c).items():
        v = getattr(c, a)
        if v is not None:
            setattr(o, a, gen.take(np.array(v), ax, s))
    if "freq" in s:
        o.spw_array = np.array([x for x in c.spw_array if x in set(o.flex_spw_id_array.tolist())])
        o.Nfreqs = len(o.freq_array)
    o.Nspws = len(o.spw_array)
    o.Ntimes = len(o.time_array) if o.time_array is not None else len(o.time_range)
    o.Njones, o.Nants_data = len(o.jones_array), len(o.ant_array)
    return o


def cal_renumber(E, o, t):
    """another numbering of the same sources, with an entry that is not used dropped"""
    if o.phase_center_catalog is None or not E.choice(f"renum{t}", [True, False]):
        return
    for pid in list(o.phase_center_catalog):
        if pid not in o.phase_center_id_array and len(o.phase_center_catalog) > 1:
            o._remove_phase_center(pid)
    for i, pid in enumerate(sorted(o.phase_center_catalog)):
        o._update_phase_center_id(pid, new_id=100 + i)
    for i, pid in enumerate(sorted(o.phase_center_catalog)):
        o._update_phase_center_id(pid, new_id=i)


def cal_sources(E, out, parts):
    """every time of every part still points at the source it pointed at"""
    if out.phase_center_id_array is None:
        return
    def src(o):
        t = _labels(o)["time"]
        return {x: {k: str(v) for k, v in o.phase_center_catalog[int(i)].items() if k != "info_source"} for x, i in zip(t, o.phase_center_id_array)}
    so = src(out)
    for p in parts:
        for t, d in src(p).items():
            E.ensure("times keep their source", so.get(t) == d, detail=(t, d, so.get(t)))


def _perm_all(E, o, axes_of, taker, tag):
    r = E.np_rng
    if E.choice(f"perm{tag}", [True, False]):
        l = _labels(o)
        s = {}
        for ax in l:
            if E.choice(f"perm{tag}{ax}", [True, False]):
                p = r.permutation(len(l[ax]))
                if ax == "freq" and isinstance(l[ax][0], tuple):  # windows stay contiguous
                    p = np.array(sorted(p, key=lambda i: l[ax][i][0]))
                s[ax] = p
        o = taker(o, s)
    return o


@contract("C12", funcs=[UC + "__add__", UC + "__iadd__"], mode="bounded", cases=400, conc_tl=120)
def add_uvcal(E):
    """Two pieces of a calibration object, in any stored order, add up to exactly the labelled union."""
    c = gen.uvcal(E, decreasing=False, maxper=4)
    axes = gen.cal_axes(c)
    ax, sel, cross = cut_two(E, c, axes, _labels(c))
    a, b = [_perm_all(E, cal_take(c, s), gen.cal_axes, cal_take, t) for s, t in zip(sel, "ab")]
    tq = E.choice("tq", ["both", "both", "both", "first", "second"])
    if tq == "first":
        b.total_quality_array = None
    elif tq == "second":
        a.total_quality_array = None
    ql = E.choice("ql", ["both", "both", "both", "first", "second"])
    if ql == "first":
        b.quality_array = None
    elif ql == "second":
        a.quality_array = None
    if E.choice("meta", [False, False, False, True]):
        for o in (a, b):
            for n in ("gain_array", "delay_array", "flag_array", "quality_array", "total_quality_array"):
                setattr(o, n, None)
    for t, o in zip("ab", (a, b)):
        cal_renumber(E, o, t)
        o.check(run_check_acceptability=False)
    ref = [a.copy(), b.copy()]
    sa, sb = gen.snap(a), gen.snap(b)
    if E.choice("inplace", [True, False]):
        out = a.copy()
        out += b
    else:
        out = a + b
        gen.unchanged(E, "first input", sa, a)
    gen.unchanged(E, "second input", sb, b)
    cal_sources(E, out, ref)
    la, lb = _labels(a), _labels(b)
    newants = bool(set(lb["ant"]) - set(la["ant"]))
    drop = ["phase_center_id_array"] + (["spw_array"] if "freq" in la else [])
    if newants and not a.metadata_only:
        drop.append("total_quality_array")
        if a.total_quality_array is not None or b.total_quality_array is not None:
            E.ensure("total quality cannot be combined over antennas", out.total_quality_array is None)
    g = dict(flag_array=True, gain_array=0, delay_array=0, quality_array=0, total_quality_array=0)
    if cross and c.total_quality_array is not None:
        drop.append("total_quality_array")
    check_labelled(E, out, ref, gen.cal_axes, drop=drop, gaps=g)
    E.ensure("windows are the union", sorted(out.spw_array.tolist()) == sorted(set(a.spw_array.tolist()) | set(b.spw_array.tolist())))
    E.ensure("counts", (out.Nspws, out.Ntimes, out.Njones, out.Nants_data) == (len(out.spw_array), len(_labels(out)["time"]), len(out.jones_array), len(out.ant_array)))
    out.check(run_check_acceptability=False)


@contract("C12", funcs=[UC + "fast_concat"], mode="bounded", cases=250, conc_tl=120)
def concat_uvcal(E):
    c = gen.uvcal(E, decreasing=False, maxper=4)
    r = E.np_rng
    n = {k: len(v) for k, v in _labels(c).items()}
    k = E.dim("parts", 2, 3)
    ax = E.choice("axis", sorted(a for a in n if n[a] >= k) or ["none"])
    E.assume(ax != "none")
    lab = r.permutation(np.concatenate([np.arange(k), r.integers(k, size=n[ax] - k)]))
    if ax == "freq":
        lab = np.sort(lab)
    parts = [cal_take(c, {ax: np.nonzero(lab == q)[0]}) for q in range(k)]
    for o in parts:
        if E.choice("noqual", [False, False, True]):
            o.quality_array = None
        if E.choice("notqual", [False, False, True]):
            o.total_quality_array = None
        if ax == "time":
            cal_renumber(E, o, str(len(o.history)))
    ref, snaps = [p.copy() for p in parts], [gen.snap(p) for p in parts]
    name = {"ant": "antenna"}.get(ax, ax)
    if E.choice("inplace", [True, False]):
        out = parts[0].copy()
        out.fast_concat(parts[1:], name, inplace=True)
    else:
        out = parts[0].fast_concat(parts[1:] if k > 2 else parts[1], name)
        gen.unchanged(E, "first input", snaps[0], parts[0])
    for q in range(1, k):
        gen.unchanged(E, f"input {q}", snaps[q], parts[q])
    drop = ["phase_center_id_array"] + (["spw_array"] if "freq" in n else [])
    cal_sources(E, out, ref)
    if ax == "ant":
        drop.append("total_quality_array")
        E.ensure("no total quality over antennas", out.total_quality_array is None)
    check_labelled(E, out, ref, gen.cal_axes, drop=drop, gaps=dict(quality_array=0, total_quality_array=0))
    o = np.concatenate([np.nonzero(lab == q)[0] for q in range(k)])
    E.ensure("order as given", _labels(out)[ax] == [_labels(c)[ax][i] for i in o])


@contract("C12", funcs=[UC + "__add__", UC + "fast_concat"], mode="bounded", cases=80)
def add_uvcal_rejects(E):
    c = gen.uvcal(E, decreasing=False)
    r = E.np_rng
    how = E.choice("how", ["overlap", "telescope", "convention", "style", "kind", "time"])
    n = {k: len(v) for k, v in _labels(c).items()}
    sb = gen.snap(c)
    if how == "overlap":
        s = {a: np.sort(r.permutation(n[a])[:r.integers(1, n[a] + 1)]) for a in n}
        b = cal_take(c, s)
        E.ensure("overlap rejected", E.raises(ValueError, lambda: c + b) and E.raises(ValueError, lambda: b + c))
    else:
        ax = E.choice("axis", sorted(a for a in n if n[a] > 1) or ["none"])
        E.assume(ax != "none")
        a, b = cal_take(c, {ax: np.arange(1)}), cal_take(c, {ax: np.arange(1, n[ax])})
        if how == "telescope":
            b.telescope = b.telescope.copy()
            b.telescope.antenna_positions = b.telescope.antenna_positions + 5.0
        elif how == "convention":
            b.gain_convention = {"divide": "multiply", "multiply": "divide"}[b.gain_convention]
        elif how == "style":
            b.cal_style = {"sky": "redundant", "redundant": "sky"}[b.cal_style]
            b.sky_catalog, b.ref_antenna_name = "cat", str(b.telescope.antenna_names[0])
            b.ref_antenna_array = a.ref_antenna_array = None
        elif how == "kind":
            E.assume(ax != "freq" and not c.wide_band)
            if b.cal_type == "gain":
                b.Nfreqs, b.freq_range = 1, np.stack([b.freq_array.min() * np.ones(b.Nspws), b.freq_array.max() * np.ones(b.Nspws) + 1], 1)
                b.freq_array = b.channel_width = b.flex_spw_id_array = None
                b._set_wide_band(True)
                for q in ("gain_array", "flag_array", "quality_array", "total_quality_array"):
                    if getattr(b, q) is not None:
                        setattr(b, q, np.take(getattr(b, q), np.zeros(b.Nspws, int), axis=0 if q.startswith("total") else 1))
            else:
                E.assume(False)
        elif how == "time":
            E.assume(ax != "time")
            if b.time_array is not None:
                b.time_range = np.stack([b.time_array - 1e-6, b.time_array + 1e-6], 1)
                b.time_array = b.lst_array = None
            else:
                b.time_array = b.time_range.mean(axis=1)
                b.time_range = b.lst_range = None
            b.set_lsts_from_time_array()
        E.ensure(f"{how} rejected", E.raises(ValueError, lambda: a + b))
        E.ensure(f"{how} rejected by concat", E.raises(ValueError, lambda: a.fast_concat(b, {"ant": "antenna"}.get(ax, ax))))
    gen.unchanged(E, "source", sb, c)


def beam_take(b, s):
    o = b.copy()
    for a, ax in gen.beam_axes(b).items():
        v = getattr(b, a)
        if v is not None:
            ss = dict(s)
            if "feed" in s:
                ss["feed2"] = s["feed"]
            setattr(o, a, gen.take(np.array(v), ax, ss))
    o.Nfreqs = len(o.freq_array)
    if b.beam_type == "efield":
        o.Nfeeds = len(o.feed_array)
    else:
        o.Npols = len(o.polarization_array)
        if not np.any(np.isin(o.polarization_array, [-3, -4, -7, -8])):
            o.data_array = o.data_array.real.copy()
            o._data_array.expected_type = float
    if b.pixel_coordinate_system == "healpix":
        o.Npixels = len(o.pixel_array)
    else:
        o.Naxes1, o.Naxes2 = len(o.axis1_array), len(o.axis2_array)
    return o


@contract("C12", funcs=[UB + "__add__", UB + "__iadd__"], mode="bounded", cases=400, conc_tl=120)
def add_uvbeam(E):
    """Two pieces of a beam, in any stored order, add up to exactly the labelled union."""
    b0 = gen.uvbeam(E, maxfreqs=4)
    l = _labels(b0)
    ax, sel, cross = cut_two(E, b0, None, l)
    a, b = [beam_take(b0, s) for s in sel]
    r = E.np_rng

    def perm(o, t):
        lo = _labels(o)
        s = {}
        for x in ("freq", "pol", "feed", "pix"):
            if x in lo and E.choice(f"perm{t}{x}", [False, True]):
                s[x] = r.permutation(len(lo[x]))
        return beam_take(o, s)

    a, b = perm(a, "a"), perm(b, "b")
    if E.choice("onlyone", [False, False, False, True]) and a.loss_array is not None:
        (a if E.choice("which", [True, False]) else b).loss_array = None
    for o in (a, b):
        o.check(run_check_acceptability=False)
    ref = [a.copy(), b.copy()]
    sa, sb = gen.snap(a), gen.snap(b)
    if E.choice("inplace", [True, False]):
        out = a.copy()
        out += b
    else:
        out = a + b
        gen.unchanged(E, "first input", sa, a)
    gen.unchanged(E, "second input", sb, b)
    drop = ["loss_array"] if a.loss_array is None or b.loss_array is None else []
    if drop:
        E.ensure("an array only one input has is dropped", out.loss_array is None)
    check_labelled(E, out, ref, gen.beam_axes, drop=drop, gaps=dict(data_array=0, coupling_matrix=0))
    out.check(run_check_acceptability=False)
    # overlapping samples are rejected
    E.ensure("overlap rejected", E.raises(ValueError, lambda: out + ref[1]))
    x = ref[1].copy()
    what = E.choice("bad", ["model_name", "data_normalization"])
    setattr(x, what, {"model_name": "other", "data_normalization": "peak"}[what])
    E.ensure(f"different {what} rejected", E.raises(ValueError, lambda: ref[0] + x))


def flag_take(f, s):
    o = f.copy()
    for a, ax in gen.flag_axes(f).items():
        v = getattr(f, a, None)
        if v is not None:
            setattr(o, a, gen.take(np.array(v), ax, s))
    o.spw_array = np.array([x for x in f.spw_array if x in set(o.flex_spw_id_array.tolist())])
    o.Nspws, o.Nfreqs, o.Npols = len(o.spw_array), len(o.freq_array), len(o.polarization_array)
    o.Ntimes = len(np.unique(o.time_array))
    if f.type == "baseline":
        o.Nblts, o.Nbls = len(o.time_array), len(np.unique(o.baseline_array))
        o.Nants_data = len(np.union1d(o.ant_1_array, o.ant_2_array))
    if f.type == "antenna":
        o.Nants_data = len(o.ant_array)
    return o


@contract("C12", funcs=[UF + "__add__", UF + "__iadd__"], mode="bounded", cases=300, conc_tl=120)
def add_uvflag(E):
    """Two pieces of a flag / metric object concatenate to exactly the labelled union along the axis named."""
    f = gen.uvflag(E)
    if f.Nspws > 1 and E.choice("dupfreq", [False, False, True]):  # windows may hold the same sky frequencies
        q = f.flex_spw_id_array == f.spw_array[-1]
        f.freq_array[q] += f.freq_array[~q][0] - f.freq_array[q][0]
    l = _labels(f)
    ax, sel, _ = cut_two(E, f, None, l, allow_cross=False)
    if ax == "blt" and E.choice("bytime", [True, True, False]):  # pieces that list the same baselines, or the same times
        if E.choice("bybl", [True, False]):
            key, oth = f.baseline_array, f.time_array
        else:
            key, oth = f.time_array, f.baseline_array
        u = np.unique(key)
        E.assume(len(u) > 1)
        i0, i1 = [np.nonzero(key == x)[0] for x in u[:2]]
        com = [x for x in oth[i0] if x in oth[i1]]
        E.assume(len(com) > 0)
        sel = [{ax: np.array([i for x in com for i in ii if oth[i] == x])} for ii in (i0, i1)]
        f = flag_take(f, {ax: np.concatenate([x[ax] for x in sel])})
        l = _labels(f)
        sel = [{ax: np.arange(len(com))}, {ax: np.arange(len(com), 2 * len(com))}]
    if ax == "freq":  # windows stay contiguous when concatenated
        k = E.dim("cutat", 1, len(l["freq"]) - 1)
        sel = [{ax: np.arange(k)}, {ax: np.arange(k, len(l["freq"]))}]
    a, b = [flag_take(f, s) for s in sel]
    axis = {"blt": E.choice("bltaxis", ["time", "baseline"]), "ant": "antenna", "freq": "frequency", "time": "time", "pol": E.choice("polname", ["polarization", "pol", "jones"])}[ax]
    for o in (a, b):
        o.check(run_check_acceptability=False)
    ref = [a.copy(), b.copy()]
    sa, sb = gen.snap(a), gen.snap(b)
    if f.type == "baseline":
        same = [np.array_equal(getattr(a, n), getattr(b, n)) for n in (("time_array", "lst_array") if axis == "baseline" else ("baseline_array",)) if ax == "blt"]
        if not all(same):
            E.ensure("incompatible records rejected", E.raises(ValueError, lambda: a.__add__(b, axis=axis)))
            return
    if E.choice("inplace", [True, False]):
        out = a.copy()
        out.__iadd__(b, axis=axis)
    else:
        out = a.__add__(b, axis=axis)
        gen.unchanged(E, "first input", sa, a)
    gen.unchanged(E, "second input", sb, b)
    check_labelled(E, out, ref, gen.flag_axes)
    o = np.concatenate([s[ax] for s in sel])
    E.ensure("order as given", _labels(out)[ax] == [l[ax][i] for i in o])
    E.ensure("counts", (out.Nfreqs, out.Npols, out.Ntimes) == (len(out.freq_array), len(out.polarization_array), len(np.unique(out.time_array))))
    E.ensure("windows", out.Nspws == len(out.spw_array) and sorted(out.spw_array.tolist()) == sorted(set(f.spw_array.tolist())))
    if f.type == "baseline":
        E.ensure("baseline counts", (out.Nblts, out.Nbls, out.Nants_data) == (len(out.baseline_array), len(np.unique(out.baseline_array)), len(np.union1d(out.ant_1_array, out.ant_2_array))))
    out.check(run_check_acceptability=False)
    x = ref[1].copy()
    what = E.choice("bad", ["mode", "axis", "other axis"])
    if what == "mode":
        E.assume(f.mode == "metric")
        x.flag_array = x.metric_array > 0
        x.metric_array = x.weights_array = x.weights_square_array = None
        x._set_mode_flag()
        E.ensure("different modes rejected", E.raises(ValueError, lambda: ref[0].__add__(x, axis=axis)))
    elif what == "axis":
        E.ensure("unknown axis rejected", E.raises(ValueError, lambda: ref[0].__add__(x, axis="bad")))
    else:
        E.assume(ax != "pol")
        x.polarization_array = x.polarization_array - 1 if x.polarization_array.min() > -8 else x.polarization_array + 1
        E.ensure("different polarizations rejected", E.raises(ValueError, lambda: ref[0].__add__(x, axis=axis)))


@contract("C12", funcs=[U + "sum_vis", U + "diff_vis"], mode="bounded", cases=80)
def sum_diff(E):
    """sum_vis / diff_vis combine the data sample by sample, change nothing else and reject objects that differ."""
    a = _regular(E)
    r = E.np_rng
    b = a.copy()
    b.data_array = (r.normal(size=b.data_array.shape) + 1j * r.normal(size=b.data_array.shape)).astype(a.data_array.dtype)
    b.extra_keywords = {"KEYB": 2, "KEYA": 9}
    a.extra_keywords = {"KEYA": 1}
    diff = E.choice("diff", [True, False])
    bad = E.choice("bad", [None, None, "flag_array", "nsample_array", "time_array", "freq_array", "polarization_array", "order"])
    over = bad if bad in ("flag_array", "nsample_array") and E.choice("override", [True, False]) else None
    if bad == "flag_array":
        b.flag_array = ~b.flag_array
    elif bad == "nsample_array":
        b.nsample_array = b.nsample_array + 1
    elif bad == "time_array":
        b.time_array = b.time_array + 1e-3
        b.set_lsts_from_time_array()
    elif bad == "freq_array":
        b.freq_array = b.freq_array + 1e3
    elif bad == "polarization_array":
        E.assume(b.Npols > 1)
        b.reorder_pols(np.arange(b.Npols)[::-1], run_check=False)
    elif bad == "order":
        E.assume(len(set(b.time_array)) > 1)
        b.reorder_blts(np.argsort(-b.time_array, kind="stable"), run_check=False)
        E.assume(not np.array_equal(a.time_array, b.time_array))
    sa, sb = gen.snap(a), gen.snap(b)
    f = (lambda x, y, **k: x.diff_vis(y, **k)) if diff else (lambda x, y, **k: x.sum_vis(y, **k))
    if bad and not over:
        E.ensure(f"different {bad} rejected", E.raises(ValueError, lambda: f(a, b)))
        gen.unchanged(E, "rejected first", sa, a)
        gen.unchanged(E, "rejected second", sb, b)
        return
    kw = dict(override_params=[over]) if over else {}
    want = a.data_array - b.data_array if diff else a.data_array + b.data_array
    if E.choice("inplace", [True, False]):
        out = a.copy()
        f(out, b, inplace=True, **kw)
    else:
        out = f(a, b, **kw)
        gen.unchanged(E, "first", sa, a)
    gen.unchanged(E, "second", sb, b)
    E.ensure("data combined", np.array_equal(out.data_array, want))
    E.ensure("first object's keywords win", out.extra_keywords == {"KEYB": 2, "KEYA": 1})
    gen.unchanged(E, "everything else", sa, out, skip=("data_array", "extra_keywords", "history"))
