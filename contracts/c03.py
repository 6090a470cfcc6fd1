"""C03 selection on calibration, beam and flag objects."""
import numpy as np
from pvc.reg import contract
from contracts import gen

UC = "pyuvdata.uvcal.uvcal:UVCal."
UB = "pyuvdata.uvbeam.uvbeam:UVBeam."
UF = "pyuvdata.uvflag.uvflag:UVFlag."


# ------------------------------------------------------------------ proofs: moving every attribute along the selected axes
def sym_obj(E, obj, axes, kinds, dims, count):
    """fill obj's attributes with arbitrary arrays of the given axes; returns the old values"""
    old = {}
    for a, ax in axes.items():
        if a not in kinds:
            continue
        k, kw = kinds[a] if isinstance(kinds[a], tuple) else (kinds[a], {})
        v = E.array(a, tuple(dims[x] if x in dims else int(x) for x in ax.split()), k, **kw)
        setattr(obj, a, v)
        old[a] = E.old(v)
    for c, d in count.items():
        setattr(obj, c, dims[d])
    return old


def picked(E, obj, old, axes, dims, idx, cnt, skip=()):
    for a in old:
        if a in skip:
            continue
        ax = axes[a].split()
        got = getattr(obj, a)
        ds = [cnt.get(x, dims.get(x, None)) if x in dims else int(x) for x in ax]
        E.ensure(f"{a} has the selected size", E.And(*[s == d for s, d in zip(E.shape(got), ds)]))
        E.ensure_all(f"{a} holds the selected entries", ds, lambda *ix, ax=ax, a=a, got=got: E.same(E.at(got, *ix), E.at(old[a], *[E.at(idx[x], i) if x in idx else i for x, i in zip(ax, ix)])))


CALK = dict(ant_array="i", time_array="f", lst_array="f", integration_time="f", ref_antenna_array="i", scan_number_array="i", phase_center_id_array="i",
            jones_array="i", flag_array="b", quality_array="f", total_quality_array="f", gain_array="c", freq_array="f", channel_width="f",
            flex_spw_id_array="i", spw_array="i")


def _cal(E, which):
    from pyuvdata import UVCal

    c = UVCal()
    c._set_gain()
    kinds = dict(CALK)
    d = dict(ant=E.dim("Nants", 1, 4), time=E.dim("Ntimes", 1, 4), jones=E.dim("Njones", 1, 4), spw=1)
    wide = which == "spw"
    if wide:
        c._set_wide_band(True)
        d["spw"] = E.dim("Nspws", 1, 3)
        for a in ("freq_array", "channel_width", "flex_spw_id_array"):
            kinds.pop(a)
        kinds["freq_range"] = "f"
        c.Nfreqs = 1
    else:
        d["freq"] = E.dim("Nfreqs", 1, 4)
        d["spw"] = E.dim("Nspws", 1, 2)
    if which == "time":
        kinds["time_range"] = kinds["lst_range"] = "f"
    axes = gen.cal_axes(c)
    if wide:
        axes = {k: v for k, v in axes.items()}
    else:
        axes.setdefault("freq_array", "freq"), axes.setdefault("channel_width", "freq"), axes.setdefault("flex_spw_id_array", "freq")
    count = dict(Nants_data="ant", Ntimes="time", Njones="jones", Nspws="spw", **({} if wide else dict(Nfreqs="freq")))
    old = sym_obj(E, c, axes, kinds, d, count)
    c.history = "h"
    m = E.dim("m", 1, 4)
    inds = E.array("inds", (m,), "i", lo=0, hi=d[which] - 1)
    kw = {f"{a}_inds": None for a in ("ant", "time", "spw", "freq", "jones")}
    kw[which + "_inds"] = inds
    c._select_by_index(history_update_string=" sel", **kw)
    picked(E, c, old, axes, d, {which: inds}, {which: m}, skip=("spw_array",) if which == "freq" else ())
    E.ensure("count updated", getattr(c, {v: k for k, v in count.items()}[which]) == m)
    if which == "freq":
        L = E.length(c.spw_array)
        E.ensure_all("windows with channels are kept", [m, d["spw"]], lambda i, s: E.Implies(E.at(c.flex_spw_id_array, i) == E.at(old["spw_array"], s), E.member(c.spw_array, E.at(old["spw_array"], s))))
        E.ensure_all("only windows with channels are kept", [L], lambda s: E.And(E.member(c.flex_spw_id_array, E.at(c.spw_array, s)), E.member(old["spw_array"], E.at(c.spw_array, s))))
        E.ensure("Nspws", c.Nspws == L)
    for k, v in count.items():
        if v != which and not (which == "freq" and v == "spw"):
            E.ensure(f"{k} unchanged", getattr(c, k) == d[v])


def _mkc(w):
    @contract("C03", funcs=[UC + "_select_by_index"], cases=40, timeout=120, name=f"cal_select_by_index_{w}")
    def f(E):
        _cal(E, w)


for _w in ("ant", "time", "jones", "freq", "spw"):
    _mkc(_w)


FLK = dict(flag_array="b", metric_array="f", weights_array="f", weights_square_array="f", time_array="f", lst_array="f", ant_1_array="i", ant_2_array="i",
           baseline_array="i", ant_array="i", freq_array="f", channel_width="f", flex_spw_id_array="i", polarization_array="i")


def _flag(E, ftype):
    from pyuvdata import UVFlag

    f = UVFlag()
    mode = E.choice("mode", ["flag", "metric"])
    getattr(f, "_set_type_" + ftype)()
    getattr(f, "_set_mode_" + mode)()
    kinds = dict(FLK)
    for a in ("metric_array", "weights_array", "weights_square_array") if mode == "flag" else ("flag_array",):
        kinds.pop(a)
    if ftype != "baseline":
        for a in ("ant_1_array", "ant_2_array", "baseline_array"):
            kinds.pop(a)
    if ftype != "antenna":
        kinds.pop("ant_array")
    t = "blt" if ftype == "baseline" else "time"
    d = {t: E.dim("Nt", 1, 5), "freq": E.dim("Nfreqs", 1, 4), "pol": E.dim("Npols", 1, 3)}
    if ftype == "antenna":
        d["ant"] = E.dim("Nants", 1, 4)
    axes = gen.flag_axes(f)
    count = dict(Nfreqs="freq", Npols="pol")
    if t == "blt":
        count["Nblts"] = "blt"
    else:
        count["Ntimes"] = "time"
    if ftype == "antenna":
        count["Nants_data"] = "ant"
    old = sym_obj(E, f, axes, kinds, d, count)
    f.spw_array, f.Nspws = np.array([0]), 1
    f.history = "h"
    f.telescope.name = "t"
    f.label = ""
    # one criterion per axis, each a single arbitrary present value, or none
    idx, cnt, kw = {}, {}, {}
    sel = E.choice("sel", ["time", "freq", "pol", "inds", "time+pol"] + (["ant"] if ftype == "antenna" else []))
    preds = {}
    if "time" in sel:
        v = E.at(old["time_array"], E.int("it", 0, d[t] - 1))
        kw["times"] = [v]
        preds[t] = lambda i: E.at(old["time_array"], i) == v
    if "freq" in sel:
        v2 = E.at(old["freq_array"], E.int("if", 0, d["freq"] - 1))
        kw["frequencies"] = [v2]
        preds["freq"] = lambda i: E.at(old["freq_array"], i) == v2
    if "pol" in sel:
        v3 = E.at(old["polarization_array"], E.int("ip", 0, d["pol"] - 1))
        kw["polarizations"] = [v3]
        preds["pol"] = lambda i: E.at(old["polarization_array"], i) == v3
    if sel == "inds":
        m = E.dim("m", 1, 4)
        b = E.array("b", (m,), "i", lo=0, hi=d[t] - 1)
        kw["blt_inds"] = b
        preds[t] = lambda i: E.member(b, i)
    if sel == "ant":
        v4 = E.at(old["ant_array"], E.int("ia", 0, d["ant"] - 1))
        kw["antenna_nums"] = [v4]
        preds["ant"] = lambda i: E.at(old["ant_array"], i) == v4
    r = f._select_preprocess(**{**dict(antenna_nums=None, ant_str=None, bls=None, frequencies=None, freq_chans=None, times=None, polarizations=None, blt_inds=None, ant_inds=None), **kw})
    got = {t: r[0], "ant": r[1], "freq": r[2], "pol": r[3]}
    for x in d:
        g = got[x]
        if x not in preds:
            E.ensure(f"{x} axis not selected", g is None)
            continue
        L = E.length(g)
        E.ensure_all(f"only matching {x} entries", [L], lambda j: E.And(E.at(g, j) >= 0, E.at(g, j) < d[x], preds[x](E.at(g, j))))
        E.ensure_all(f"every matching {x} entry", [d[x]], lambda i: E.Implies(preds[x](i), E.member(g, i)))
        E.ensure_all(f"{x} entries in order, once", [L, L], lambda i, j: E.Implies(i < j, E.at(g, i) < E.at(g, j)))


def _flagmove(E, ftype):
    """given the indices, every attribute is moved along every axis"""
    from pyuvdata import UVFlag

    f = UVFlag()
    getattr(f, "_set_type_" + ftype)()
    mode = E.choice("mode", ["flag", "metric"])
    getattr(f, "_set_mode_" + mode)()
    kinds = dict(FLK)
    for a in ("metric_array", "weights_array", "weights_square_array") if mode == "flag" else ("flag_array", "weights_square_array"):
        kinds.pop(a)
    for a in ("ant_1_array", "ant_2_array", "baseline_array") if ftype != "baseline" else ("ant_array",):
        kinds.pop(a)
    if ftype == "waterfall":
        kinds.pop("ant_array")
    t = "blt" if ftype == "baseline" else "time"
    d = {t: E.dim("Nt", 1, 5), "freq": E.dim("Nfreqs", 1, 4), "pol": E.dim("Npols", 1, 3)}
    if ftype == "antenna":
        d["ant"] = E.dim("Nants", 1, 4)
    axes = gen.flag_axes(f)
    old = sym_obj(E, f, axes, kinds, d, dict(Nfreqs="freq", Npols="pol"))
    f.spw_array, f.Nspws = np.array([0]), 1
    f.history = "h"
    w = E.choice("which", list(d))
    m = E.dim("m", 1, 4)
    inds = E.array("inds", (m,), "i", lo=0, hi=d[w] - 1)
    key = {"blt": 0, "time": 0, "ant": 1, "freq": 2, "pol": 3}[w]
    ret = [None] * 4
    ret[key] = inds
    f._select_preprocess = lambda **k: (*ret, " sel")
    E.stub("UVFlag._select_preprocess: any index list (its own contract: flag_criteria_*)")
    f.select(run_check=False)
    picked(E, f, old, axes, d, {w: inds}, {w: m})


def _mkf(w):
    @contract("C03", funcs=[UF + "_select_preprocess"], cases=60, timeout=120, name=f"flag_criteria_{w}")
    def f(E):
        _flag(E, w)

    @contract("C03", funcs=[UF + "select", UF + "_select_metadata"], cases=60, timeout=120, name=f"flag_select_moves_{w}")
    def g(E):
        _flagmove(E, w)


for _w in ("baseline", "antenna", "waterfall"):
    _mkf(_w)


# ------------------------------------------------------------------ public API (bounded)
def subset(E, n, tag, dup=True):
    r = E.np_rng
    k = int(r.integers(1, n + 1))
    ix = r.permutation(n)[:k]
    if dup and E.choice("dup" + tag, [False, False, True]):
        ix = np.r_[ix, ix[:1]]
    return ix, np.unique(ix)


def rest_same(E, obj, old, axes, counts, skip=("history", "filename")):
    for k, v in gen.snap(obj).items():
        if k in axes or k in counts or k in skip:
            continue
        E.ensure(f"{k} unchanged", gen.val_eq(old[k], v), detail=(str(old[k])[:200], str(v)[:200]))


@contract("C03", funcs=[UC + "select", UC + "_select_preprocess", UC + "_select_by_index"], mode="bounded", cases=250, conc_tl=100)
def cal_select(E):
    c = gen.uvcal(E, maxtimes=4, maxper=4)
    old, axes = gen.snap(c), gen.cal_axes(c)
    r = E.np_rng
    spw_axis = c.wide_band or c.cal_type == "delay"
    idx, kw = {}, {}
    if E.choice("s_ant", [True, False]):
        req, idx["ant"] = subset(E, c.Nants_data, "a")
        nums = c.ant_array[req]
        if E.choice("byname", [True, False]):
            tn = c.telescope.antenna_numbers.tolist()
            kw["antenna_names"] = [str(c.telescope.antenna_names[tn.index(a)]) for a in nums]
        else:
            kw["antenna_nums"] = E.choice("form", [nums, nums.tolist()])
    if E.choice("s_time", [True, False]):
        req, sel = subset(E, c.Ntimes, "t")
        if c.time_array is not None:
            how = E.choice("thow", ["times", "range"])
            if how == "times":
                kw["times"] = c.time_array[req]
            else:
                a, b = sorted(float(c.time_array[i]) for i in (req[0], req[-1]))
                kw["time_range"] = [a - 1e-6, b + 1e-6]
                sel = np.nonzero((c.time_array >= a - 1e-6) & (c.time_array <= b + 1e-6))[0]
        else:
            kw["times"] = np.mean(c.time_range, axis=1)[req]
        idx["time"] = sel
    if c.phase_center_id_array is not None and E.choice("s_pc", [True, False, False]):
        q = int(r.choice(c.phase_center_id_array))
        kw["phase_center_ids"] = [q]
        m = np.nonzero(c.phase_center_id_array == q)[0]
        idx["time"] = np.intersect1d(m, idx["time"]) if "time" in idx else m
        E.assume(len(idx["time"]) > 0)
    if E.choice("s_freq", [True, False]):
        if spw_axis:
            req, sel = subset(E, c.Nspws, "f")
            if c.Nspws > 1:
                kw["spws"] = c.spw_array[req]
                idx["spw"] = sel
        else:
            req, sel = subset(E, c.Nfreqs, "f")
            how = E.choice("fhow", ["chans", "freqs", "spws"])
            if how == "chans":
                kw["freq_chans"] = E.choice("fform", [req, req.tolist()])
            elif how == "freqs":
                kw["frequencies"] = c.freq_array[req]
                sel = np.nonzero(np.isin(c.freq_array, c.freq_array[req]))[0]
            elif c.Nspws > 1:
                s = int(r.choice(c.spw_array))
                kw["spws"] = [s]
                sel = np.nonzero(c.flex_spw_id_array == s)[0]
            else:
                sel = np.arange(c.Nfreqs)
            idx["freq"] = sel
            keep = [i for i, s in enumerate(c.spw_array) if s in c.flex_spw_id_array[sel]]
            idx["spw"] = np.array(keep)
    if E.choice("s_jones", [True, False]):
        req, idx["jones"] = subset(E, c.Njones, "j")
        kw["jones"] = [int(x) for x in c.jones_array[req]]
    inplace = E.choice("inplace", [True, False])
    out = c.select(inplace=inplace, run_check=E.choice("rc", [True, False]), **kw)
    if inplace:
        out = c
    else:
        gen.unchanged(E, "original", old, c)
    gen.expect_axes(E, out, old, axes, idx)
    cnt = dict(Nants_data="ant", Ntimes="time", Njones="jones", Nspws="spw", Nfreqs="freq")
    for a, x in cnt.items():
        if x in idx:
            E.ensure(f"{a}", getattr(out, a) == len(idx[x]), detail=(getattr(out, a), len(idx[x])))
    rest_same(E, out, old, axes, [a for a, x in cnt.items() if x in idx])


@contract("C03", funcs=[UF + "select"], mode="bounded", cases=250, conc_tl=100)
def flag_select(E):
    f = gen.uvflag(E, maxtimes=4)
    old, axes = gen.snap(f), gen.flag_axes(f)
    r = E.np_rng
    t = "blt" if f.type == "baseline" else "time"
    nt = f.Nblts if t == "blt" else f.Ntimes
    idx, kw = {}, {}

    def meet(m):
        idx[t] = np.intersect1d(idx[t], m) if t in idx else np.unique(m)

    if E.choice("s_time", [True, False]):
        req, _ = subset(E, nt, "t")
        kw["times"] = f.time_array[req]
        meet(np.nonzero(np.isin(f.time_array, f.time_array[req]))[0])
    if E.choice("s_inds", [True, False, False]):
        req, u = subset(E, nt, "b")
        kw["blt_inds"] = req
        meet(u)
    if f.type == "baseline" and E.choice("s_ant", [True, False]):
        pool = np.unique(np.r_[f.ant_1_array, f.ant_2_array])
        if E.choice("bl", [True, False]):
            i = r.integers(0, nt, 2)
            prs = [(int(f.ant_1_array[j]), int(f.ant_2_array[j])) for j in i]
            present = set(zip(f.ant_1_array.tolist(), f.ant_2_array.tolist()))
            req = [p[::-1] if E.choice(f"rev{q}", [False, True]) and p[::-1] not in present else p for q, p in enumerate(prs)]
            kw["bls"] = req
            meet(np.nonzero([(a, b) in prs for a, b in zip(f.ant_1_array.tolist(), f.ant_2_array.tolist())])[0])
        else:
            ix, _ = subset(E, len(pool), "p")
            kw["antenna_nums"] = pool[ix]
            meet(np.nonzero(np.isin(f.ant_1_array, pool[ix]) & np.isin(f.ant_2_array, pool[ix]))[0])
    if f.type == "antenna" and E.choice("s_ant", [True, False]):
        req, idx["ant"] = subset(E, f.Nants_data, "a")
        kw["antenna_nums"] = f.ant_array[req]
    if E.choice("s_freq", [True, False]):
        req, sel = subset(E, f.Nfreqs, "f")
        how = E.choice("fhow", ["chans", "freqs"])
        kw["freq_chans" if how == "chans" else "frequencies"] = req if how == "chans" else f.freq_array[req]
        idx["freq"] = sel if how == "chans" else np.nonzero(np.isin(f.freq_array, f.freq_array[req]))[0]
    if E.choice("s_pol", [True, False]):
        req, idx["pol"] = subset(E, f.Npols, "q")
        kw["polarizations"] = [int(x) for x in f.polarization_array[req]]
    inplace = E.choice("inplace", [True, False])
    if t in idx and len(idx[t]) == 0:
        E.ensure("no match is rejected", E.raises(ValueError, lambda: f.select(inplace=inplace, **kw)))
        return
    out = f.select(inplace=inplace, run_check=E.choice("rc", [True, False]), **kw)
    if inplace:
        out = f
    else:
        gen.unchanged(E, "original", old, f)
    gen.expect_axes(E, out, old, axes, idx)
    cnt = dict(Nfreqs="freq", Npols="pol", Nants_data="ant", Nblts="blt")
    for a, x in cnt.items():
        if x in idx:
            E.ensure(f"{a}", getattr(out, a) == len(idx[x]))
    if t in idx:
        E.ensure("Ntimes", out.Ntimes == len(set(np.asarray(old["time_array"])[idx[t]])))
        if t == "blt":
            E.ensure("Nbls", out.Nbls == len(set(old["baseline_array"][idx[t]])))
    skip = ["history", "filename", "Ntimes", "Nbls", "Nants_data", "spw_array", "Nspws"]
    rest_same(E, out, old, axes, [a for a, x in cnt.items() if x in idx], skip=tuple(skip))


@contract("C03", funcs=[UB + "select"], mode="bounded", cases=250, conc_tl=120)
def beam_select(E):
    b = gen.uvbeam(E)
    old, axes = gen.snap(b), gen.beam_axes(b)
    idx, kw = {}, {}
    if b.pixel_coordinate_system == "healpix":
        if E.choice("s_pix", [True, False]):
            req, idx["pix"] = subset(E, b.Npixels, "p")
            kw["pixels"] = b.pixel_array[req]
    else:
        for x, n in (("ax1", b.Naxes1), ("ax2", b.Naxes2)):
            if E.choice("s_" + x, [True, False]):
                req, idx[x] = subset(E, n, x)
                kw[f"axis{x[-1]}_inds"] = E.choice("form" + x, [req, req.tolist()])
    if E.choice("s_freq", [True, False]):
        req, idx["freq"] = subset(E, b.Nfreqs, "f")
        how = E.choice("fhow", ["chans", "freqs"])
        kw["freq_chans" if how == "chans" else "frequencies"] = req if how == "chans" else b.freq_array[req]
    if b.beam_type == "efield":
        if E.choice("s_feed", [True, False]):
            req, idx["feed"] = subset(E, b.Nfeeds, "e")
            idx["feed2"] = idx["feed"]
            kw["feeds"] = [str(x) for x in b.feed_array[req]]
    elif E.choice("s_pol", [True, False]):
        req, idx["pol"] = subset(E, b.Npols, "q")
        kw["polarizations"] = [int(x) for x in b.polarization_array[req]]
    inplace = E.choice("inplace", [True, False])
    out = b.select(inplace=inplace, run_check=E.choice("rc", [True, False]), **kw)
    if inplace:
        out = b
    else:
        gen.unchanged(E, "original", old, b)
    gen.expect_axes(E, out, old, axes, idx)
    cnt = dict(Nfreqs="freq", Npols="pol", Nfeeds="feed", Naxes1="ax1", Naxes2="ax2", Npixels="pix")
    for a, x in cnt.items():
        if x in idx:
            E.ensure(f"{a}", getattr(out, a) == len(idx[x]), detail=(getattr(out, a), len(idx[x])))
    rest_same(E, out, old, axes, [a for a, x in cnt.items() if x in idx])


@contract("C03", funcs=[UC + "select", UF + "select", UB + "select"], mode="bounded", cases=90)
def absent_rejected(E):
    cls = E.choice("cls", ["cal", "flag", "beam"])
    if cls == "cal":
        o = gen.uvcal(E)
        opts = [dict(antenna_nums=[999]), dict(antenna_names=["nobody"]), dict(times=[1.0]), dict(time_range=[1.0, 2.0]), dict(jones=[-99]), dict(jones=[int(o.jones_array[0]), 77])]
        if not (o.wide_band or o.cal_type == "delay"):
            opts += [dict(frequencies=[1.0]), dict(frequencies=[float(o.freq_array[0]), 1.0])]
        elif o.Nspws > 1:
            opts += [dict(spws=[77])]
    elif cls == "flag":
        o = gen.uvflag(E)
        opts = [dict(times=[1.0]), dict(frequencies=[1.0]), dict(polarizations=[-99]), dict(blt_inds=[9999]), dict(blt_inds=[-1]), dict(antenna_nums=[999])]
        if o.type != "baseline":
            opts += [dict(bls=[(0, 1)])]
    else:
        o = gen.uvbeam(E)
        opts = [dict(frequencies=[1.0])]
        opts += [dict(pixels=[10**6]), dict(axis1_inds=[0])] if o.pixel_coordinate_system == "healpix" else [dict(axis1_inds=[999]), dict(axis2_inds=[-1]), dict(pixels=[0])]
        opts += [dict(feeds=["q"]), dict(polarizations=[-5])] if o.beam_type == "efield" else [dict(polarizations=[-99]), dict(feeds=["x"])]
    bad = E.choice("bad", opts)
    old = gen.snap(o)
    E.ensure("rejected", E.raises((ValueError, IndexError), lambda: o.select(**bad)), detail=bad)
    gen.unchanged(E, "rejected select", old, o)


BK = dict(freq_array="f", bandpass_array="f", receiver_temperature_array="f", loss_array="f", mismatch_array="f", s_parameters="c", data_array="c",
          basis_vector_array="f", polarization_array="i", axis1_array="f", axis2_array="f", pixel_array="i")


def _beam(E, coords, sel):
    """given a list of axis indices, or one label, every attribute keeps exactly the matching entries"""
    from pyuvdata import UVBeam

    b = UVBeam()
    b.pixel_coordinate_system = coords
    bt = E.choice("type", ["efield", "power"])
    b.beam_type = bt
    b.antenna_type = "simple"
    b.data_normalization = "physical"
    kinds = dict(BK)
    d = dict(freq=E.dim("Nfreqs", 1, 4), vec=2 if bt == "efield" else 1, comp=2)
    if coords == "healpix":
        d["pix"] = E.dim("Npix", 1, 6)
        kinds.pop("axis1_array"), kinds.pop("axis2_array")
    else:
        d["ax1"], d["ax2"] = E.dim("N1", 1, 4), E.dim("N2", 1, 4)
        kinds.pop("pixel_array")
    if bt == "efield":
        d["feed"] = 2
        b.Nfeeds, b.feed_array = 2, np.array(["x", "y"])
        kinds.pop("polarization_array")
    else:
        d["pol"] = E.dim("Npols", 1, 3)
        kinds.pop("basis_vector_array")
    axes = gen.beam_axes(b)
    kinds["polarization_array"] = ("i", dict(lo=-8, hi=-5)) if bt == "power" else None
    kinds = {k: v for k, v in kinds.items() if v is not None}
    if bt == "power":
        # autos only: the cross-polarization clean-up (complex to real) is checked on the executions
        kinds["polarization_array"] = ("i", dict(lo=-6, hi=-5))
        kinds["data_array"] = "f"
    old = sym_obj(E, b, axes, kinds, d, dict(Nfreqs="freq"))
    for nm, x in (("Naxes1", "ax1"), ("Naxes2", "ax2"), ("Npixels", "pix"), ("Npols", "pol")):
        if x in d:
            setattr(b, nm, d[x])
    b.history = "h"
    E.assume(sel in d)
    N = d[sel]
    # one attribute of the axis carries each entry's old position
    tag = dict(ax1="axis1_array", ax2="axis2_array", pix="pixel_array", freq="bandpass_array", pol=None)[sel]
    if tag:
        setattr(b, tag, E.arange(N) + (0 if sel == "pix" else 0.0))
        old[tag] = E.old(getattr(b, tag))
    if sel in ("ax1", "ax2"):
        m = E.dim("m", 1, 4)
        req = E.array("req", (m,), "i", lo=0, hi=N - 1)
        kw = {f"axis{sel[-1]}_inds": req}
        pred = lambda i: E.member(req, i)
        lab = old[f"axis{sel[-1]}_array"]
    else:
        attr, key = dict(pix=("pixel_array", "pixels"), freq=("freq_array", "frequencies"), pol=("polarization_array", "polarizations"))[sel]
        v = E.at(old[attr], E.int("j", 0, N - 1))
        if sel == "pol":
            E.assume(E.Or(v == -5, v == -6))
        kw = {key: [v]}
        lab = old[attr]
        pred = lambda i: E.at(lab, i) == v
    b.select(run_check=False, **kw)
    nm = {"ax1": "Naxes1", "ax2": "Naxes2", "pix": "Npixels", "freq": "Nfreqs", "pol": "Npols"}[sel]
    L = getattr(b, nm)
    q = getattr(b, tag)
    E.ensure_all("only matching entries", [L, N], lambda i, k: E.Implies(E.at(q, i) == k, pred(k)))
    E.ensure_all("kept entries existed", [L], lambda i: E.member(old[tag], E.at(q, i)))
    E.ensure_all("every matching entry is kept", [N], lambda k: E.Implies(pred(k), E.member(q, k)))
    E.ensure_all("in stored order, once", [L, L], lambda i, j: E.Implies(i < j, E.at(q, i) < E.at(q, j)))
    for a in old:
        ax = axes[a].split()
        got = getattr(b, a)
        ds = [L if x == sel else (d[x] if x in d else int(x)) for x in ax]
        E.ensure(f"{a} has the selected size", E.And(*[x == y for x, y in zip(E.shape(got), ds)]))
        if sel in ax:
            z = ax.index(sel)
            E.ensure_all(f"{a} moves with its entry", ds + [N], lambda *ix: E.Implies(E.at(q, ix[z]) == ix[-1], E.same(E.at(got, *ix[:-1]), E.at(old[a], *[ix[-1] if w == z else i for w, i in enumerate(ix[:-1])]))))
        else:
            E.ensure(f"{a} unchanged", E.same_array(got, old[a]))


def _mkb(coords, sel):
    @contract("C03", funcs=[UB + "select"], cases=60, timeout=120, name=f"beam_select_{coords}_{sel}")
    def f(E):
        _beam(E, coords, sel)


for _c, _s in (("az_za", "ax1"), ("az_za", "ax2"), ("healpix", "pix"), ("az_za", "freq"), ("healpix", "freq")):
    _mkb(_c, _s)


@contract("C03", funcs=["pyuvdata.utils.times:_select_times_helper"], cases=300, timeout=120)
def times_in_ranges(E):
    """Calibration objects that carry time ranges: a time (LST) picks exactly the ranges that contain it, a time (LST) range exactly those it overlaps, also through zero LST."""
    from pyuvdata.utils.times import _select_times_helper

    n = E.dim("n", 1, 5)
    form = E.choice("form", ["times", "lsts"] if E.mode == "sym" else ["times", "lsts", "time_range", "lst_range"])
    lst = form.startswith("lst")
    rng = E.array("ranges", (n, 2), "f", lo=0, hi=6.25)
    lo, hi = (lambda i: E.at(rng, i, 0)), (lambda i: E.at(rng, i, 1))
    kw = dict(times=None, time_range=None, lsts=None, lst_range=None)
    if not lst:
        E.assume(E.forall([n], lambda i: lo(i) <= hi(i)))
    if form in ("times", "lsts"):
        v = E.real("v", 0, 6.25)
        if E.mode == "conc" and E.choice("edge", [True, False, False]):
            v = float(np.asarray(rng).ravel()[0])
        kw[form] = [v]

        def ok(i):
            inside = E.And(lo(i) <= v, v <= hi(i))
            return E.Or(E.And(lo(i) <= hi(i), inside), E.And(lo(i) > hi(i), E.Or(v >= lo(i), v <= hi(i)))) if lst else inside
    else:
        a, b = E.real("a", 0, 6.25), E.real("b", 0, 6.25)
        if form == "time_range":
            E.assume(a <= b)
        kw[form] = [a, b]

        def segs(x, y):
            return [(x, y)] if x <= y else [(x, 2 * np.pi), (0.0, y)]

        def ok(i):
            return any(p[0] < q[1] and q[0] < p[1] for p in segs(a, b) for q in segs(float(rng[i, 0]), float(rng[i, 1])))
    try:
        r = _select_times_helper(obj_time_array=None, obj_time_range=None if lst else rng, obj_lst_array=None, obj_lst_range=rng if lst else None,
                                 time_tols=(0, 1e-3), lst_tols=(0, 1e-3), **kw)
    except ValueError:
        E.ensure_all("rejected only when no range matches", [n], lambda i: E.Not(ok(i)))
        return
    m = E.length(r)
    E.ensure_all("only matching ranges", [m], lambda j: E.And(E.at(r, j) >= 0, E.at(r, j) < n, ok(E.at(r, j))))
    E.ensure_all("every matching range", [n], lambda i: E.Implies(ok(i), E.member(r, i)))
