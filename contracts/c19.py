"""C19 flag combination and conversion."""
import numpy as np
from pvc.reg import contract
from contracts import gen

F = "pyuvdata.uvflag.uvflag:UVFlag."
M = "pyuvdata.uvflag.uvflag:"
SKIP = ("history", "filename")


def flags_and_data(E, ftype, pols_like=True):
    """A flag object and a visibility object covering the same axes, stored in unrelated orders."""
    r = E.np_rng
    uv = gen.uvdata(E, eq=False, scan=False, phase=False, npc=1, phys=False, both=False)
    f = gen.uvflag(E, ftype=ftype, mode="flag", uv=uv)
    return uv, f


def covered(uv, f, b, c, p):
    """(known, flagged) for visibility (b, c, p) according to the flag object f."""
    fi = int(np.argmin(np.abs(f.freq_array - uv.freq_array[c]))) if f.Nfreqs > 1 else 0
    if f.flag_array.shape[-1] == 1:
        pi = 0
    else:
        pi = f.polarization_array.tolist().index(uv.polarization_array[p])
    tm = np.abs(f.time_array - uv.time_array[b]) < 1e-8
    if f.type == "baseline":
        if f.Ntimes == 1:
            tm = np.ones_like(tm)
        m = np.nonzero((f.ant_1_array == uv.ant_1_array[b]) & (f.ant_2_array == uv.ant_2_array[b]) & tm)[0]
        return (False, False) if len(m) == 0 else (True, bool(f.flag_array[m[0], fi, pi]))
    t = np.nonzero(tm)[0]
    if f.type == "waterfall":
        return (True, bool(f.flag_array[t[0], fi, pi])) if len(t) else (True, False)
    if len(t) == 0:
        return False, False
    out = False
    for a in (uv.ant_1_array[b], uv.ant_2_array[b]):
        k = np.nonzero(np.asarray(f.ant_array) == a)[0]
        if len(k) == 0:
            return False, False
        out |= bool(f.flag_array[k[0], fi, t[0], pi])
    return True, out


@contract("C19", funcs=[M[:-1].replace("uvflag.uvflag", "utils.apply_uvflag") + ":apply_uvflag", F + "to_baseline"], mode="bounded", cases=400, conc_tl=120)
def apply_flags(E):
    """Every visibility covered by a flag is flagged, no other is (missing baselines as documented)."""
    from pyuvdata import utils

    r = E.np_rng
    ftype = E.choice("ftype", ["baseline", "baseline", "waterfall", "antenna"])
    uv, f = flags_and_data(E, ftype)
    if ftype == "baseline":
        how = E.choice("reorder", [[], ["blt"], ["pol"], ["freq"], ["blt", "pol", "freq"], ["drop"]])
        if "blt" in how:
            o = r.permutation(f.Nblts)
            for a in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "flag_array"):
                setattr(f, a, getattr(f, a)[o])
        if "pol" in how:
            o = r.permutation(f.Npols)
            f.polarization_array, f.flag_array = f.polarization_array[o], f.flag_array[..., o]
        if "freq" in how and f.Nspws == 1:
            o = r.permutation(f.Nfreqs)
            f.freq_array, f.channel_width, f.flag_array = f.freq_array[o], f.channel_width[o], f.flag_array[:, o]
        if "drop" in how:
            k = np.sort(r.permutation(f.Nblts)[: r.integers(1, f.Nblts + 1)])
            for a in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "flag_array"):
                setattr(f, a, getattr(f, a)[k])
            f.Nblts, f.Nbls = len(k), len(set(f.baseline_array))
            f.Ntimes, f.Nants_data = len(set(f.time_array)), len(set(f.ant_1_array) | set(f.ant_2_array))
            E.assume(f.Ntimes == 1 or f.Ntimes == uv.Ntimes)
        if E.choice("onepol", [False, False, True]) and f.Npols > 1:
            f.flag_array, f.Npols = f.flag_array[..., :1], 1
            f.polarization_array = f.polarization_array[:1]
        if E.choice("onefreq", [False, False, True]) and f.Nfreqs > 1 and f.Nspws == 1:
            f.flag_array, f.Nfreqs = f.flag_array[:, :1], 1
            f.freq_array, f.channel_width, f.flex_spw_id_array = f.freq_array[:1], f.channel_width[:1], f.flex_spw_id_array[:1]
    elif ftype == "antenna" and E.choice("dropant", [False, True]) and f.Nants_data > 1:
        f.flag_array, f.ant_array = f.flag_array[1:], f.ant_array[1:]
        f.Nants_data -= 1
    elif ftype == "waterfall" and E.choice("onepol", [False, True]) and f.Npols > 1:
        f.flag_array, f.Npols = f.flag_array[..., :1], 1
        f.polarization_array = f.polarization_array[:1]
    un, miss, inp = E.choice("unflag", [False, True]), E.choice("missing", [True, False]), E.choice("inplace", [True, False])
    old, fold = gen.snap(uv), gen.snap(f)
    want = np.zeros_like(uv.flag_array) if un else uv.flag_array.copy()
    for b, c, p in np.ndindex(*want.shape):
        known, fl = covered(uv, f, b, c, p)
        want[b, c, p] |= fl if known else (miss if ftype == "baseline" else True)
    out = utils.apply_uvflag(uv, f, unflag_first=un, flag_missing=miss, inplace=inp)
    if inp:
        out = uv
    else:
        gen.unchanged(E, "data object", old, uv)
    gen.unchanged(E, "flag object", fold, f)
    E.ensure("exactly the covered samples are flagged", np.array_equal(out.flag_array, want), detail=(ftype, un, miss))
    gen.unchanged(E, "rest of the data", old, out, skip=("flag_array", "history"))


@contract("C19", funcs=[M[:-1].replace("uvflag.uvflag", "utils.apply_uvflag") + ":apply_uvflag"], mode="bounded", cases=120)
def apply_rejects(E):
    """Flags for other times, channels or polarizations are rejected."""
    from pyuvdata import utils

    uv, f = flags_and_data(E, "baseline")
    how = E.choice("how", ["time", "freq", "pol", "mode"])
    s = E.choice("sign", [1, -1])
    k = E.np_rng
    if how == "time":
        E.assume(f.Ntimes > 1)
        t = f.time_array[k.integers(f.Nblts)]
        f.time_array = np.where(f.time_array == t, t + s * 3e-5, f.time_array)
        f.set_lsts_from_time_array()
    elif how == "freq":
        E.assume(f.Nfreqs > 1)
        f.freq_array = f.freq_array.copy()
        f.freq_array[k.integers(f.Nfreqs)] += s * 4.0e3
    elif how == "pol":
        E.assume(f.Npols > 1)
        f.polarization_array = f.polarization_array + (50 if f.polarization_array[0] > 0 else -50)
    else:
        f.to_metric()
    old, fold = gen.snap(uv), gen.snap(f)
    E.ensure(f"{how} mismatch rejected", E.raises(ValueError, lambda: utils.apply_uvflag(uv, f)))
    gen.unchanged(E, "rejected: data", old, uv)
    gen.unchanged(E, "rejected: flags", fold, f)


@contract("C19", funcs=[F + "to_baseline", F + "to_antenna", F + "to_waterfall", F + "collapse_pol", F + "to_flag", F + "to_metric"], mode="bounded", cases=400, conc_tl=120)
def conversions(E):
    """Every converted sample is marked exactly when a source flag covers it."""
    r = E.np_rng
    what = E.choice("what", ["wf-bl", "ant-bl", "wf-ant", "bl-wf", "ant-wf", "pol", "flag", "metric", "wf-bl-metric"])
    if what in ("wf-bl", "ant-bl"):
        uv, f = flags_and_data(E, "waterfall" if what == "wf-bl" else "antenna")
        if E.choice("onepol", [False, True]) and f.Npols > 1:
            f.flag_array, f.Npols = f.flag_array[..., :1], 1
            f.polarization_array = f.polarization_array[:1]
        if E.choice("fewer", [False, True]) and f.Ntimes > 1:
            ax = 0 if what == "wf-bl" else 2
            f.flag_array = np.delete(f.flag_array, 0, axis=ax)
            f.time_array, f.lst_array, f.Ntimes = f.time_array[1:], f.lst_array[1:], f.Ntimes - 1
        want = np.zeros_like(uv.flag_array)
        for b, c, p in np.ndindex(*want.shape):
            known, fl = covered(uv, f, b, c, p)
            want[b, c, p] = fl if known else True
        old = gen.snap(uv)
        f.to_baseline(uv, force_pol=True)
        E.ensure(f"{what}: flags", np.array_equal(f.flag_array, want))
        for a in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "freq_array", "polarization_array"):
            E.ensure(f"{what}: labels {a}", np.array_equal(getattr(f, a), getattr(uv, a)))
        E.ensure(f"{what}: type", f.type == "baseline" and f.Nblts == uv.Nblts)
        gen.unchanged(E, f"{what}: template", old, uv)
        return
    if what == "wf-bl-metric":
        uv = gen.uvdata(E, eq=False, scan=False, phase=False, npc=1, phys=False)
        f = gen.uvflag(E, ftype="waterfall", mode="metric", uv=uv)
        old = gen.snap(f)
        f.to_baseline(uv, force_pol=True)
        ti = [int(np.nonzero(np.abs(old["time_array"] - t) < 1e-8)[0][0]) for t in uv.time_array]
        for a in ("metric_array", "weights_array"):
            E.ensure(f"{what}: {a}", np.array_equal(getattr(f, a), old[a][ti]))
        return
    if what == "wf-ant":
        uv, f = flags_and_data(E, "waterfall")
        g = gen.uvflag(E, ftype="antenna", mode="flag", uv=uv)
        old = gen.snap(f)
        f.to_antenna(g)
        E.ensure(f"{what}: every antenna gets the waterfall flags", np.array_equal(f.flag_array, np.broadcast_to(np.swapaxes(old["flag_array"], 0, 1)[None], (len(g.ant_array),) + np.swapaxes(old["flag_array"], 0, 1).shape)))
        E.ensure(f"{what}: labels", np.array_equal(f.ant_array, g.ant_array) and np.array_equal(f.time_array, old["time_array"]) and np.array_equal(f.freq_array, old["freq_array"]))
        return
    if what in ("bl-wf", "ant-wf"):
        uv, f = flags_and_data(E, "baseline" if what == "bl-wf" else "antenna")
        m = E.choice("method", ["or", "and", "mean"])
        old = gen.snap(f)
        kp = E.choice("keep_pol", [True, False])
        fn = {"or": np.any, "and": np.all, "mean": np.mean}[m]
        f.to_waterfall(method=m, keep_pol=kp)
        got = f.metric_array if m == "mean" else f.flag_array
        for k, t in enumerate(f.time_array):
            src = old["flag_array"][old["time_array"] == t] if what == "bl-wf" else old["flag_array"][:, :, int(np.nonzero(old["time_array"] == t)[0][0])]
            w = fn(src, axis=0)
            if not kp:
                w = fn(src, axis=(0, 2))[:, None]
            E.ensure(f"{what}: {m} over exactly the samples of that time", np.allclose(got[k], w) if m == "mean" else np.array_equal(got[k], w), detail=(m, kp, k))
            E.ensure(f"{what}: lst", abs(f.lst_array[k] - old["lst_array"][int(np.nonzero(old["time_array"] == t)[0][0])]) < 1e-12)
        E.ensure(f"{what}: times", sorted(f.time_array) == sorted(set(old["time_array"])))
        E.ensure(f"{what}: channels", np.array_equal(f.freq_array, old["freq_array"]))
        return
    f = gen.uvflag(E, mode="metric" if what == "flag" else "flag")
    old = gen.snap(f)
    if what == "pol":
        E.assume(f.Npols > 1)
        m = E.choice("method", ["or", "and"])
        f.collapse_pol(method=m)
        E.ensure("pol collapse", np.array_equal(f.flag_array, (np.any if m == "or" else np.all)(old["flag_array"], axis=-1, keepdims=True)))
    elif what == "flag":
        th = float(r.normal())
        if E.choice("exact", [False, True]):
            th = float(old["metric_array"].ravel()[r.integers(old["metric_array"].size)])
        f.to_flag(threshold=th)
        E.ensure("threshold flags", np.array_equal(f.flag_array, old["metric_array"] >= th) and f.mode == "flag" and f.metric_array is None)
    else:
        cw = E.choice("wgts", [False, True])
        f.to_metric(convert_wgts=cw)
        E.ensure("metric values", np.array_equal(f.metric_array, old["flag_array"].astype(float)) and f.mode == "metric")
        if cw:
            fl = old["flag_array"]
            w = np.ones(fl.shape)
            if f.type == "antenna":
                bad = fl.all(axis=1, keepdims=True) | fl.all(axis=2, keepdims=True)
            elif f.type == "waterfall":
                bad = fl.all(axis=0, keepdims=True) | fl.all(axis=1, keepdims=True)
            else:
                bad = np.zeros_like(fl)
                for b in set(f.baseline_array):
                    i = f.baseline_array == b
                    bad[i] = fl[i].all(axis=0, keepdims=True) | fl[i].all(axis=1, keepdims=True)
            E.ensure("weights vanish exactly on fully flagged rows and columns", np.array_equal(f.weights_array, np.where(bad, 0.0, 1.0)))
    gen.unchanged(E, "other", old, f, skip=("flag_array", "metric_array", "weights_array", "mode", "history", "polarization_array", "Npols", "weights_square_array"))


@contract("C19", funcs=[F + "__or__", F + "__ior__", M + "flags2waterfall", M + "and_rows_cols", F + "combine_metrics"], mode="bounded", cases=200)
def unions(E):
    """Histories of unions of flag objects with the same axes, and waterfall summaries."""
    r = E.np_rng
    f = gen.uvflag(E, mode="flag")
    want = f.flag_array.copy()
    for k in range(E.dim("steps", 1, 3)):
        g = f.copy()
        g.flag_array = r.random(want.shape) < 0.3
        gold, fold = gen.snap(g), gen.snap(f)
        if E.choice(f"inp{k}", [True, False]):
            f |= g
        else:
            h = f | g
            gen.unchanged(E, "left operand", fold, f)
            f = h
        want |= gold["flag_array"]
        gen.unchanged(E, "right operand", gold, g)
        gen.unchanged(E, "other", fold, f, skip=("flag_array", "history"))
    E.ensure("union of all flags", np.array_equal(f.flag_array, want))
    from pyuvdata.uvflag.uvflag import and_rows_cols, flags2waterfall

    uv = gen.uvdata(E, eq=False, scan=False, phase=False, npc=1, phys=False)
    for kp in (True, False):
        w = flags2waterfall(uv, keep_pol=kp)
        for i, t in enumerate(np.unique(uv.time_array)):
            E.ensure("fraction of flagged samples per time and channel", np.allclose(w[i], uv.flag_array[uv.time_array == t].mean(axis=0 if kp else (0, 2))))
    x = r.random((3, 4)) < 0.8
    E.ensure("fully flagged rows and columns", np.array_equal(and_rows_cols(x), np.broadcast_to(x.all(axis=0), x.shape) | x.all(axis=1)[:, None]))


# ------------------------------------------------------------------ proofs
def _uvf(E, ftype, mode, dims):
    from pyuvdata import UVFlag

    f = UVFlag()
    getattr(f, f"_set_type_{ftype}")()
    getattr(f, f"_set_mode_{mode}")()
    ax = {"baseline": ("blt", "freq", "pol"), "antenna": ("ant", "freq", "time", "pol"), "waterfall": ("time", "freq", "pol")}[ftype]
    shp = tuple(dims[a] for a in ax)
    f.type, f.mode = ftype, mode
    f.history, f.pyuvdata_version_str = "h", "v"
    if mode == "flag":
        f.flag_array = E.array("flag_array", shp, "b")
    else:
        f.metric_array = E.array("metric_array", shp, "f")
        f.weights_array = E.array("weights_array", shp, "f")
    f.Nfreqs, f.Npols = dims["freq"], dims["pol"]
    if "time" in dims:
        f.Ntimes = dims["time"]
    return f, shp


def _dims(E, ftype):
    names = {"baseline": ("blt", "freq", "pol"), "antenna": ("ant", "freq", "time", "pol"), "waterfall": ("time", "freq", "pol")}[ftype]
    return {n: E.dim("N" + n, 1, 4) for n in names}


def _or(E, ftype, inplace):
    d = _dims(E, ftype)
    f, shp = _uvf(E, ftype, "flag", d)
    g, _ = _uvf(E, ftype, "flag", d)
    g.flag_array = E.array("other_flags", shp, "b")
    a, b = E.old(f.flag_array), E.old(g.flag_array)
    out = f.__or__(g, inplace=inplace, run_check=False)
    if inplace:
        out = f
    else:
        E.ensure_all("left operand unchanged", shp, lambda *ix: E.Iff(E.at(f.flag_array, *ix), E.at(a, *ix)))
    E.ensure("shape", E.And(*[x == y for x, y in zip(E.shape(out.flag_array), shp)]))
    E.ensure_all("a sample is flagged exactly when one input flags it", shp, lambda *ix: E.Iff(E.at(out.flag_array, *ix), E.Or(E.at(a, *ix), E.at(b, *ix))))
    E.ensure_all("right operand unchanged", shp, lambda *ix: E.Iff(E.at(g.flag_array, *ix), E.at(b, *ix)))


for _t in ("baseline", "antenna", "waterfall"):
    for _i in (True, False):
        contract("C19", funcs=[F + "__or__"], name=f"or_{_t}_{'inplace' if _i else 'new'}", cases=20)(lambda E, t=_t, i=_i: _or(E, t, i))


def _to_flag(E, ftype):
    d = _dims(E, ftype)
    f, shp = _uvf(E, ftype, "metric", d)
    m = E.old(f.metric_array)
    th = E.real("threshold")
    f.to_flag(threshold=th, run_check=False)
    E.ensure("mode", f.mode == "flag")
    E.ensure("shape", E.And(*[x == y for x, y in zip(E.shape(f.flag_array), shp)]))
    E.ensure_all("flagged exactly at or above the threshold", shp, lambda *ix: E.Iff(E.at(f.flag_array, *ix), E.at(m, *ix) >= th))


def _to_metric(E, ftype):
    d = _dims(E, ftype)
    f, shp = _uvf(E, ftype, "flag", d)
    m = E.old(f.flag_array)
    f.to_metric(run_check=False)
    E.ensure("mode", f.mode == "metric")
    E.ensure_all("metric is one exactly where flagged", shp, lambda *ix: E.at(f.metric_array, *ix) == E.ite(E.at(m, *ix), 1, 0))


for _t in ("baseline", "antenna", "waterfall"):
    contract("C19", funcs=[F + "to_flag"], name=f"to_flag_{_t}", cases=20)(lambda E, t=_t: _to_flag(E, t))
    contract("C19", funcs=[F + "to_metric"], name=f"to_metric_{_t}", cases=20)(lambda E, t=_t: _to_metric(E, t))


@contract("C19", funcs=[M + "and_rows_cols"], cases=40)
def rows_cols(E):
    """A sample is marked exactly when its whole row or its whole column is flagged."""
    from pyuvdata.uvflag.uvflag import and_rows_cols

    n, m = E.dim("n", 1, 5), E.dim("m", 1, 5)
    w = E.array("w", (n, m), "b")
    out = and_rows_cols(w)
    E.ensure_all("row or column fully flagged", (n, m), lambda i, j: E.Iff(E.at(out, i, j), E.Or(E.forall(n, lambda k: E.at(w, k, j)), E.forall(m, lambda k: E.at(w, i, k)))))


def _to_ant(E, mode, force):
    from pyuvdata import UVFlag

    d = _dims(E, "waterfall")
    f, shp = _uvf(E, "waterfall", mode, d)
    nf, nt, npol = d["freq"], d["time"], d["pol"]
    na = E.dim("Nants", 1, 4)
    np2 = npol
    if force:
        d["pol"] = npol = 1
        f, shp = _uvf(E, "waterfall", mode, d)
        np2 = E.dim("Npols2", 1, 4)
    g = UVFlag()
    g._set_type_antenna()
    g.type = "antenna"
    f.freq_array = g.freq_array = E.array("freqs", (nf,), "f")
    g.polarization_array = E.array("pols", (np2,), "i")
    f.polarization_array = E.array("onepol", (1,), "i") if force else g.polarization_array
    g.ant_array = E.array("ants", (na,), "i")
    names = ["flag_array"] if mode == "flag" else ["metric_array", "weights_array"]
    old = {a: E.old(getattr(f, a)) for a in names}
    f.to_antenna(g, force_pol=force, run_check=False)
    E.ensure("type", f.type == "antenna")
    E.ensure("antenna count", f.Nants_data == na)
    E.ensure("polarization count", f.Npols == np2)
    for a in names:
        got = getattr(f, a)
        E.ensure(f"{a} shape", E.And(*[x == y for x, y in zip(E.shape(got), (na, nf, nt, np2))]))
        E.ensure_all(f"{a}: every antenna has the sample of its channel, time and polarization", (na, nf, nt, np2),
                     lambda i, c, t, p, got=got, a=a: E.same(E.at(got, i, c, t, p), E.at(old[a], t, c, 0 if force else p)))
    E.ensure_all("antenna labels", (na,), lambda i: E.at(f.ant_array, i) == E.at(g.ant_array, i))


for _m in ("flag", "metric"):
    for _f in (False, True):
        contract("C19", funcs=[F + "to_antenna"], name=f"to_antenna_{_m}_{'broadcast' if _f else 'same'}", cases=20)(lambda E, m=_m, f=_f: _to_ant(E, m, f))
