"""C11 averaging and resampling."""
import contextlib
import io

import numpy as np
from pvc.reg import contract
from contracts import gen

U = "pyuvdata.uvdata.uvdata:UVData."
A = "pyuvdata.utils.array_collapse:"
D_TOL = dict(rtol=1e-9, atol=1e-12)


def average(d, n, f, w, summing):
    """documented average of the samples along axis 0 (weights w, flags f); flagged samples only count when all are flagged."""
    full = f.all(axis=0)
    use = ~f | full
    if summing:
        return (d * use).sum(axis=0), full
    ws = (w * use).sum(axis=0)
    return (d * w * use).sum(axis=0) / ws, full


@contract("C11", funcs=[U + "frequency_average"], mode="bounded", cases=500, conc_tl=120)
def freq_average(E):
    """Each output channel is the weighted mean of exactly the unflagged input channels of its group."""
    r = E.np_rng
    uv = gen.uvdata(E, phase=False, maxper=5, phys=False)
    n = E.dim("navg", 1, 4)
    summing, prop = E.choice("summing", [False, True]), E.choice("prop", [False, True])
    ragged, respect = E.choice("ragged", [True, False]), E.choice("respect", [True, True, False])
    if E.choice("clump", [True, False]):  # whole groups flagged
        uv.flag_array[r.random(uv.Nblts) < 0.5] = True
        uv.flag_array[:, r.random(uv.Nfreqs) < 0.5] = True
    old = gen.snap(uv)
    spws = uv.spw_array.tolist() if respect or uv.Nspws == 1 else [None]
    groups, gspw = [], []
    for s in spws:
        ch = np.nonzero(uv.flex_spw_id_array == s)[0] if s is not None else np.arange(uv.Nfreqs)
        for k in range(0, len(ch), n):
            g = ch[k : k + n]
            if len(g) == n or ragged:
                groups.append(g)
                gspw.append(0 if s is None else s)
    E.assume(len(groups) > 0)
    uv.frequency_average(n, summing_correlator_mode=summing, propagate_flags=prop, respect_spws=respect, keep_ragged=ragged)
    E.ensure("number of channels", uv.Nfreqs == len(groups))
    for name, got, fn in (("frequencies", uv.freq_array, lambda g: old["freq_array"][g].mean()), ("widths", uv.channel_width, lambda g: old["channel_width"][g].sum())):
        E.ensure(name, np.allclose(got, [fn(g) for g in groups], rtol=1e-12, atol=0), detail=(n, ragged, respect))
    E.ensure("windows", uv.flex_spw_id_array.tolist() == gspw)
    if uv.eq_coeffs is not None:
        E.ensure("eq coefficients", np.allclose(uv.eq_coeffs, np.stack([old["eq_coeffs"][:, g].mean(axis=1) for g in groups], axis=1), **D_TOL))
    for k, g in enumerate(groups):
        d, f, w = (np.moveaxis(old[a][:, g], 1, 0) for a in ("data_array", "flag_array", "nsample_array"))
        wd, full = average(d, None, f, w, summing)
        E.ensure("averaged data", np.allclose(uv.data_array[:, k], wd, **D_TOL), detail=(k, g.tolist(), n, summing, prop, ragged))
        E.ensure("flags", np.array_equal(uv.flag_array[:, k], f.any(axis=0) if prop else full), detail=(k, g.tolist(), n, prop))
        ns = (w * (~f | full)).sum(axis=0) / len(g)
        E.ensure("sample counts", np.allclose(uv.nsample_array[:, k], ns, **D_TOL), detail=(k, g.tolist(), n, ragged))
    gen.unchanged(E, "other", old, uv, skip=("data_array", "flag_array", "nsample_array", "freq_array", "channel_width", "flex_spw_id_array", "eq_coeffs", "Nfreqs", "history", "spw_array", "Nspws"))


def regular(E, scan=False, **k):
    """Data whose phase centers need no re-phasing, one phase center per baseline."""
    r = E.np_rng
    uv = gen.uvdata(E, phase=True, scan=scan, phys=False, maxtimes=5, npc=1, **k)
    return uv


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def by_time(uv, bl):
    i = np.nonzero(uv.baseline_array == bl)[0]
    return i[np.argsort(uv.time_array[i], kind="stable")]


def check_records(E, uv, want, what):
    """want: list of dicts(bl, time, int, data, flag, ns, pc); uv must hold exactly those records."""
    E.ensure(f"{what}: number of records", uv.Nblts == len(want), detail=(uv.Nblts, len(want)))
    left = list(range(uv.Nblts))
    for w in want:
        m = [i for i in left if uv.baseline_array[i] == w["bl"] and abs(uv.time_array[i] - w["time"]) < 2e-8]
        E.ensure(f"{what}: record exists", len(m) > 0, detail=(w["bl"], w["time"]))
        i = min(m, key=lambda i: (round(abs(uv.integration_time[i] - w["int"]), 6), np.abs(uv.data_array[i] - w["data"]).max()))
        left.remove(i)
        E.ensure(f"{what}: integration time", abs(uv.integration_time[i] - w["int"]) < 1e-9 * max(1, w["int"]), detail=(uv.integration_time[i], w["int"]))
        E.ensure(f"{what}: data", np.allclose(uv.data_array[i], w["data"], **D_TOL))
        E.ensure(f"{what}: flags", np.array_equal(uv.flag_array[i], w["flag"]))
        E.ensure(f"{what}: sample counts", np.allclose(uv.nsample_array[i], w["ns"], **D_TOL))
        E.ensure(f"{what}: phase center", uv.phase_center_id_array[i] == w["pc"])
        a, b = uv.baseline_to_antnums(w["bl"])
        E.ensure(f"{what}: antennas", (uv.ant_1_array[i], uv.ant_2_array[i]) == (a, b))
    gen.true_reports(E, uv, what + ": ")
    gen.lookups_true(E, uv, what + ": ")


def rec(uv, i):
    return dict(bl=uv.baseline_array[i], time=uv.time_array[i], int=uv.integration_time[i], data=uv.data_array[i].copy(), flag=uv.flag_array[i].copy(),
                ns=uv.nsample_array[i].copy(), pc=uv.phase_center_id_array[i])


@contract("C11", funcs=[U + "downsample_in_time", U + "_harmonize_resample_arrays"], mode="bounded", cases=250, conc_tl=150)
def time_average(E):
    """Each output record is the weighted mean of exactly the unflagged records of its window; other baselines are untouched."""
    uv = regular(E, scan=False)
    E.assume(uv.Ntimes > 1)
    how = E.choice("how", ["n", "min", "min"])
    nt = E.dim("navg", 1, 4)
    mint = float(E.choice("mint", [10.0, 15.0, 20.0, 25.0, 40.0, 10.0005])) if how == "min" else None
    ragged, summing = E.choice("ragged", [True, False]), E.choice("summing", [False, True])
    if E.choice("clump", [True, False]):
        uv.flag_array[:, E.np_rng.random(uv.Nfreqs) < 0.5] = True
    want, kept = [], []
    close = lambda a, b: abs(a - b) <= 1e-3
    todo = set(uv.baseline_array.tolist()) if how == "n" else {b for b, t in zip(uv.baseline_array.tolist(), uv.integration_time) if t < mint and not close(t, mint)}
    for bl in sorted(set(uv.baseline_array.tolist())):
        idx = by_time(uv, bl)
        if bl not in todo:
            want += [rec(uv, i) for i in idx]
            continue
        win, tot = [], 0.0
        for k, i in enumerate(idx):
            win.append(i)
            tot += uv.integration_time[i]
            over = len(win) >= nt if how == "n" else (tot > mint or close(tot, mint))
            if over or (k == len(idx) - 1 and ragged):
                it = uv.integration_time[win]
                d, f, w = uv.data_array[win], uv.flag_array[win], uv.nsample_array[win]
                wd, full = average(d, None, f, w * it[:, None, None], summing)
                ns = (w * it[:, None, None] * (~f | full)).sum(axis=0) / it.sum()
                want.append(dict(bl=bl, time=(uv.time_array[win] * it).sum() / it.sum(), int=it.sum(), data=wd, flag=full, ns=ns, pc=uv.phase_center_id_array[win[0]]))
                win, tot = [], 0.0
    E.assume(len(want) > 0)
    if how == "min" and not todo:
        old = gen.snap(uv)
        quiet(uv.downsample_in_time, min_int_time=mint, keep_ragged=ragged, summing_correlator_mode=summing, allow_drift=True)
        gen.unchanged(E, "nothing to do", old, uv)
        return
    kw = dict(min_int_time=mint) if how == "min" else dict(n_times_to_avg=nt)
    quiet(uv.downsample_in_time, keep_ragged=ragged, summing_correlator_mode=summing, allow_drift=True, **kw)
    check_records(E, uv, want, "downsample")


@contract("C11", funcs=[U + "upsample_in_time", U + "_harmonize_resample_arrays"], mode="bounded", cases=250, conc_tl=150)
def time_split(E):
    """Splitting repeats the data, spreads the times evenly and conserves total integration time; other records are untouched."""
    uv = regular(E)
    if E.choice("jit", [False, True]):
        uv.integration_time = uv.integration_time + E.np_rng.choice([0, 4e-4, -4e-4, 2.0], size=uv.Nblts)
    mx = float(E.choice("max", [5.0, 10.0, 12.0, 9.9995, 4.0, 20.0]))
    summing = E.choice("summing", [False, True])
    want, tot = [], {}
    todo = 0
    for i in range(uv.Nblts):
        it = uv.integration_time[i]
        tot[uv.baseline_array[i]] = tot.get(uv.baseline_array[i], 0) + it
        if it <= mx or abs(it - mx) <= 1e-3:
            want.append(rec(uv, i))
            continue
        todo += 1
        q = it / mx
        n = int(round(q)) if np.isclose(q, np.floor(q)) else int(np.ceil(q))
        for k in range(n):
            w = rec(uv, i)
            w["int"] = it / n
            w["time"] = uv.time_array[i] + (k - (n - 1) / 2) * (it / n) / 86400
            if summing:
                w["data"] = w["data"] / n
            want.append(w)
    E.assume(todo > 0)
    quiet(uv.upsample_in_time, mx, summing_correlator_mode=summing, allow_drift=True)
    for b, t in tot.items():
        E.ensure("total integration time conserved", abs(uv.integration_time[uv.baseline_array == b].sum() - t) < 1e-6, detail=(b, t))
    check_records(E, uv, want, "upsample")


ALGS = ["mean", "absmean", "quadmean", "or", "and"]


@contract("C11", funcs=[A + f + "_collapse" for f in ALGS] + [A + "collapse"], mode="bounded", cases=400)
def collapses(E):
    """Collapse functions on any axis, with infinities, zero weights and complex data."""
    from pyuvdata.utils import array_collapse as ac

    r = E.np_rng
    alg = E.choice("alg", ALGS)
    nd = E.dim("nd", 1, 3)
    shp = tuple(int(x) for x in r.integers(1, 4, size=nd))
    axis = E.choice("axis", [None, 0, -1, "tuple"])
    axis = tuple(range(nd))[: int(r.integers(1, nd + 1))] if axis == "tuple" else axis
    ws = E.choice("weights", ["none", "some", "zeros"])
    w = None if ws == "none" else r.random(shp) * (r.random(shp) < (1 if ws == "some" else 0.4))
    if alg in ("or", "and"):
        a = r.random(shp) < 0.5
    else:
        a = r.normal(size=shp) + (1j * r.normal(size=shp) if E.choice("cplx", [False, True]) else 0)
        if E.choice("inf", [False, True]):
            a[r.random(shp) < 0.3] = np.inf
    a0, w0 = a.copy(), None if w is None else w.copy()
    rw, rs = E.choice("rw", [True, False]), E.choice("rs", [True, False])
    out = ac.collapse(a, alg, weights=w, axis=axis, return_weights=rw, return_weights_square=rs)
    E.ensure("inputs unchanged", np.array_equal(a, a0) and (w is None or np.array_equal(w, w0)))
    if alg in ("or", "and"):
        want = (np.any if alg == "or" else np.all)(a, axis=axis)
        got = out[0] if rw else out
        E.ensure(alg, np.array_equal(got, want))
        return
    x = a if alg == "mean" else np.abs(a) if alg == "absmean" else np.abs(a) ** 2
    ok = ~np.isinf(a)
    ww = np.where(ok, 1.0 if w is None else w, 0.0)
    sw, s2 = ww.sum(axis=axis), (ww**2).sum(axis=axis)
    num = (np.where(ok, x, 0) * ww).sum(axis=axis)
    with np.errstate(all="ignore"):
        want = np.where(sw > 1e-10, num / np.where(sw > 1e-10, sw, 1), np.inf)
    if alg == "quadmean":
        want = np.sqrt(want)
    parts = out if isinstance(out, tuple) else (out,)
    E.ensure("pieces returned", len(parts) == 1 + rw + rs)
    fin = np.isfinite(want)
    E.ensure(alg, np.array_equal(np.isfinite(parts[0]), fin) and np.allclose(np.where(fin, parts[0], 0), np.where(fin, want, 0), rtol=1e-10, atol=1e-12), detail=(shp, axis, ws))
    k = 1
    if rw:
        E.ensure("sum of weights", np.allclose(parts[k], sw, rtol=1e-12))
        k += 1
    if rs:
        E.ensure("sum of squared weights", np.allclose(parts[k], s2, rtol=1e-12))


def _np(E, name, *a, **k):
    if E.mode == "sym":
        import pvc.snp as snp

        return snp.function_call(name, a, k)
    return getattr(np, name)(*a, **k)


def collapse_means(E, alg):
    """Weighted means over one axis of a finite array of any size."""
    from pyuvdata.utils import array_collapse as ac

    n, m = E.dim("n", 1, 4), E.dim("m", 1, 4)
    axis = E.choice("axis", [0, 1])
    a = E.array("a", (n, m), "f")
    hasw = E.choice("hasw", [False, True])
    w = E.array("w", (n, m), "f", lo=0, hi=9) if hasw else None
    a0 = E.old(a)
    out, sw, s2 = ac.collapse(a, alg, weights=w, axis=axis, return_weights=True, return_weights_square=True)
    x = a0 if alg == "mean" else abs(a0) if alg == "absmean" else abs(a0) * abs(a0)
    num = _np(E, "sum", (w * x) if hasw else x, axis=axis)
    den = _np(E, "sum", w, axis=axis) if hasw else None
    sq = _np(E, "sum", w * w, axis=axis) if hasw else None
    q, cnt = (m, n) if axis == 0 else (n, m)
    E.ensure("shape", E.shape(out)[0] == q)
    E.ensure("input unchanged", E.same_array(a, a0))

    d = (lambda j: E.at(den, j)) if hasw else (lambda j: cnt)
    E.ensure_all("weights", [q], lambda j: E.eq(E.at(sw, j), d(j)))
    E.ensure_all("squared weights", [q], lambda j: E.eq(E.at(s2, j), E.at(sq, j) if hasw else cnt))

    def val(j):
        mean = E.at(num, j) / d(j)
        return E.Implies(d(j) > 1e-10, E.eq(E.at(out, j), _np(E, "sqrt", mean) if alg == "quadmean" else mean))

    E.ensure_all("mean", [q], val)


for _alg in ("mean", "absmean", "quadmean"):
    contract("C11", funcs=[A + "mean_collapse", A + _alg + "_collapse", A + "collapse"], cases=40, timeout=120, name=f"collapse_{_alg}")(
        lambda E, a=_alg: collapse_means(E, a))


@contract("C11", funcs=[A + "or_collapse", A + "and_collapse", A + "collapse"], cases=60)
def collapse_flags(E):
    """OR / AND over one axis of a boolean array of any size."""
    from pyuvdata.utils import array_collapse as ac

    n, m = E.dim("n", 1, 4), E.dim("m", 1, 4)
    alg = E.choice("alg", ["or", "and"])
    axis = E.choice("axis", [0, 1])
    a = E.array("a", (n, m), "b")
    a0 = E.old(a)
    out, w = ac.collapse(a, alg, axis=axis, return_weights=True)
    q, cnt = (m, n) if axis == 0 else (n, m)
    E.ensure("shape", E.shape(out)[0] == q)
    el = lambda j, k: E.at(a0, k, j) if axis == 0 else E.at(a0, j, k)
    if alg == "or":
        E.ensure_all("true exactly when some entry is", [q], lambda j: E.Iff(E.at(out, j), E.exists([cnt], lambda k: el(j, k))))
    else:
        E.ensure_all("true exactly when every entry is", [q], lambda j: E.Iff(E.Not(E.at(out, j)), E.exists([cnt], lambda k: E.Not(el(j, k)))))
    E.ensure_all("dummy weights are one", [q], lambda j: E.at(w, j) == 1)
    E.ensure("input unchanged", E.same_array(a, a0))


FLG = "pyuvdata.uvflag.uvflag:UVFlag."


@contract("C11", funcs=[FLG + "collapse_pol", FLG + "to_waterfall", FLG + "combine_metrics"], mode="bounded", cases=150)
def metric_collapse(E):
    """Collapsing or combining metrics gives the weighted mean (or root mean square, mean magnitude) of exactly the inputs, with the summed weights."""
    f = gen.uvflag(E, mode="metric")
    f.weights_square_array = None
    r = E.np_rng
    how = E.choice("op", ["pol", "waterfall", "combine"])
    meth = E.choice("meth", ["mean", "quadmean", "absmean"])

    def mean(d, w, axis, keep=False):
        v = {"mean": d, "quadmean": np.abs(d) ** 2, "absmean": np.abs(d)}[meth]
        s = w.sum(axis=axis, keepdims=keep)
        m = (v * w).sum(axis=axis, keepdims=keep) / s
        return (np.sqrt(m) if meth == "quadmean" else m), s

    old = gen.snap(f)
    d, w = f.metric_array.copy(), f.weights_array.copy()
    if how == "pol":
        E.assume(f.Npols > 1)
        f.collapse_pol(method=meth)
        wd, ww = mean(d, w, -1, True)
        E.ensure("one polarization", f.Npols == 1 and f.polarization_array.tolist() == [",".join(str(p) for p in old["polarization_array"])])
    elif how == "waterfall":
        E.assume(f.type != "waterfall")
        kp = f.Npols == 1 or E.choice("kp", [True, False])
        sq = f.type == "baseline" and E.choice("sq", [True, False])
        f.to_waterfall(method=meth, keep_pol=kp, return_weights_square=sq)
        E.ensure("type", f.type == "waterfall")
        tt = np.unique(old["time_array"]) if "baseline" == str(old["type"]).strip("'") or d.ndim == 3 else old["time_array"]
        wd, ww, ws = [], [], []
        for t in tt:
            i = np.nonzero(old["time_array"] == t)[0]
            x, y = (d[i], w[i]) if d.ndim == 3 else (d[:, :, i[0]], w[:, :, i[0]])
            if not kp:
                x1, y1 = mean(x, y, -1, True)
                x, y = x1, y1
            m, s = mean(x, y, 0)
            wd.append(m), ww.append(s), ws.append((y**2).sum(axis=0))
        wd, ww = np.array(wd), np.array(ww)
        E.ensure("times", np.array_equal(f.time_array, tt))
        E.ensure("lsts", all(l == old["lst_array"][np.nonzero(old["time_array"] == t)[0][0]] for t, l in zip(f.time_array, f.lst_array)))
        if sq:
            E.ensure("summed squares of the weights", np.allclose(f.weights_square_array, np.array(ws)))
    else:
        k = E.dim("others", 1, 3)
        oth = []
        for _ in range(k):
            o = f.copy()
            o.metric_array, o.weights_array = r.normal(size=d.shape), r.uniform(0.1, 2, d.shape)
            oth.append(o)
        so = [gen.snap(o) for o in oth]
        out = f.combine_metrics(oth if k > 1 else oth[0], method=meth, inplace=False)
        gen.unchanged(E, "first", old, f)
        for o, s in zip(oth, so):
            gen.unchanged(E, "others", s, o)
        wd, ww = mean(np.stack([d] + [o.metric_array for o in oth]), np.stack([w] + [o.weights_array for o in oth]), 0)
        f = out
    E.ensure("metric is the weighted mean", f.metric_array.shape == wd.shape and np.allclose(f.metric_array, wd), detail=(how, meth))
    E.ensure("weights are summed", np.allclose(f.weights_array, ww), detail=(how, meth))
