"""C02 UVData.select exactness."""
import numpy as np
from pvc.reg import contract
from contracts.objs import *


@contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData._select_by_index"], cases=60)
def select_by_index(E):
    uv, D = make_uvdata(E)
    old = snap_uvdata(E, uv)
    m = {}
    inds = {}
    for ax in ("blt", "freq", "pol"):
        if E.choice("sel_" + ax, [True, False]):
            m[ax] = E.dim("m_" + ax, 1, 4)
            inds[ax] = E.array("inds_" + ax, (m[ax],), "i", lo=0, hi=D[ax] - 1, sorted=True, distinct=True)
        else:
            m[ax], inds[ax] = D[ax], None
    uv._select_by_index(
        blt_inds=inds["blt"], freq_inds=inds["freq"], pol_inds=inds["pol"],
        history_update_string=" sel", keep_all_metadata=True)
    E.ensure("Nblts", uv.Nblts == m["blt"])
    E.ensure("Nfreqs", uv.Nfreqs == m["freq"])
    E.ensure("Npols", uv.Npols == m["pol"])
    E.ensure("history", uv.history == "h sel")

    def src(ax, i):
        return i if ax not in inds or inds[ax] is None else E.at(inds[ax], i)

    for a, (axs, k) in UVDATA_AXES.items():
        if a not in old or a == "spw_array":
            continue
        axs = axs.split()
        dims = [m.get(x, D[x]) for x in axs]
        new = getattr(uv, a)
        E.ensure(f"{a}.ndim", len(E.shape(new)) == len(axs))
        for p, d in enumerate(dims):
            E.ensure(f"{a}.shape{p}", E.shape(new)[p] == d)
        E.ensure_all(f"{a}.values", dims, lambda *i: E.same(E.at(new, *i), E.at(old[a], *[src(x, j) for x, j in zip(axs, i)])))
    for a, (axs, k) in TEL_AXES.items():
        E.ensure(f"tel.{a} unchanged", E.same_array(getattr(uv.telescope, a), old["tel." + a]))


# ----------------------------------------------------------------------------- public API (bounded)
from contracts import gen


def _criteria(E, uv, old):
    """Draw a random combination of criteria; returns kwargs and predicates."""
    r = E.np_rng
    kw, bp, fp, pp = {}, [], None, None
    n = len(old["time_array"])
    a1, a2, t, lst = old["ant_1_array"], old["ant_2_array"], old["time_array"], old["lst_array"]
    crit = [c for c in ("ants", "bls", "time", "blt", "pc", "freq", "pol") if r.random() < 0.4] or ["blt"]
    cont = E.choice("container", [list, np.array, tuple])
    if "ants" in crit:
        pool = sorted(set(a1) | set(a2))
        k = r.integers(1, len(pool) + 1)
        sel = [int(x) for x in r.permutation(pool)[:k]]
        form = E.choice("antform", ["nums", "names"])
        if form == "nums":
            kw["antenna_nums"] = cont(sel) if len(sel) > 1 or isinstance(sel[0], str) or r.random() < 0.5 else sel[0]
        else:
            kw["antenna_names"] = [f"A{x:03d}" for x in sel]
        bp.append(np.isin(a1, sel) & np.isin(a2, sel))
    if "bls" in crit:
        pairs = sorted(set(zip(a1.tolist(), a2.tolist())))
        k = r.integers(1, len(pairs) + 1)
        sel = [pairs[i] for i in r.permutation(len(pairs))[:k]]
        form = E.choice("blform", ["pairs", "rev", "nums", "single"])
        if form == "nums":
            sel = sel[:1] if r.random() < 0.3 else sel
            kw["bls"] = [int(uv.antnums_to_baseline(*p)) for p in sel]
        elif form == "single":
            sel = sel[:1]
            kw["bls"] = sel[0]
        else:
            # a reversed pair stands for the stored one, unless both orientations are stored
            kw["bls"] = [p[::-1] if form == "rev" and p[::-1] not in pairs else p for p in sel]
        bp.append(np.array([(x, y) in sel for x, y in zip(a1.tolist(), a2.tolist())]))
    if "time" in crit:
        form = E.choice("timeform", ["times", "time_range", "lsts", "lst_range", "lst_wrap"])
        src = t if form.startswith("time") else lst
        u = np.unique(src)
        if form in ("times", "lsts"):
            sel = r.permutation(u)[: r.integers(1, len(u) + 1)]
            kw[form] = cont([float(x) for x in sel])
            bp.append(np.isin(src, sel))
        else:
            lo, hi = np.sort(r.choice(u, size=2))
            eps = 1e-6
            if form == "time_range":
                kw[form] = [float(lo - eps), float(hi + eps)]
                bp.append((src >= lo - eps) & (src <= hi + eps))
            elif form == "lst_range":
                kw[form] = [float(lo - eps), float(hi + eps)]
                bp.append((src >= lo - eps) & (src <= hi + eps))
            else:
                x = float((lo + hi) / 2) + eps
                y = float(lo) - eps if r.random() < 0.5 else 0.0
                kw["lst_range"] = [x, y]
                bp.append((src >= x) | (src <= y))
    if "blt" in crit:
        sel = r.integers(0, n, size=r.integers(1, n + 1))
        kw["blt_inds"] = cont([int(x) for x in sel])
        bp.append(np.isin(np.arange(n), sel))
    if "pc" in crit:
        ids = sorted(set(old["phase_center_id_array"].tolist()))
        sel = [int(x) for x in r.permutation(ids)[: r.integers(1, len(ids) + 1)]]
        if E.choice("pcform", ["ids", "names"]) == "ids":
            kw["phase_center_ids"] = sel if len(sel) > 1 else sel[0]
        else:
            kw["catalog_names"] = [old["phase_center_catalog"][i]["cat_name"] for i in sel]
        bp.append(np.isin(old["phase_center_id_array"], sel))
    if "freq" in crit:
        nf = len(old["freq_array"])
        form = E.choice("freqform", ["chans", "freqs", "both"])
        fm = np.zeros(nf, bool)
        if form != "freqs":
            sel = r.permutation(nf)[: r.integers(1, nf + 1)]
            kw["freq_chans"] = cont([int(x) for x in sel])
            fm[sel] = True
        if form != "chans":
            sel = r.permutation(nf)[: r.integers(1, nf + 1)]
            kw["frequencies"] = cont([float(x) for x in old["freq_array"][sel]])
            fm[sel] = True
        fp = fm
    if "pol" in crit:
        pa = old["polarization_array"]
        sel = [int(x) for x in r.permutation(pa)[: r.integers(1, len(pa) + 1)]]
        pp = np.isin(pa, sel)
        if E.choice("polform", ["num", "str"]) == "str":
            from contracts.c09 import NUM, rot
            inv = {v: k for k, v in NUM.items()}
            sel = [rot(inv[x], old["tel.x_orientation"]) if r.random() < 0.5 else inv[x] for x in sel]
        kw["polarizations"] = sel if len(sel) > 1 or isinstance(sel[0], str) or r.random() < 0.5 else sel[0]
    return kw, bp, fp, pp


@contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData.select", "pyuvdata.uvdata.uvdata:UVData._select_preprocess", "pyuvdata.utils.times:_select_times_helper"],
          mode="bounded", cases=220, conc_tl=60)
def select_public(E):
    uv = gen.uvdata(E, phys=False)
    old = gen.snap(uv)
    kw, bp, fp, pp = _criteria(E, uv, old)
    n, nf, npol = old["Nblts"], old["Nfreqs"], old["Npols"]
    b = np.ones(n, bool)
    for m in bp:
        b &= m
    f = np.ones(nf, bool) if fp is None else fp
    p = np.ones(npol, bool) if pp is None else pp
    inplace = E.choice("inplace", [True, False])
    E.note(str(kw))
    if not b.any():
        E.ensure("no match is rejected", E.raises(ValueError, lambda: uv.select(inplace=inplace, **kw)), detail=kw)
        return
    keep_all = E.choice("keep_all", [True, True, False])
    out = uv.select(inplace=inplace, keep_all_metadata=keep_all, run_check=E.choice("run_check", [True, False, False]), **kw)
    if inplace:
        out = uv
    else:
        gen.unchanged(E, "original", old, uv)
    bi, fi, pi = np.nonzero(b)[0], np.nonzero(f)[0], np.nonzero(p)[0]
    if keep_all or not bp:
        gen.expect_uvdata(E, out, old, bi, fi, pi)
        gen.fixed(E, out, old)
    else:
        eq, old["eq_coeffs"] = old["eq_coeffs"], None
        gen.expect_uvdata(E, out, old, bi, fi, pi)
        used = set(old["ant_1_array"][bi]) | set(old["ant_2_array"][bi])
        ai = [i for i, x in enumerate(old["tel.antenna_numbers"]) if x in used]
        for a in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
            if old["tel." + a] is not None:
                E.ensure("pruned " + a, gen.val_eq(old["tel." + a][ai], getattr(out.telescope, a)))
        E.ensure("pruned Nants", out.telescope.Nants == len(ai))
        gen.fixed(E, out, old, ["vis_units", "extra_keywords", "phase_center_catalog", "tel.name", "tel.location"])
    E.ensure("history extended", out.history.startswith(old["history"]) and "Downselected" in out.history)
    # reported regularity is true (C23)
    grid = len(set(old["time_array"][bi])) * len(set(old["baseline_array"][bi])) == len(bi)
    if out.blts_are_rectangular:
        E.ensure("rectangular only if a full grid", grid)


@contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData.select"], mode="bounded", cases=60)
def select_rejects(E):
    """Requests naming absent values are rejected and leave the object as it was."""
    uv = gen.uvdata(E, nspw=1)
    old = gen.snap(uv)
    absent_ant = int(old["tel.antenna_numbers"].max()) + 1
    n = old["Nblts"]
    bad = E.choice("bad", [
        dict(antenna_nums=[absent_ant]), dict(antenna_names=["nobody"]), dict(bls=[(absent_ant, absent_ant + 1)]),
        dict(times=[1.0]), dict(time_range=[1.0, 2.0]), dict(frequencies=[1.0]), dict(polarizations=[-9]), dict(blt_inds=[n]),
        dict(blt_inds=[-1]), dict(freq_chans=[old["Nfreqs"]]), dict(phase_center_ids=[999]), dict(catalog_names="nothing"),
        dict(lsts=[9.5]), dict(bls=[absent_ant * 2048 * 99]), dict(times=[float(old["time_array"][0])], time_range=[0.0, 1e9]),
        dict(antenna_nums=[int(old["ant_1_array"][0]), absent_ant]), dict(polarizations=[int(old["polarization_array"][0]), -9]),
        dict(frequencies=[float(old["freq_array"][0]), 1.0]),
    ])
    E.ensure("rejected", E.raises((ValueError, IndexError), lambda: uv.select(**bad)), detail=bad)
    gen.unchanged(E, "rejected select", old, uv)


@contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData.select", "pyuvdata.uvdata.uvdata:UVData.parse_ants"], mode="bounded", cases=60)
def select_ant_str(E):
    uv = gen.uvdata(E, fams=("lin",))
    old = gen.snap(uv)
    r = E.np_rng
    a1, a2 = old["ant_1_array"], old["ant_2_array"]
    pairs = sorted(set(zip(a1.tolist(), a2.tolist())))
    form = E.choice("s", ["auto", "cross", "all", "one", "list", "notant", "antpol"])
    pm = np.ones(old["Npols"], bool)
    if form == "auto":
        b, s = a1 == a2, "auto"
    elif form == "cross":
        b, s = a1 != a2, "cross"
    elif form == "all":
        b, s = a1 >= 0, "all"
    elif form == "one":
        x = int(r.choice(np.r_[a1, a2]))
        b, s = (a1 == x) | (a2 == x), f"{x}"
    elif form == "notant":
        x = int(r.choice(np.r_[a1, a2]))
        b, s = ~((a1 == x) | (a2 == x)), f"all,-{x}"
    else:
        k = r.integers(1, len(pairs) + 1)
        sel = [pairs[i] for i in r.permutation(len(pairs))[:k]]
        b = np.array([(x, y) in sel for x, y in zip(a1.tolist(), a2.tolist())])
        s = ",".join(f"{x}_{y}" for x, y in sel)
        if form == "antpol":
            from contracts.c09 import NUM
            p = int(r.choice(old["polarization_array"]))
            nm = {v: k for k, v in NUM.items()}[p]
            s = ",".join(f"{x}{nm[0]}_{y}{nm[1]}" for x, y in sel)
            pm = old["polarization_array"] == p
    if not b.any():
        E.ensure("no match is rejected", E.raises(ValueError, lambda: uv.select(ant_str=s)), detail=s)
        return
    uv.select(ant_str=s)
    gen.expect_uvdata(E, uv, old, np.nonzero(b)[0], np.arange(old["Nfreqs"]), np.nonzero(pm)[0])
    gen.fixed(E, uv, old)


# ----------------------------------------------------------------------------- selection predicates (proof)
@contract("C02", funcs=["pyuvdata.utils.times:_select_times_helper"], cases=150, timeout=120)
def times_helper(E):
    """For any time/LST array: the returned indices are exactly those satisfying the criterion."""
    from pyuvdata.utils.times import _select_times_helper

    n = E.dim("n", 1, 6)
    t = E.array("t", (n,), "f", lo=0, hi=6)
    lst = E.array("lst", (n,), "f", lo=0, hi=6)
    form = E.choice("form", ["times1", "times2", "time_range", "lsts1", "lst_range", "lst_wrap"])
    kw = dict(times=None, time_range=None, lsts=None, lst_range=None)
    at = E.choice("at", [True, False])
    if form in ("times1", "times2", "lsts1"):
        src = lst if form == "lsts1" else t
        vals = [E.real(f"v{i}", 0, 6) for i in range(2 if form == "times2" else 1)]
        if E.mode == "conc" and at:
            vals = [float(src[i % n]) for i in range(len(vals))]
        kw["lsts" if form == "lsts1" else "times"] = list(vals)
        rt, at_ = (0.0, 1e-3)

        def ok(x):
            return E.Or(*[E.And(x - v <= at_, v - x <= at_) for v in vals])

        must = [E.exists([n], lambda i, v=v: E.And(E.at(src, i) - v <= at_, v - E.at(src, i) <= at_)) for v in vals]
        accept = E.And(*must)
    else:
        src = t if form == "time_range" else lst
        a, b = E.real("a", 0, 6), E.real("b", 0, 6)
        if form == "lst_wrap":
            E.assume(b < a)
            ok = lambda x: E.Or(x >= a, x <= b)
        else:
            E.assume(a <= b)
            ok = lambda x: E.And(x >= a, x <= b)
        kw["time_range" if form == "time_range" else "lst_range"] = [a, b]
        accept = E.exists([n], lambda i: ok(E.at(src, i)))
    try:
        r = _select_times_helper(obj_time_array=t, obj_time_range=None, obj_lst_array=lst, obj_lst_range=None,
                                 time_tols=(0, 1e-3), lst_tols=(0, 1e-3), **kw)
    except ValueError:
        E.ensure("rejected only when something is absent", E.Not(accept))
        return
    E.ensure("accepted only when present", accept)
    m = E.length(r)
    E.ensure_all("only matching records", [m], lambda j: E.And(E.at(r, j) >= 0, E.at(r, j) < n, ok(E.at(src, E.at(r, j)))))
    E.ensure_all("every matching record", [n], lambda i: E.Implies(ok(E.at(src, i)), E.member(r, i)))


def _criteria_contract(E, base):
    """_select_preprocess turns every combination of criteria into exactly the records/channels/pols satisfying all of them."""
    uv, D = make_uvdata(E, scan=False, eq_coeffs=False, diam=False, npc=2, dims={"spw": 1})
    a1, a2, t = E.old(uv.ant_1_array), E.old(uv.ant_2_array), E.old(uv.time_array)
    pcid, fr, pa = E.old(uv.phase_center_id_array), E.old(uv.freq_array), E.old(uv.polarization_array)
    n, nf, npol = D["blt"], D["freq"], D["pol"]
    extra = E.choice("extra", ["time", "freq", "chan", "pol", "none"])
    kw = dict(antenna_nums=None, antenna_names=None, ant_str=None, bls=None, frequencies=None, freq_chans=None, times=None, time_range=None,
              lsts=None, lst_range=None, polarizations=None, blt_inds=None, phase_center_ids=None, catalog_names=None)
    preds, fpred, ppred = [], None, None

    def pick(arr, nm, N):
        """an element of arr or (proof mode: any) value."""
        return E.at(arr, E.int(nm, 0, N - 1))

    if base == "ants":
        x, y = pick(a1, "ia", n), pick(a2, "ib", n)
        kw["antenna_nums"] = [x, y]
        preds.append(lambda i: E.And(E.Or(E.at(a1, i) == x, E.at(a1, i) == y), E.Or(E.at(a2, i) == x, E.at(a2, i) == y)))
    elif base == "bl":
        j = E.int("jbl", 0, n - 1)
        x, y = E.at(a1, j), E.at(a2, j)
        kw["bls"] = [(x, y)]
        preds.append(lambda i: E.And(E.at(a1, i) == x, E.at(a2, i) == y))
    elif base == "blt":
        m = E.dim("mb", 1, 4)
        bi = E.array("bi", (m,), "i", lo=0, hi=n - 1)
        kw["blt_inds"] = bi
        preds.append(lambda i: E.member(bi, i))
    elif base == "pc":
        q = E.int("q", 0, 1)
        kw["phase_center_ids"] = q
        preds.append(lambda i: E.at(pcid, i) == q)
    if extra == "time":
        a, b = E.real("ta", 2455000, 2465000), E.real("tb", 2455000, 2465000)
        E.assume(a <= b)
        kw["time_range"] = [a, b]
        preds.append(lambda i: E.And(E.at(t, i) >= a, E.at(t, i) <= b))
    elif extra == "freq":
        v = pick(fr, "jf", nf)
        kw["frequencies"] = [v]
        fpred = lambda c: E.at(fr, c) == v
    elif extra == "chan":
        c0 = E.int("c0", 0, nf - 1)
        kw["freq_chans"] = [c0]
        fpred = lambda c: c == c0
    elif extra == "pol":
        p0 = pick(pa, "jp", npol)
        kw["polarizations"] = [p0]
        ppred = lambda p: E.at(pa, p) == p0
    match = lambda i: E.And(*[f(i) for f in preds])
    some = E.exists([n], match) if preds else True
    try:
        bi_, fi_, pi_, h = uv._select_preprocess(**kw)
    except ValueError:
        E.ensure("rejected only when no record matches", E.Not(some))
        return
    E.ensure("accepted only when a record matches", some)
    for nm, got, N, pred in (("record", bi_, n, match if preds else None), ("channel", fi_, nf, fpred), ("polarization", pi_, npol, ppred)):
        if pred is None:
            E.ensure(f"{nm} axis not selected", got is None)
            continue
        L = E.length(got)
        E.ensure_all(f"only matching {nm}s", [L], lambda j: E.And(E.at(got, j) >= 0, E.at(got, j) < N, pred(E.at(got, j))))
        E.ensure_all(f"every matching {nm}", [N], lambda i: E.Implies(pred(i), E.member(got, i)))
        E.ensure_all(f"{nm}s in order, once", [L, L], lambda i, j: E.Implies(i < j, E.at(got, i) < E.at(got, j)))


def _mk(base):
    @contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData._select_preprocess", "pyuvdata.utils.times:_select_times_helper"], cases=60, timeout=150,
              name=f"select_criteria_{base}")
    def f(E):
        _criteria_contract(E, base)


for _b in ("ants", "bl", "blt", "pc", "none"):
    _mk(_b)


@contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData._select_by_index"], cases=60, timeout=120)
def prune_metadata(E):
    """Spectral windows without channels are dropped; with keep_all_metadata=False so are antennas without data; nothing else of those axes changes."""
    uv, D = make_uvdata(E)
    old = snap_uvdata(E, uv)
    which = E.choice("axis", ["freq", "blt"])
    m = E.dim("m", 1, 4)
    inds = E.array("inds", (m,), "i", lo=0, hi=D[which] - 1, sorted=True, distinct=True)
    uv._select_by_index(blt_inds=inds if which == "blt" else None, freq_inds=inds if which == "freq" else None, pol_inds=None,
                        history_update_string=" sel", keep_all_metadata=False)
    if which == "freq":
        label, N, new = old["spw_array"], D["spw"], uv.spw_array
        used = lambda k: E.exists([m], lambda j: E.at(old["flex_spw_id_array"], E.at(inds, j)) == E.at(label, k))
        E.ensure("Nspws", uv.Nspws == E.length(new))
    else:
        label, N, new = old["tel.antenna_numbers"], D["ant"], uv.telescope.antenna_numbers
        used = lambda k: E.exists([m], lambda j: E.Or(E.at(old["ant_1_array"], E.at(inds, j)) == E.at(label, k), E.at(old["ant_2_array"], E.at(inds, j)) == E.at(label, k)))
        E.ensure("Nants", uv.telescope.Nants == E.length(new))
    L = E.length(new)
    E.ensure_all("every used label is kept", [N], lambda k: E.Implies(used(k), E.member(new, E.at(label, k))))
    E.ensure_all("only labels that existed", [L], lambda q: E.member(label, E.at(new, q)))
    E.ensure_all("only used labels are kept", [L, N], lambda q, k: E.Implies(E.at(new, q) == E.at(label, k), used(k)))
    E.ensure_all("labels are not repeated", [L, L], lambda p, q: E.Implies(p < q, E.at(new, p) != E.at(new, q)))
    if which == "blt":
        for a in ("antenna_names", "antenna_diameters"):
            got, src = getattr(uv.telescope, a), old["tel." + a]
            E.ensure(f"{a} length", E.length(got) == L)
            E.ensure_all(f"{a} follows its antenna", [L, N], lambda q, k: E.Implies(E.at(new, q) == E.at(label, k), E.same(E.at(got, q), E.at(src, k))))
        got, src = uv.telescope.antenna_positions, old["tel.antenna_positions"]
        E.ensure_all("positions follow their antenna", [L, N, 3], lambda q, k, x: E.Implies(E.at(new, q) == E.at(label, k), E.same(E.at(got, q, x), E.at(src, k, x))))
        E.ensure_all("eq_coeffs follow their antenna", [L, N, D["freq"]], lambda q, k, c: E.Implies(E.at(new, q) == E.at(label, k), E.same(E.at(uv.eq_coeffs, q, c), E.at(old["eq_coeffs"], k, c))))
    else:
        E.ensure("antenna table untouched", E.same_array(uv.telescope.antenna_numbers, old["tel.antenna_numbers"]))


@contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData.select", "pyuvdata.uvdata.uvdata:UVData._select_preprocess"], mode="bounded", cases=120)
def select_flexpol(E):
    """Objects whose polarization changes with the spectral window: a polarization selects the channels of its windows."""
    r = E.np_rng
    uv = gen.uvdata(E, nspw=E.choice("nsw", [2, 3]), npols=1, fams=("lin",), decreasing=False)
    pols = np.array([E.choice(f"wp{j}", [-5, -6, -7]) for j in range(uv.Nspws)])
    E.assume(len(set(pols.tolist())) > 1)
    uv.flex_spw_polarization_array, uv.polarization_array = pols, np.array([0])
    uv.check(run_check_acceptability=False)
    want = sorted({int(pols[r.integers(uv.Nspws)]) for _ in range(E.dim("k", 1, 2))})
    pol_of = {int(s): int(p) for s, p in zip(uv.spw_array, pols)}
    chan_pol = np.array([pol_of[int(s)] for s in uv.flex_spw_id_array])
    m = np.isin(chan_pol, want)
    kw = dict(polarizations=list(want))
    if E.choice("chans", [False, False, True]):
        c = np.sort(r.permutation(uv.Nfreqs)[:r.integers(1, uv.Nfreqs + 1)])
        kw["freq_chans"] = c.tolist()
        m &= np.isin(np.arange(uv.Nfreqs), c)
    b = np.arange(uv.Nblts)
    if E.choice("rec", [False, True]):
        b = np.sort(r.permutation(uv.Nblts)[:r.integers(1, uv.Nblts + 1)])
        kw["blt_inds"] = b
    old = gen.snap(uv)
    if not m.any():
        E.ensure("nothing left is rejected", E.raises(ValueError, lambda: uv.select(inplace=False, **kw)))
        return
    out = uv.select(inplace=False, run_check_acceptability=False, **kw)
    gen.unchanged(E, "source", old, uv)
    for a in ("freq_array", "channel_width"):
        E.ensure(f"channels: {a}", np.array_equal(getattr(out, a), old[a][m]))
    for a in ("data_array", "flag_array", "nsample_array"):
        E.ensure(f"samples: {a}", np.array_equal(getattr(out, a), old[a][b][:, m]))
    left = set(chan_pol[m].tolist())
    if out.flex_spw_polarization_array is None:
        E.ensure("one polarization left", len(left) == 1 and out.polarization_array.tolist() == list(left), detail=(left, out.polarization_array))
    else:
        E.ensure("polarizations of the windows", len(left) > 1 and all(pol_of[int(s)] == int(p) for s, p in zip(out.spw_array, out.flex_spw_polarization_array)))
        E.ensure("windows of the channels", np.array_equal(out.flex_spw_id_array, old["flex_spw_id_array"][m]))


@contract("C02", funcs=["pyuvdata.uvdata.uvdata:UVData.select"], mode="bounded", cases=80)
def select_reports(E):
    """What the object says about its own record layout is true after a record selection."""
    r = E.np_rng
    uv = gen.uvdata(E, grid=E.choice("grid", [True, False]))
    uv.set_rectangularity(force=True)
    b = np.sort(r.permutation(uv.Nblts)[:r.integers(1, uv.Nblts + 1)])
    out = uv.select(blt_inds=b, inplace=False, run_check_acceptability=False)
    gen.true_reports(E, out)
