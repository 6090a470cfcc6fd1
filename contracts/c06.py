"""C06 keyed access."""
import contextlib

import numpy as np
from pvc.reg import contract
from contracts.objs import *
from contracts import gen
from contracts.c09 import CONJ

U = "pyuvdata.uvdata.uvdata:UVData."
T = "pyuvdata.utils.tools:"


def denotes(E, got, ind):
    """got (slice or index list) denotes exactly the list ind, in order."""
    n = E.length(ind)
    if isinstance(got, slice):
        st, sp = got.start, got.step
        E.ensure("step is positive", sp > 0)
        E.ensure("start in range", st >= 0)
        # elements of a slice with positive step: start + j*step < stop, j = 0, 1, ...
        E.induct("listed indices are evenly spaced", n, lambda j: E.at(ind, j) == st + j * sp)
        E.ensure_all("every listed index, in order", [n], lambda j: E.And(E.at(ind, j) == st + j * sp, E.at(ind, j) < got.stop))
        E.ensure("nothing after the last", got.stop <= E.at(ind, n - 1) + sp)
    else:
        E.ensure("length", E.length(got) == n)
        E.ensure_all("the list itself", [n], lambda j: E.at(got, j) == E.at(ind, j))


class Miss:
    """Stands for the index cache in proof mode: an empty mapping that accepts symbolic keys."""

    def __contains__(self, k):
        return False

    def __setitem__(self, k, v):
        pass


@contract("C06", funcs=[T + "slicify"], cases=300)
def slicify(E):
    from pyuvdata.utils import tools

    n = E.dim("n", 1, 5)
    ind = E.array("ind", (n,), "i", lo=0, hi=None if E.mode == "sym" else 7)
    if E.mode != "sym":
        step = E.choice("step", [None, 0, 1, 2, -1])
        if step is not None:
            ind = 8 + step * np.arange(n)
    got = tools.slicify(ind)
    denotes(E, got, ind)


@contextlib.contextmanager
def by_contract(E):
    """In proof mode callers use slicify's contract (it denotes the same index list; None when empty), not its body."""
    from pyuvdata.utils import tools

    if E.mode != "sym":
        yield
        return
    E.stub("slicify(ind) denotes exactly ind (None if empty): contract proved in C06 slicify")
    real = tools.slicify
    tools.slicify = lambda ind: None if ind is None else (ind if isinstance(ind, slice) or not bool(E.length(ind) == 0) else None)
    try:
        yield
    finally:
        tools.slicify = real


@contract("C06", funcs=[U + "antpair2ind", T + "slicify"], cases=120, timeout=120)
def antpair_records(E):
    """Irregular layouts: the record indices of an antenna pair are exactly those whose labels match."""
    uv, D = make_uvdata(E, rect=False, data=False)
    uv.blts_are_rectangular = False
    if E.mode == "sym":
        uv._UVData__antpair2ind_cache = Miss()
    n = D["blt"]
    a = E.at(uv.telescope.antenna_numbers, E.int("ia", 0, D["ant"] - 1))
    b = E.at(uv.telescope.antenna_numbers, E.int("ib", 0, D["ant"] - 1))
    ordered = E.choice("ordered", [True, False])
    a1, a2 = uv.ant_1_array, uv.ant_2_array
    m1 = lambda i: E.And(E.at(a1, i) == a, E.at(a2, i) == b)
    m2 = lambda i: E.And(E.at(a1, i) == b, E.at(a2, i) == a, a != b)
    match = m1 if ordered else (lambda i: E.Or(m1(i), m2(i)))
    with by_contract(E):
        got = uv.antpair2ind(a, b, ordered=ordered)
    if got is None:
        E.ensure("none matches", E.Not(E.exists([n], match)))
        return
    if isinstance(got, slice):
        got = np.arange(n)[got]
    L = E.length(got)
    E.ensure_all("only matching records", [L], lambda j: E.And(E.at(got, j) >= 0, E.at(got, j) < n, match(E.at(got, j))))
    E.ensure_all("every matching record", [n], lambda i: E.Implies(match(i), E.member(got, i)))
    E.ensure_all("each once", [L, L], lambda i, j: E.Implies(i < j, E.at(got, i) != E.at(got, j)))


@contract("C06", funcs=[U + "_smart_slicing"], cases=150, timeout=120)
def smart_slicing(E):
    """Direct records first, then reversed ones conjugated, each with its own polarization list."""
    from pyuvdata import UVData

    n, nf, npol = E.dim("n", 1, 5), E.dim("nf", 1, 3), E.dim("npol", 1, 4)
    data = E.array("data", (n, nf, npol), "c")
    old = E.old(data)
    which = E.choice("stored", ["direct", "reversed", "both"])
    m1, m2, q = E.dim("m1", 1, 3), E.dim("m2", 1, 3), E.dim("q", 1, 3)
    i1 = E.array("i1", (m1,), "i", lo=0, hi=n - 1) if which != "reversed" else None
    i2 = E.array("i2", (m2,), "i", lo=0, hi=n - 1) if which != "direct" else None
    p1 = E.array("p1", (q,), "i", lo=0, hi=npol - 1) if which != "reversed" else None
    p2 = E.array("p2", (q,), "i", lo=0, hi=npol - 1) if which != "direct" else None
    out = UVData()._smart_slicing(data, i1, i2, (p1, p2), squeeze="none", force_copy=E.choice("copy", [True, False]))
    d1, d2 = (m1 if i1 is not None else 0), (m2 if i2 is not None else 0)
    E.ensure("records", E.shape(out)[0] == d1 + d2)
    E.ensure("channels", E.shape(out)[1] == nf)
    E.ensure("polarizations", E.shape(out)[2] == q)
    if i1 is not None:
        E.ensure_all("direct values", [m1, nf, q], lambda r, c, p: E.same(E.at(out, r, c, p), E.at(data, E.at(i1, r), c, E.at(p1, p))))
    if i2 is not None:
        E.ensure_all("reversed values are conjugated", [m2, nf, q], lambda r, c, p: E.same(E.at(out, d1 + r, c, p), E.at(data, E.at(i2, r), c, E.at(p2, p)).conjugate()))
    E.ensure("stored data untouched", E.same_array(data, old))


@contract("C06", funcs=[U + "_key2inds", U + "antpair2ind"], cases=150, timeout=150)
def key_indices(E):
    """(ant1, ant2[, pol]) keys on irregular layouts: both orientations, matching polarizations, absent keys rejected."""
    pols = E.choice("pols", [[-5, -6, -7, -8], [-7], [-8, -7], [-5, -7]] + ([[1, 2, 3], [-1, -3, -4]] if E.mode != "sym" else []))
    uv, D = make_uvdata(E, data=False, rect=False, dims={"pol": len(pols)}, pols=np.array(pols))
    uv.blts_are_rectangular = False
    uv.telescope.x_orientation = None
    if E.mode == "sym":
        uv._UVData__antpair2ind_cache = Miss()
        uv._UVData__key2ind_cache = Miss()
    n = D["blt"]
    a = E.at(uv.telescope.antenna_numbers, E.int("ia", 0, D["ant"] - 1))
    b = E.at(uv.telescope.antenna_numbers, E.int("ib", 0, D["ant"] - 1))
    pol = E.choice("pol", [None, -7, "yx"] + ([-5, -8, 1, "xy", "rl"] if E.mode != "sym" else []))
    num = {"xy": -7, "yx": -8, "rl": -3}.get(pol, pol)
    m1 = lambda i: E.And(E.at(uv.ant_1_array, i) == a, E.at(uv.ant_2_array, i) == b)
    m2 = lambda i: E.And(E.at(uv.ant_1_array, i) == b, E.at(uv.ant_2_array, i) == a, a != b)
    closed = all(CONJ[p] in pols for p in pols)
    p1 = list(range(len(pols))) if pol is None else [i for i, p in enumerate(pols) if p == num]
    p2 = ([pols.index(CONJ[p]) for p in pols] if closed else []) if pol is None else [i for i, p in enumerate(pols) if p == CONJ[num]]
    has1 = E.And(E.exists([n], m1), len(p1) > 0)
    has2 = E.And(E.exists([n], m2), len(p2) > 0)
    key = (a, b) if pol is None else (a, b, pol)
    with by_contract(E):
        try:
            b1, b2, (q1, q2) = uv._key2inds(key)
        except KeyError:
            E.ensure("rejected only when nothing matches", E.Not(E.Or(has1, has2)))
            return
    E.ensure("accepted only when something matches", E.Or(has1, has2))
    for nm, got, q, m, ps, has in (("direct", b1, q1, m1, p1, has1), ("reversed", b2, q2, m2, p2, has2)):
        if got is None:
            E.ensure(f"no {nm} record omitted", E.Not(has))
            continue
        E.ensure(f"{nm} records exist", has)
        if isinstance(got, slice):
            got = np.arange(n)[got]
        L = E.length(got)
        E.ensure_all(f"only {nm} records", [L], lambda j: E.And(E.at(got, j) >= 0, E.at(got, j) < n, m(E.at(got, j))))
        E.ensure_all(f"every {nm} record", [n], lambda i: E.Implies(m(i), E.member(got, i)))
        E.ensure_all(f"{nm} in stored order", [L, L], lambda i, j: E.Implies(i < j, E.at(got, i) < E.at(got, j)))
        q = np.arange(len(pols))[q] if isinstance(q, (slice, np.ndarray, list)) else q
        E.ensure(f"{nm} polarizations", E.length(q) == len(ps))
        E.ensure(f"{nm} polarization list", E.And(*[E.at(q, i) == x for i, x in enumerate(ps)]))


OPS = ["select", "reorder_blts", "reorder_pols", "conjugate", "pols", "ants", "xori", "add", "set", "copy", "reorder_freqs", "selectpol"]


def _edit(E, uv, op, k):
    r = E.np_rng
    n = uv.Nblts
    if op == "select":
        keep = np.sort(r.permutation(n)[: r.integers(1, n + 1)])
        uv.select(blt_inds=keep, run_check=False)
    elif op == "selectpol":
        keep = [int(x) for x in uv.polarization_array[np.sort(r.permutation(uv.Npols)[: r.integers(1, uv.Npols + 1)])]]
        uv.select(polarizations=keep, run_check=False)
    elif op == "reorder_blts":
        o = E.choice(f"rb{k}", ["time", "baseline", "ant1", "ant2", "bda", "perm"])
        uv.reorder_blts(r.permutation(n) if o == "perm" else o, run_check=False)
    elif op == "reorder_pols":
        uv.reorder_pols(r.permutation(uv.Npols), run_check=False)
    elif op == "reorder_freqs":
        uv.reorder_freqs(channel_order="-freq", run_check=False)
    elif op == "conjugate":
        if all(CONJ[p] in uv.polarization_array for p in uv.polarization_array):
            c = E.choice(f"cj{k}", ["ant1<ant2", "ant2<ant1", "u<0", "v>0", "idx"])
            uv.conjugate_bls(r.permutation(n)[: r.integers(1, n + 1)] if c == "idx" else c)
    elif op == "pols":
        # relabel through the attribute
        if uv.polarization_array[0] < 0:
            fam = gen.FAMS["circ" if uv.polarization_array[0] < -4 else "lin"]
            uv.polarization_array = np.array([fam[i] for i in r.permutation(4)[: uv.Npols]])
    elif op == "ants":
        perm = dict(zip(uv.telescope.antenna_numbers.tolist(), r.permutation(uv.telescope.antenna_numbers).tolist()))
        uv.ant_1_array = np.array([perm[x] for x in uv.ant_1_array.tolist()])
        if E.choice(f"both{k}", [True, False]):
            uv.ant_2_array = np.array([perm[x] for x in uv.ant_2_array.tolist()])
        uv.baseline_array = uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)
        uv.Nbls = len(set(uv.baseline_array))
        uv.Nants_data = len(set(uv.ant_1_array) | set(uv.ant_2_array))
        uv.uvw_array = np.where((uv.ant_1_array == uv.ant_2_array)[:, None], 0.0, r.uniform(10, 50, (n, 3)))
        au = uv.ant_1_array == uv.ant_2_array
        uv.data_array[au] = np.abs(uv.data_array[au])
        uv.blt_order = None
        uv.set_rectangularity(force=True)
    elif op == "xori":
        uv.telescope.x_orientation = {"east": "north", "north": "east"}[uv.telescope.x_orientation]
    elif op == "add":
        if n > 1 and len(set(zip(uv.time_array, uv.baseline_array))) == n:
            m = r.random(n) < 0.5
            if m.any() and not m.all():
                a = uv.select(blt_inds=np.nonzero(m)[0], inplace=False, run_check=False)
                uv.select(blt_inds=np.nonzero(~m)[0], run_check=False)
                if E.choice(f"how{k}", ["add", "concat"]) == "add":
                    uv += a
                else:
                    uv.fast_concat(a, "blt", inplace=True, run_check=False)
    elif op == "set":
        pr = (int(uv.ant_1_array[0]), int(uv.ant_2_array[0]))
        i = np.nonzero((uv.ant_1_array == pr[0]) & (uv.ant_2_array == pr[1]))[0]
        if not np.any((uv.ant_1_array == pr[1]) & (uv.ant_2_array == pr[0])) or pr[0] == pr[1]:
            uv.set_data(r.normal(size=(len(i), uv.Nfreqs, uv.Npols)) + 0j, pr)
    elif op == "copy":
        uv = uv.copy()
    return uv


def _string_keys(E, uv, what):
    """polarization-name and baseline-number keys."""
    from pyuvdata import utils

    x = uv.telescope.x_orientation
    for i, p in enumerate(uv.polarization_array.tolist()):
        names = {utils.polnum2str(p, x_orientation=x), utils.polnum2str(p)}
        for s in names:
            got = uv.get_data(s, squeeze="none")
            E.ensure(f"{what}polarization-name key", np.array_equal(got, uv.data_array[:, :, [i]]), detail=(s, x, got.shape))
    bl = int(uv.baseline_array[-1])
    if bl >= 5:
        i = np.nonzero(uv.baseline_array == bl)[0]
        a, b = uv.baseline_to_antnums(bl)
        if a == b or not np.any((uv.ant_1_array == b) & (uv.ant_2_array == a)):
            E.ensure(f"{what}baseline-number key", np.array_equal(uv.get_data(bl, squeeze="none"), uv.data_array[i]))
            E.ensure(f"{what}baseline times", np.array_equal(uv.get_times(bl), uv.time_array[i]))
    ants = sorted(set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist()))
    E.ensure(f"{what}get_ants", list(uv.get_ants()) == ants)
    prs = set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    E.ensure(f"{what}get_antpairs", set(uv.get_antpairs()) == prs and len(uv.get_antpairs()) == len(prs))
    E.ensure(f"{what}get_baseline_nums", sorted(uv.get_baseline_nums()) == sorted(set(uv.baseline_array.tolist())))


@contract("C06", funcs=[U + "antpair2ind", U + "_key2inds", U + "_smart_slicing", U + "get_data", U + "get_flags", U + "get_nsamples", U + "get_times", U + "get_lsts"],
          mode="bounded", cases=120, conc_tl=120)
def lookups_after_edits(E):
    """Any history of edits and lookups: every lookup equals a scan of the labels."""
    uv = gen.uvdata(E, both=True, phys=False, eq=False)
    gen.lookups_true(E, uv, "fresh: ")
    _string_keys(E, uv, "fresh: ")
    for k in range(E.dim("steps", 1, 3)):
        op = E.choice(f"op{k}", OPS)
        uv = _edit(E, uv, op, k)
        gen.lookups_true(E, uv, f"after {op}: ")
        _string_keys(E, uv, f"after {op}: ")


@contract("C06", funcs=[U + "set_data", U + "set_flags", U + "set_nsamples", U + "_set_method_helper", "pyuvdata.utils.io.hdf5:_index_dset"], mode="bounded", cases=300)
def keyed_writes(E):
    """Writing through a key changes exactly the matching entries."""
    uv = gen.uvdata(E, both=True, phys=False, eq=False)
    r = E.np_rng
    form = E.choice("key", ["pair", "pairpol", "bl", "pol"])
    i0 = r.integers(uv.Nblts)
    pr = (int(uv.ant_1_array[i0]), int(uv.ant_2_array[i0]))
    if E.choice("rev", [False, False, False, True]):
        pr = pr[::-1]
    p0 = int(r.integers(uv.Npols))
    bi = np.nonzero((uv.ant_1_array == pr[0]) & (uv.ant_2_array == pr[1]))[0]
    pi = np.arange(uv.Npols)
    if form == "pair":
        key = pr
    elif form == "pairpol":
        key, pi = pr + (int(uv.polarization_array[p0]),), np.array([p0])
    elif form == "bl":
        key = int(uv.antnums_to_baseline(*pr))
        E.assume(key >= 5)
    else:
        key, bi, pi = int(uv.polarization_array[p0]), np.arange(uv.Nblts), np.array([p0])
    pols = uv.polarization_array.tolist()
    rev = np.any((uv.ant_1_array == pr[1]) & (uv.ant_2_array == pr[0])) and pr[0] != pr[1] and form != "pol"
    if rev and len(bi):  # both orientations stored: ambiguous, documented rejection unless only one has the polarization
        return
    kind = E.choice("kind", ["data", "flag", "nsample"])
    shp = (len(bi), uv.Nfreqs, len(pi))
    new = {"data": r.normal(size=shp) + 1j * r.normal(size=shp), "flag": r.random(shp) < 0.5, "nsample": r.integers(1, 9, shp).astype(float)}[kind]
    old = gen.snap(uv)
    f = {"data": uv.set_data, "flag": uv.set_flags, "nsample": uv.set_nsamples}[kind]
    if len(bi) == 0:
        E.ensure("reversed or absent key rejected", E.raises((ValueError, LookupError), lambda: f(new, key)))
        gen.unchanged(E, "rejected", old, uv)
        return
    f(new, key)
    want = old[f"{kind}_array"].copy()
    want[np.ix_(bi, np.arange(uv.Nfreqs), pi)] = new
    E.ensure("exactly the keyed entries changed", np.array_equal(getattr(uv, f"{kind}_array"), want), detail=(key, bi.tolist(), pi.tolist()))
    gen.unchanged(E, "write", old, uv, skip=(f"{kind}_array",))
    bad = np.zeros((shp[0] + 1,) + shp[1:], dtype=new.dtype)
    E.ensure("wrong shape rejected", E.raises(ValueError, lambda: f(bad, key)))


UC = "pyuvdata.uvcal.uvcal:UVCal."


@contract("C06", funcs=[UC + n for n in ("get_gains", "get_flags", "get_quality", "_slice_array", "ant2ind", "jpol2ind", "_parse_key", "_key_exists", "get_time_array")], mode="bounded", cases=250)
def cal_lookup(E):
    """Gains, flags and qualities by antenna and polarization are those of that antenna and polarization; unknown keys are rejected."""
    from pyuvdata import utils

    c = gen.uvcal(E)
    r = E.np_rng
    data = [("get_flags", c.flag_array), ("get_quality", c.quality_array)]
    if c.cal_type == "gain":
        data.append(("get_gains", c.gain_array))
    for name, arr in data:
        if arr is None:
            continue
        get = getattr(c, name)
        i, j = int(r.integers(0, c.Nants_data)), int(r.integers(0, c.Njones))
        ant, num = c.ant_array[i], c.jones_array[j]
        js = utils.jnum2str(num, x_orientation=c.telescope.x_orientation)
        key = E.choice("key", ["ant", "ant1", "pair", "args", "name", "pairname"])
        sq = E.bool("squeeze")
        kw = {} if sq else {"squeeze_pol": False}
        if key in ("ant", "ant1"):
            want = arr[i]
            if sq and c.Njones == 1:
                want = want[:, :, 0]
            got = get(int(ant) if E.bool("int") else ant, **kw) if key == "ant" else get((ant,), **kw)
        else:
            want = arr[i, :, :, j]
            got = {"pair": lambda: get((ant, num), **kw), "args": lambda: get(ant, num, **kw), "name": lambda: get(ant, js.upper() if E.bool("upper") else js, **kw), "pairname": lambda: get((ant, js), **kw)}[key]()
        E.ensure(f"{name}: exactly the matching solutions", got.shape == want.shape and np.array_equal(got, want, equal_nan=True), detail=(key, sq))
        missing = max(c.telescope.antenna_numbers) + 1
        E.ensure("unknown antenna rejected", E.raises(ValueError, lambda: get(missing)))
        absent = [x for x in (range(-8, -4) if num < -4 else range(-4, 0)) if x not in c.jones_array]
        if absent:
            E.ensure("unknown polarization rejected", E.raises(ValueError, lambda: get(ant, absent[0])))
    if c.cal_type != "gain":
        E.ensure("no gains in a delay object", E.raises(ValueError, lambda: c.get_gains(c.ant_array[0])))
    t = c.get_time_array()
    E.ensure("times", np.array_equal(t, c.time_array if c.time_range is None else c.time_range.sum(1) / 2))


@contract("C06", funcs=[UC + n for n in ("_slice_array", "ant2ind", "jpol2ind", "_key_exists")], cases=100)
def cal_index(E):
    """The record found for an antenna and polarization carries exactly these labels, for every order and number of them."""
    from pyuvdata import UVCal

    na, nj, nf, nt = E.dim("nants", 1, 6), E.dim("njones", 1, 4), E.dim("nfreqs", 1, 3), E.dim("ntimes", 1, 3)
    ants = E.array("ants", (na,), "i", lo=0, hi=None if E.mode == "sym" else 20, distinct=True)
    jones = E.array("jones", (nj,), "i", lo=-8, hi=-1, distinct=True)
    data = E.array("data", (na, nf, nt, nj), "f")
    c = UVCal()
    c.ant_array, c.jones_array, c.Njones = ants, jones, nj
    i, j = E.int("i", 0) if E.mode == "sym" else E.int("i", 0, na - 1), E.int("j", 0) if E.mode == "sym" else E.int("j", 0, nj - 1)
    E.assume(E.And(i < na, j < nj))
    a, p = E.at(ants, i), E.at(jones, j)
    k, m = c.ant2ind(a), c.jpol2ind(p)
    E.ensure("antenna index", E.And(k >= 0, k < na, E.at(ants, k) == a))
    E.ensure("polarization index", E.And(m >= 0, m < nj, E.at(jones, m) == p))
    got = c._slice_array((a, p), data)
    E.ensure_all("its own samples", (nf, nt), lambda f, t: E.eq(E.at(got, f, t), E.at(data, i, f, t, j)))
    x = E.int("x", 0) if E.mode == "sym" else E.int("x", 0, 25)
    E.assume(E.forall([na], lambda q: E.Not(E.at(ants, q) == x)))
    E.ensure("unknown antenna rejected", E.raises(ValueError, lambda: c.ant2ind(x)))
