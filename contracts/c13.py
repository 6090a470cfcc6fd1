"""C13 partial reads and writes."""
import os
import shutil
import tempfile

import numpy as np
from pvc.loops import loop
from pvc.reg import contract
from contracts import gen

T = "pyuvdata.utils.tools:"
H = "pyuvdata.utils.io.hdf5:"
U5 = "pyuvdata.uvdata.uvh5:UVH5."


# ------------------------------------------------------------------ _convert_to_slices
class Covered(list):
    """Ghost view of the list of slices: together they denote idx[:m]; append must denote idx[m:cur]."""

    def __init__(self, E, idx, cur, m, count):
        super().__init__()
        self.E, self.idx, self.cur, self.m, self.count = E, idx, cur, m, count

    def append(self, s):
        E, m, cur = self.E, self.m, self.cur
        step = 1 if s.step is None else s.step
        E.ensure("appended slice has a positive step", step > 0)
        E.ensure("appended slice has as many elements as the run", s.stop - 1 - s.start == (cur - m - 1) * step)
        E.ensure("appended slice is not empty", cur > m)
        E.ensure_all("appended slice denotes exactly the next indices", [cur - m], lambda j: E.at(self.idx, m + j) == s.start + j * step)
        self.m, self.count = cur, self.count + 1

    def __pv_len__(self):
        return self.count


def _state(E, k, init, env):
    m = E.int(E.c.fresh("m").decl().name())
    cnt = E.int(E.c.fresh("cnt").decl().name())
    out = {"slices": Covered(E, env.eval_ind, k, m, cnt)}
    case = E.choice("run", ["none", "one", "many"])
    out["start"] = None if case == "none" else E.int(E.c.fresh("start").decl().name())
    out["last_step"] = E.int(E.c.fresh("ls").decl().name()) if case == "many" else None
    if case == "many":
        out["last_ind"] = E.int(E.c.fresh("li").decl().name())
    return out


@loop("pyuvdata/utils/tools.py", "_convert_to_slices", 0, state=_state)
def _inv(E, k, st, env):
    idx = env.eval_ind
    m = st.slices.m if isinstance(st.slices, Covered) else len(st.slices)
    if st.start is None:
        return E.And(k == 0, m == 0)
    base = E.And(m >= 0, m < k, E.at(idx, m) == st.start)
    if st.last_step is None:
        return E.And(base, m == k - 1)
    return E.And(base, st.last_step > 0, m < k - 1, st.last_ind == E.at(idx, k - 1), st.last_ind == st.start + (k - 1 - m) * st.last_step,
                 E.forall([k - m], lambda j: E.at(idx, m + j) == st.start + j * st.last_step))


def expand(slices):
    return np.concatenate([np.arange(s.start, s.stop, 1 if s.step is None else s.step) for s in slices])


@contract("C13", funcs=[T + "_convert_to_slices"], cases=600, timeout=150)
def slices_denote(E):
    from pyuvdata.utils.tools import _convert_to_slices

    form = E.choice("form", ["array", "mask"])
    n = E.dim("n", 0, 9)
    if form == "array":
        idx = ind = E.array("idx", (n,), "i", lo=0, hi=None if E.mode == "sym" else 12)
        if E.mode != "sym":
            how = E.choice("how", ["any", "sorted", "runs"])
            if how == "sorted":
                idx = ind = np.unique(ind)
            elif how == "runs":
                idx = ind = np.concatenate([np.arange(a, a + int(d) * l, int(d)) for a, d, l in zip(E.np_rng.integers(0, 20, 3), E.np_rng.integers(1, 4, 3), E.np_rng.integers(1, 4, 3))])
            if E.choice("list", [True, False]):
                ind = ind.tolist()
        cnt = E.length(idx)
    else:
        ind = E.array("mask", (n,), "b")
        idx = np.where(ind)[0] if E.mode != "sym" else _where(ind)
        cnt = E.length(idx)
    mx, rf = E.choice("opts", [(None, False), (None, True), (1, True), (1, False), (3, True)])
    r, ok = _convert_to_slices(ind, max_nslice=mx, return_index_on_fail=rf)
    ok = bool(ok)
    if isinstance(r, Covered):
        E.ensure("the slices cover every index", r.m == cnt)
        return
    if not ok and (rf or mx == 1) and not isinstance(r[0], slice):
        E.ensure("falls back to the indices given", r[0] is ind)
        return
    if bool(cnt == 0):
        E.ensure("nothing to slice is not sliceable", not ok)
        return
    if E.mode != "sym":
        E.ensure("slices denote exactly the indices, in order", expand(r).tolist() == list(idx), detail=(str(r), list(idx)))
    else:
        if len(r) == 2:
            # the short-list path: two one-element slices
            for q, s in enumerate(r):
                E.ensure("one-element slice", E.And(s.start == E.at(idx, q), s.stop == s.start + 1, 1 if s.step is None else s.step > 0))
            E.ensure("two indices", cnt == 2)
            return
        E.ensure("one slice", len(r) == 1)
        s = r[0]
        step = 1 if s.step is None else s.step
        E.ensure("positive step", step > 0)
        E.induct("slice denotes the indices", cnt, lambda j: E.at(idx, j) == s.start + j * step)
        E.ensure("slice ends at the last index", E.And(s.stop - 1 == E.at(idx, cnt - 1)))


def _where(mask):
    from pvc import snp

    return snp.function_call("where", (mask,), {})[0]


# ------------------------------------------------------------------ index helpers
@contract("C13", funcs=[H + "_get_slice_len"], cases=400)
def slice_len(E):
    """length of dset[slice] along an axis: the number of j with start + j*step < min(stop, axlen)."""
    from pyuvdata.utils.io.hdf5 import _get_slice_len

    hi = None if E.mode == "sym" else 12
    n = E.int("n", lo=0, hi=hi)
    a, b = E.int("a", lo=0, hi=hi), E.int("b", lo=0, hi=hi)
    st = E.int("s", lo=1, hi=hi)
    ha, hb, hs = E.choice("a?", [True, False]), E.choice("b?", [True, False]), E.choice("s?", [True, False])
    A = a if ha else 0
    B = E.ite(b < n, b, n) if hb else n
    S = st if hs else 1
    E.assume(A <= B)
    L = _get_slice_len(slice(a if ha else None, b if hb else None, st if hs else None), n)
    E.ensure("non-negative", L >= 0)
    E.ensure("last element is inside", E.Implies(L > 0, A + (L - 1) * S < B))
    E.ensure("no element is missing", A + L * S >= B)


@contract("C13", funcs=[H + "_index_dset", H + "_get_dset_shape"], cases=500, timeout=150)
def index_dset(E):
    """out[i, j] is the element of the dataset at the i-th / j-th listed index; writes go exactly there."""
    from pyuvdata.utils.io.hdf5 import _index_dset

    dims = [E.dim(f"d{q}", 1, 6) for q in range(2)]
    D = E.array("D", tuple(dims), "i")
    kinds = E.choice("kinds", ["slices-slice", "slice-slices", "list-slice", "int-slices", "slices-slices", "all-slice"]).split("-")
    inds, pos, lens = [], [], []

    def mk(q, tag):
        n = dims[q]
        if E.mode != "sym":
            r = E.np_rng
            a, s = int(r.integers(0, n)), int(r.integers(1, 4))
            return a, int(r.integers(1, (n - 1 - a) // s + 2)), s
        a, l, s = E.int(f"a{tag}", lo=0, hi=n - 1), E.dim(f"l{tag}", 1, 4), E.choice(f"s{tag}", [1, 2] if tag[-1] != "y" else [1])
        E.assume(a + (l - 1) * s < n)
        return a, l, s

    for q, k in enumerate(kinds):
        n = dims[q]
        if k == "all":
            inds.append(np.s_[:])
            pos.append(lambda i: i)
            lens.append(n)
        elif k == "slice":
            a, l, s = mk(q, f"{q}")
            inds.append(slice(a, a + (l - 1) * s + 1, s))
            pos.append(lambda i, a=a, s=s: a + i * s)
            lens.append(l)
        elif k == "slices":
            (a, l, s), (b, m, t) = mk(q, f"{q}x"), mk(q, f"{q}y")
            inds.append([slice(a, a + (l - 1) * s + 1, s), slice(b, b + (m - 1) * t + 1, t)])
            pos.append(lambda i, a=a, s=s, b=b, t=t, l=l: E.ite(i < l, a + i * s, b + (i - l) * t))
            lens.append(l + m)
        elif k == "int":
            a = E.int(f"a{q}", lo=0, hi=n - 1)
            inds.append(a)
            pos.append(lambda i, a=a: a)
            lens.append(1)
        else:
            x, y = E.int(f"x{q}", lo=0, hi=n - 1), E.int(f"y{q}", lo=0, hi=n - 1)
            inds.append([x, y])
            pos.append(lambda i, x=x, y=y: E.ite(i == 0, x, y))
            lens.append(2)
    old = E.old(D)
    out = _index_dset(D, tuple(inds))
    E.ensure("shape", E.And(*[a == b for a, b in zip(E.shape(out), lens)]))
    E.ensure_all("each element comes from its listed index", lens, lambda i, j: E.at(out, i, j) == E.at(old, pos[0](i), pos[1](j)))
    E.ensure_all("dataset unmodified", dims, lambda i, j: E.at(D, i, j) == E.at(old, i, j))
    if kinds in (["all", "slice"], ["slice", "slices"], ["list", "slice"]) and E.choice("w", [True, False]):
        W = E.array("W", tuple(lens), "i")
        # distinct destinations (a permutation-free list of indices)
        E.assume(E.forall([lens[0], lens[0]], lambda i, j: E.Implies(i != j, pos[0](i) != pos[0](j))))
        E.assume(E.forall([lens[1], lens[1]], lambda i, j: E.Implies(i != j, pos[1](i) != pos[1](j))))
        _index_dset(D, tuple(inds), input_array=W)
        E.ensure_all("each element is written to its listed index", lens, lambda i, j: E.at(D, pos[0](i), pos[1](j)) == E.at(W, i, j))
        hit = lambda a, b: E.exists(lens, lambda i, j: E.And(pos[0](i) == a, pos[1](j) == b))
        E.ensure_all("nothing else is written", dims, lambda a, b: E.Implies(E.Not(hit(a, b)), E.at(D, a, b) == E.at(old, a, b)))


# ------------------------------------------------------------------ files
class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="pvc13-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def _sel(E, uv):
    """a random combination of selection keywords valid for uv"""
    r = E.np_rng
    kw = {}
    for ax, n in (("blt", uv.Nblts), ("freq", uv.Nfreqs), ("pol", uv.Npols)):
        if E.choice(f"sel_{ax}", [True, False]):
            k = int(r.integers(1, n + 1))
            ix = np.sort(r.permutation(n)[:k])
            if ax == "blt":
                how = E.choice("bhow", ["blt_inds", "bls", "times", "ants"])
                if how == "blt_inds":
                    kw["blt_inds"] = ix
                elif how == "bls":
                    kw["bls"] = sorted({(int(uv.ant_1_array[i]), int(uv.ant_2_array[i])) for i in ix})
                elif how == "times":
                    kw["times"] = np.unique(uv.time_array[ix])
                else:
                    kw["antenna_nums"] = sorted({int(uv.ant_1_array[i]) for i in ix} | {int(uv.ant_2_array[i]) for i in ix})
            elif ax == "freq":
                kw["freq_chans"] = ix
            else:
                kw["polarizations"] = [int(uv.polarization_array[i]) for i in ix]
    return kw


@contract("C13", funcs=[U5 + "read_uvh5", U5 + "_get_data", "pyuvdata.uvdata.uvdata:UVData.read"], mode="bounded", cases=120, conc_tl=150)
def partial_read_uvh5(E):
    from pyuvdata import UVData

    uv = gen.uvdata(E, phys=False, decreasing=False, maxtimes=4, maxbl=6, maxper=5)
    kw = _sel(E, uv)
    with Scratch() as d:
        fn = os.path.join(d, "a.uvh5")
        dt = E.choice("dtype", [None, np.dtype("complex64")])
        uv.write_uvh5(fn, data_write_dtype=dt, run_check=False)
        full = UVData()
        full.read_uvh5(fn, run_check=False)
        E.ensure("full read has all data", full.Nblts == uv.Nblts and np.allclose(full.data_array, uv.data_array, rtol=1e-6))
        mdi = E.choice("multidim", [False, True])
        kw["keep_all_metadata"] = E.choice("keep", [True, False])
        try:
            want = full.select(inplace=False, run_check=False, **kw)
        except ValueError:
            E.ensure("rejected selection is rejected on read", E.raises(ValueError, lambda: UVData().read_uvh5(fn, multidim_index=mdi, run_check=False, **kw)))
            return
        part = UVData()
        part.read_uvh5(fn, multidim_index=mdi, run_check=False, **kw)
        _same(E, part, want)


def _same(E, got, want, what="", skip=("history", "filename")):
    a, b = gen.snap(got), gen.snap(want)
    if hasattr(got, "blts_are_rectangular"):
        # reports about the record layout may be absent from one of the two; they must be true of the records
        skip = skip + ("blts_are_rectangular", "time_axis_faster_than_bls", "blt_order")
        gen.true_reports(E, got, what)
    for k in b:
        if k not in skip:
            E.ensure(f"{what}{k} as read-then-select", gen.val_eq(b[k], a[k]), detail=(str(b[k])[:200], str(a[k])[:200]))


@contract("C13", funcs=["pyuvdata.uvdata.uvfits:UVFITS.read_uvfits"], mode="bounded", cases=60, conc_tl=100)
def partial_read_uvfits(E):
    from pyuvdata import UVData

    uv = gen.uvdata(E, nspw=1, npols=E.choice("np", [1, 2, 4]), decreasing=False, maxtimes=4, maxper=5, scan=False, eq=False)
    uv.reorder_pols("AIPS", run_check=False)
    kw = _sel(E, uv)
    with Scratch() as d:
        fn = os.path.join(d, "a.uvfits")
        for i in uv.phase_center_catalog:
            E.assume(uv.phase_center_catalog[i]["cat_type"] == "sidereal")
        E.assume(uv.Nphase == 1)
        uv.write_uvfits(fn, run_check=False)
        full = UVData()
        full.read_uvfits(fn, run_check=False)
        kw["keep_all_metadata"] = E.choice("keep", [True, False])
        try:
            want = full.select(inplace=False, run_check=False, **kw)
        except ValueError:
            E.ensure("rejected selection is rejected on read", E.raises(ValueError, lambda: UVData().read_uvfits(fn, run_check=False, **kw)))
            return
        part = UVData()
        part.read_uvfits(fn, run_check=False, **kw)
        _same(E, part, want)


@contract("C13", funcs=["pyuvdata.uvcal.calh5:CalH5.read_calh5", "pyuvdata.uvcal.calh5:CalH5._get_data"], mode="bounded", cases=100, conc_tl=100)
def partial_read_calh5(E):
    from pyuvdata import UVCal

    c = gen.uvcal(E, maxtimes=4)
    r = E.np_rng
    kw = {}
    nf = c.Nspws if c.freq_array is None else c.Nfreqs
    for ax, n, key in (("ant", c.Nants_data, "antenna_nums"), ("time", c.Ntimes, "times"), ("freq", nf, "freq_chans"), ("jones", c.Njones, "jones")):
        if E.choice(f"sel_{ax}", [True, False]):
            ix = np.sort(r.permutation(n)[: int(r.integers(1, n + 1))])
            if ax == "ant":
                kw[key] = c.ant_array[ix]
            elif ax == "time":
                if c.time_array is not None:
                    kw[key] = c.time_array[ix]
                else:
                    kw["time_range"] = [float(c.time_range[:, 0].min()), float(np.mean(c.time_range[ix[-1]]))]
            elif ax == "freq":
                if c.freq_array is None:
                    kw["spws"] = c.spw_array[ix]
                else:
                    kw[key] = ix
            else:
                kw[key] = [int(x) for x in c.jones_array[ix]]
    with Scratch() as d:
        fn = os.path.join(d, "a.calh5")
        c.write_calh5(fn, run_check=False)
        full = UVCal()
        full.read_calh5(fn, run_check=False)
        try:
            want = full.select(inplace=False, run_check=False, **kw)
        except ValueError:
            E.ensure("rejected selection is rejected on read", E.raises(ValueError, lambda: UVCal().read_calh5(fn, run_check=False, **kw)))
            return
        part = UVCal()
        part.read_calh5(fn, run_check=False, **kw)
        _same(E, part, want)


def _labels(r, n):
    """two classes of records; half of the time one of them is irregular with the first step and the span of a regular slice"""
    d = int(r.integers(2, 4))
    kmax = (n - 1) // d + 1
    if kmax < 4 or r.random() < 0.5:
        return r.integers(0, 2, n)
    k = int(r.integers(4, kmax + 1))
    s = int(r.integers(0, n - d * (k - 1)))
    mid = s + d + 1 + r.permutation(d * (k - 2) - 1)[: k - 3]
    lab = np.zeros(n, int)
    lab[np.concatenate([[s, s + d, s + d * (k - 1)], mid]).astype(int)] = 1
    return lab


@contract("C13", funcs=[U5 + "write_uvh5_part", U5 + "initialize_uvh5_file"], mode="bounded", cases=80, conc_tl=120)
def partial_write_uvh5(E):
    """Writing a partition of the data piece by piece, in any order, gives the file written at once."""
    from pyuvdata import UVData

    uv = gen.uvdata(E, phys=False, decreasing=False, maxtimes=3, maxbl=4, maxper=5)
    r = E.np_rng
    with Scratch() as d:
        fa, fb = os.path.join(d, "a.uvh5"), os.path.join(d, "b.uvh5")
        dt = E.choice("dtype", [None, None, "int"])
        if dt == "int":
            dt = np.dtype([("r", "<i4"), ("i", "<i4")])
            uv.data_array = np.round(100 * uv.data_array.real) + 1j * np.round(100 * uv.data_array.imag)
        uv.write_uvh5(fa, data_write_dtype=dt, run_check=False)
        meta = uv.copy(metadata_only=True)
        meta.initialize_uvh5_file(fb, data_write_dtype=dt)
        if E.choice("reread", [True, False]):
            meta = UVData()
            meta.read_uvh5(fb, read_data=False, run_check=False)
            hdr = [True, False]
        else:
            hdr = [False]
        lab = [_labels(r, n) for n in (uv.Nblts, uv.Nfreqs, uv.Npols)]
        cells = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
        cells = [cells[i] for i in r.permutation(8)]
        for cell in cells:
            ix = [np.nonzero(l == q)[0] for l, q in zip(lab, cell)]
            if any(len(i) == 0 for i in ix):
                continue
            kw = {}
            if len(ix[0]) < uv.Nblts:
                kw["blt_inds"] = ix[0]
            if len(ix[1]) < uv.Nfreqs:
                kw["freq_chans"] = ix[1]
            if len(ix[2]) < uv.Npols:
                kw["polarizations"] = [int(uv.polarization_array[i]) for i in ix[2]]
            g = np.ix_(*ix)
            arrs = [getattr(uv, a)[g] for a in gen.VIS]
            keep = [a.copy() for a in arrs]
            meta.write_uvh5_part(fb, data_array=arrs[0], flag_array=arrs[1], nsample_array=arrs[2], check_header=E.choice("hdr", hdr), **kw)
            E.ensure("arrays passed in are unmodified", all(np.array_equal(x, y) for x, y in zip(arrs, keep)))
        A, B = UVData(), UVData()
        A.read_uvh5(fa, run_check=False)
        B.read_uvh5(fb, run_check=False)
        _same(E, B, A)
