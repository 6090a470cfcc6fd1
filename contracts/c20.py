"""C20 redundant baseline groups, compression and inflation."""
import warnings

import numpy as np
from pvc.reg import contract
from pvc.loops import loop
from contracts import gen

R = "pyuvdata.utils.redundancy:"
U = "pyuvdata.uvdata.uvdata:UVData."
P = "pyuvdata/utils/redundancy.py"


# ------------------------------------------------------------------ proof: orientation of baselines before grouping
def _flip(E, v, tol):
    x, y, z = v
    zero = lambda q: E.And(q <= tol, -q <= tol)
    return E.Or(x < -tol, E.And(zero(x), y < -tol), E.And(zero(x), zero(y), z < -tol))


def _conj_state(E, k, init, env):
    from pvc.loops import fresh_list

    return {"conjugates": fresh_list(E, k)}


@loop(P, "get_baseline_redundancies", 0, state=_conj_state)
def _conj_inv(E, k, st, env):
    c = st.conjugates
    v = env.baseline_vecs
    if type(c) is list:
        return k == len(c)
    return E.And(c.arr.shape[0] == k, E.forall([k], lambda i: E.Iff(E.at(c.arr, i), _flip(E, [E.at(v, i, q) for q in range(3)], env.tol))))


@contract("C20", funcs=[R + "get_baseline_redundancies"], cases=60)
def orientation(E):
    """Before grouping up to reversal, every vector is kept or negated by the sign of its first component beyond the tolerance;
    exactly the negated baselines are reported as conjugated, and the caller's vectors are not modified."""
    from pyuvdata.utils import redundancy as red

    n = E.dim("n", 1, 4)
    bls = E.array("baselines", (n,), "i", **({} if E.mode == "sym" else dict(lo=0, hi=10**6)))
    vecs = E.array("vecs", (n, 3), "f")
    E.assume(E.forall((n, n), lambda i, j: E.Implies(E.at(bls, i) == E.at(bls, j), i == j)))
    tol = E.real("tol")
    E.assume(tol > 0)
    old, oldb = E.old(vecs), E.old(bls)
    seen = {}
    orig = red.get_baseline_redundancies

    def group(baselines, baseline_vecs, *, tol, include_conjugates, use_grid_alg):
        seen.update(b=baselines, v=baseline_vecs, t=tol, inc=include_conjugates)
        return "groups", "centers", "lengths"

    red.get_baseline_redundancies = group
    try:
        out = orig(bls, vecs, tol=tol, include_conjugates=True, use_grid_alg=True)
    finally:
        red.get_baseline_redundancies = orig
    E.ensure("the grouping of the oriented vectors is returned", E.And(out[0] == "groups", out[1] == "centers", out[2] == "lengths", not seen["inc"]))
    E.ensure("same tolerance", seen["t"] == tol)
    conj = out[3]
    flip = lambda i: _flip(E, [E.at(old, i, k) for k in range(3)], tol)
    E.ensure_all("each vector is kept or negated by its own sign", (n,), lambda i: E.And(*[E.at(seen["v"], i, k) == E.ite(flip(i), -E.at(old, i, k), E.at(old, i, k)) for k in range(3)]))
    E.ensure_all("same baselines in the same order", (n,), lambda i: E.at(seen["b"], i) == E.at(oldb, i))
    E.ensure_all("exactly the negated baselines are reported", (n,), lambda i: E.Iff(E.member(conj, E.at(oldb, i)), flip(i)))
    E.ensure_all("the caller's vectors are not modified", (n,), lambda i: E.And(*[E.at(vecs, i, k) == E.at(old, i, k) for k in range(3)]))


# ------------------------------------------------------------------ concrete layouts
def lattice(E, n, tol, dims=2, jitter=True):
    """n distinct points of a lattice with spacing far above the tolerance, jittered well below it -> (integer coords, vectors)"""
    r = E.np_rng
    box = [[2, 2, 2 if dims == 3 else 0], [n - 1, 0, 0], [0, n, 0], [2, 1, 1 if n > 6 else 0]][r.integers(4)]
    if (box[0] + 1) * (box[1] + 1) * (box[2] + 1) < n:
        box = [2, 2, 2]
    cells = [(i, j, k) for i in range(box[0] + 1) for j in range(box[1] + 1) for k in range(box[2] + 1)]
    c = np.array([cells[i] for i in r.permutation(len(cells))[:n]]) - r.integers(0, 2, size=3)
    v = c * (tol * float(r.choice([8.0, 14.6])))
    if jitter:
        v = v + r.uniform(-tol / 30, tol / 30, v.shape)
    return c, v


def canon(c):
    for x in c:
        if x:
            return tuple(int(q) for q in (c if x > 0 else -c)), x < 0
    return tuple(int(q) for q in c), False


@contract("C20", funcs=[R + "get_baseline_redundancies", R + "find_clusters", R + "find_clusters_grid", R + "_adj_list", R + "_find_cliques"], mode="bounded", cases=300)
def lattice_groups(E):
    """Layouts with well separated groups: the groups are exactly the redundancy classes."""
    from pyuvdata.utils import redundancy as red

    r = E.np_rng
    tol = E.choice("tol", [1.0, 0.05, 3.0])
    na = E.dim("nant", 2, 6)
    c, v = lattice(E, na, tol, E.choice("dims", [2, 3]), E.choice("jitter", [True, False]))
    pairs = [(i, j) if r.random() < 0.5 else (j, i) for i in range(na) for j in range(i, na)]
    pairs = [pairs[k] for k in r.permutation(len(pairs))[: r.integers(1, len(pairs) + 1)]]
    ids = np.array([1000 * (i + 1) + j for i, j in pairs])
    lv = np.array([c[j] - c[i] for i, j in pairs])
    bv = np.array([v[j] - v[i] for i, j in pairs])
    old = bv.copy()
    inc, grid = E.choice("conj", [True, False]), E.choice("grid", [True, False])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = red.get_baseline_redundancies(ids, bv, tol=tol, include_conjugates=inc, use_grid_alg=grid)
    gps, cen, lens = out[:3]
    E.ensure("vectors not modified", np.array_equal(old, bv))
    flat = [int(b) for g in gps for b in g]
    E.ensure("every baseline in exactly one group", sorted(flat) == sorted(ids.tolist()), detail=(flat, ids))
    cls = {}
    flip = {}
    for b, l in zip(ids.tolist(), lv):
        k, f = canon(l) if inc else (tuple(l), False)
        cls.setdefault(k, set()).add(b)
        flip[b] = f
    E.ensure("groups are the redundancy classes", {frozenset(int(b) for b in g) for g in gps} == {frozenset(g) for g in cls.values()}, detail=(gps, cls))
    if inc:
        E.ensure("reversed members reported", sorted(int(b) for b in out[3]) == sorted(b for b in ids.tolist() if flip[b]))
    for g, ce, le in zip(gps, cen, lens):
        m = np.mean([bv[ids.tolist().index(b)] * (-1 if flip[int(b)] else 1) for b in g], axis=0)
        E.ensure("group vector is the mean of its members", np.allclose(ce, m, atol=1e-9))
        E.ensure("group length", abs(le - np.linalg.norm(m)) < 1e-9)


@contract("C20", funcs=[R + "get_baseline_redundancies", R + "find_clusters", R + "find_clusters_grid", R + "_adj_list", R + "_find_cliques"], mode="bounded", cases=300)
def any_groups(E):
    """Arbitrary vectors: one group each, nothing farther apart than the tolerance; clusters exact or rejected."""
    from pyuvdata.utils import redundancy as red

    r = E.np_rng
    tol = 1.0
    n = E.dim("n", 1, 12)
    bv = r.uniform(-1, 1, (n, 3)) * E.choice("scale", [0.4, 1.5, 4.0, 10.0])
    ids = r.permutation(100)[:n]
    if E.choice("grid", [True, False]):
        gps, _ = red.find_clusters_grid(ids, bv, tol=tol)
        E.ensure("every baseline in exactly one group", sorted(int(b) for g in gps for b in g) == sorted(ids.tolist()))
        for g in gps:
            w = np.array([bv[ids.tolist().index(b)] for b in g])
            E.ensure("members agree within the tolerance along every axis", bool(np.all(w.max(axis=0) - w.min(axis=0) <= tol)), detail=w)
        return
    d = np.linalg.norm(bv[:, None] - bv[None], axis=-1) < tol
    clean = all(np.array_equal(d[i], d[j]) for i in range(n) for j in range(n) if d[i, j])
    nb = E.choice("blocks", [None, 2])
    if nb and n >= 2:
        adj = red._adj_list(bv, tol, n_blocks=nb)
        E.ensure("adjacency lists are exactly the pairs within tolerance", all({int(x) for x in adj[i]} == set(np.nonzero(d[i])[0].tolist()) for i in range(n)))
    if not clean:
        E.ensure("ambiguous layouts are rejected", E.raises(ValueError, lambda: red.find_clusters(location_ids=ids, location_vectors=bv, tol=tol, strict=True)))
        return
    gps = red.find_clusters(location_ids=ids, location_vectors=bv, tol=tol, strict=True)
    E.ensure("every baseline in exactly one group", sorted(int(b) for g in gps for b in g) == sorted(ids.tolist()))
    pos = {b: k for k, g in enumerate(gps) for b in g}
    E.ensure("grouped exactly when within tolerance", all((pos[ids[i]] == pos[ids[j]]) == bool(d[i, j]) for i in range(n) for j in range(n)))


@contract("C20", funcs=[R + "get_antenna_redundancies"], mode="bounded", cases=200)
def antenna_groups(E):
    """Groups from antenna positions: every pair once, oriented alike."""
    from pyuvdata import utils
    from pyuvdata.utils import redundancy as red

    r = E.np_rng
    tol = 1.0
    na = E.dim("nant", 1, 6)
    c, v = lattice(E, na, tol, E.choice("dims", [2, 3]))
    nums = r.choice(np.arange(0, E.choice("maxant", [20, 400, 5000])), size=na, replace=False)
    autos, grid = E.choice("autos", [True, False]), E.choice("grid", [True, False])
    E.assume(na > 1 or autos)
    old = v.copy()
    gps, cen, lens = red.get_antenna_redundancies(nums, v, tol=tol, include_autos=autos, use_grid_alg=grid)
    E.ensure("positions not modified", np.array_equal(v, old))
    seen, groups = [], {}
    for g, ce in zip(gps, cen):
        ks = set()
        for b in g:
            a1, a2 = utils.baseline_to_antnums(b, Nants_telescope=na)
            i, j = nums.tolist().index(a1), nums.tolist().index(a2)
            seen.append(frozenset((i, j)))
            ks.add(tuple((c[j] - c[i]).tolist()))
            E.ensure("member vector agrees with the group's", np.allclose(v[j] - v[i], ce, atol=tol))
        E.ensure("members share one oriented lattice vector", len(ks) == 1, detail=ks)
        k = canon(np.array(ks.pop()))[0]
        E.ensure("classes are not split", k not in groups)
        groups[k] = g
    want = [frozenset((i, j)) for i in range(na) for j in range(i, na) if autos or i != j]
    E.ensure("every antenna pair exactly once", sorted(map(sorted, seen)) == sorted(map(sorted, want)))


def redundant_uv(E, full=False, **kw):
    """A visibility object whose antennas lie on a lattice."""
    from pyuvdata import utils

    r = E.np_rng
    na = E.dim("nant", 3, 5)
    uv = gen.uvdata(E, phase=False, npc=1, nant=na, maxbl=30, autos=E.choice("autos", [True, False]), maxper=2, grid=kw.pop("grid", "full"), same_int=True, **kw)
    tel = uv.telescope
    c, v = lattice(E, na, 1.0, 2)
    v = v - v.mean(axis=0)
    loc = tel.location
    tel.antenna_positions = utils.ECEF_from_ENU(v, center_loc=loc) - np.array([loc.x.value, loc.y.value, loc.z.value])
    uv.set_uvws_from_antenna_positions(update_vis=False)
    cells = {int(n): ci for n, ci in zip(tel.antenna_numbers, c)}
    return uv, cells


def cell(cells, a, b):
    return cells[int(b)] - cells[int(a)]


def conjpol(p):
    return {-3: -4, -4: -3, -7: -8, -8: -7}.get(int(p), int(p))


def oriented(uv, k, flip):
    """{pol: (data, flag, nsample)} of record k, as seen from the reversed baseline when flip."""
    pols = uv.polarization_array.tolist()
    out = {}
    for i, p in enumerate(pols):
        d, f, n = uv.data_array[k, :, i], uv.flag_array[k, :, i], uv.nsample_array[k, :, i]
        out[conjpol(p) if flip else p] = (np.conj(d) if flip else d, f, n)
    return out


@contract("C20", funcs=[U + "compress_by_redundancy", U + "get_redundancies"], mode="bounded", cases=400, conc_tl=120)
def compress(E):
    """Compression keeps one baseline per group with its own data (select) or the weighted mean of its group (average)."""
    r = E.np_rng
    uv, cells = redundant_uv(E, scan=False, npols=E.choice("np", [1, 2, 4]), grid=E.choice("grid0", ["full", "full", "gaps"]))
    if E.choice("noflag", [True, False]):
        uv.flag_array[:] = False
    meth, inp, grid = E.choice("method", ["select", "average"]), E.choice("inplace", [True, False]), E.choice("alg", [True, False])
    old = gen.snap(uv)
    src = uv.copy()
    cls = {}
    for b, a1, a2 in zip(src.baseline_array, src.ant_1_array, src.ant_2_array):
        cls.setdefault(canon(cell(cells, a1, a2))[0], set()).add(int(b))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = uv.compress_by_redundancy(method=meth, tol=1.0, inplace=inp, use_grid_alg=grid)
    if inp:
        out = uv
    else:
        gen.unchanged(E, "not in place", old, uv, skip=("blts_are_rectangular", "time_axis_faster_than_bls"))
    kept = set(out.baseline_array.tolist())
    E.ensure("one baseline per group, from the group", sorted(len(kept & g) for g in cls.values()) == [1] * len(cls) and kept <= set().union(*cls.values()))
    idx = np.nonzero(np.isin(src.baseline_array, sorted(kept)))[0]
    E.ensure("records of the kept baselines, in order", np.array_equal(out.time_array, src.time_array[idx]) and np.array_equal(out.baseline_array, src.baseline_array[idx]))
    E.ensure("labels", np.array_equal(out.ant_1_array, src.ant_1_array[idx]) and np.allclose(out.uvw_array, src.uvw_array[idx]))
    if meth == "select":
        for a in ("data_array", "flag_array", "nsample_array"):
            E.ensure(f"{a} of the kept baselines", np.array_equal(getattr(out, a), getattr(src, a)[idx]))
        return
    for k in range(out.Nblts):
        rep = canon(cell(cells, out.ant_1_array[k], out.ant_2_array[k]))
        mem = [i for i in range(src.Nblts) if abs(src.time_array[i] - out.time_array[k]) < 1e-9 and canon(cell(cells, src.ant_1_array[i], src.ant_2_array[i]))[0] == rep[0]]
        parts = [oriented(src, i, canon(cell(cells, src.ant_1_array[i], src.ant_2_array[i]))[1] != rep[1]) for i in mem]
        for j, p in enumerate(out.polarization_array.tolist()):
            D, Fl, N = (np.array([q[p][x] for q in parts]) for x in range(3))
            E.ensure("averaged flag: all members flagged", np.array_equal(out.flag_array[k, :, j], Fl.all(axis=0)), detail=(k, p))
            ok = ~Fl.all(axis=0)
            w = np.where(Fl, 0, N)
            E.ensure("averaged weight: sum over unflagged members", np.allclose(out.nsample_array[k, :, j][ok], w.sum(axis=0)[ok]))
            with np.errstate(all="ignore"):
                m = (D * w).sum(axis=0) / w.sum(axis=0)
            E.ensure("averaged data: weighted mean of the oriented members", np.allclose(out.data_array[k, :, j][ok], m[ok]), detail=(k, p))


@contract("C20", funcs=[U + "inflate_by_redundancy", U + "get_redundancies"], mode="bounded", cases=150, conc_tl=120)
def inflate(E):
    """Inflation gives every baseline of a present group the representative's records, correctly oriented."""
    r = E.np_rng
    uv, cells = redundant_uv(E, full=True, npols=E.choice("np", [1, 2, 4]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if E.choice("compress", [True, True, False]):
            uv.compress_by_redundancy(method="select", tol=1.0, use_grid_alg=False)
        src = uv.copy()
        order = E.choice("border", ["time", "baseline", "ant1"])
        uv.inflate_by_redundancy(tol=1.0, blt_order=order, use_grid_alg=E.choice("alg", [True, False]))
    ants = list(cells)
    present = {}
    for k in range(src.Nblts):
        present.setdefault(canon(cell(cells, src.ant_1_array[k], src.ant_2_array[k]))[0], set()).add(frozenset((int(src.ant_1_array[k]), int(src.ant_2_array[k]))))
    want = {}
    for i, a in enumerate(ants):
        for b in ants[i:]:
            key = canon(cell(cells, a, b))[0]
            if key in present:
                want[frozenset((a, b))] = key
    got = {}
    for k in range(uv.Nblts):
        got.setdefault(frozenset((int(uv.ant_1_array[k]), int(uv.ant_2_array[k]))), []).append(k)
    E.ensure("exactly the baselines of the present groups", set(got) == set(want), detail=(sorted(map(sorted, got)), sorted(map(sorted, want))))
    E.ensure("baseline numbers", np.array_equal(uv.baseline_array, uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)))
    for pr, ks in got.items():
        ok_rep = False
        for rep in present.get(want.get(pr), ()):
            rs = [i for i in range(src.Nblts) if frozenset((int(src.ant_1_array[i]), int(src.ant_2_array[i]))) == rep]
            if sorted(src.time_array[rs]) != sorted(uv.time_array[ks]):
                continue
            good = True
            for k in ks:
                i = next(i for i in rs if src.time_array[i] == uv.time_array[k])
                f0 = canon(cell(cells, src.ant_1_array[i], src.ant_2_array[i]))[1]
                f1 = canon(cell(cells, uv.ant_1_array[k], uv.ant_2_array[k]))[1]
                o = oriented(src, i, f0 != f1)
                for j, p in enumerate(uv.polarization_array.tolist()):
                    good &= np.array_equal(uv.data_array[k, :, j], o[p][0]) and np.array_equal(uv.flag_array[k, :, j], o[p][1]) and np.array_equal(uv.nsample_array[k, :, j], o[p][2])
                good &= uv.integration_time[k] == src.integration_time[i] and abs(uv.lst_array[k] - src.lst_array[i]) < 1e-12
                good &= bool(np.allclose(uv.uvw_array[k], src.uvw_array[i] * (-1 if f0 != f1 else 1), atol=1e-9))
                if src.scan_number_array is not None:
                    good &= uv.scan_number_array is not None and len(uv.scan_number_array) == uv.Nblts and uv.scan_number_array[k] == src.scan_number_array[i]
            ok_rep |= bool(good)
        E.ensure("every baseline has its representative's data, correctly oriented", ok_rep, detail=(sorted(pr), order))
