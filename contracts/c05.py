"""C05 conjugate_bls."""
import numpy as np
from pvc.reg import contract
from contracts.objs import *
from contracts import gen
from contracts.c09 import CONJ

U = "pyuvdata.uvdata.uvdata:UVData."
POLSETS = [[-5], [-5, -6, -7, -8], [-8, -5, -7, -6], [-7, -8], [-1, -3, -4, -2], [1, 2, 3, 4], [-6, -5], [-8, -7]]


def _conjugate(E, convs, polsets):
    """Exactly the records the convention designates are reversed; everything of every record stays with its antenna pair, feed pair and time."""
    pols = E.choice("pols", polsets)
    uv, D = make_uvdata(E, dims={"pol": len(pols)}, pols=np.array(pols), nants=None)
    uv.blts_are_rectangular = uv.time_axis_faster_than_bls = None
    if E.mode == "sym":
        BL = bl_code(E, uv)
    old = snap_uvdata(E, uv)
    conv = E.choice("conv", convs)
    n, nf = D["blt"], D["freq"]
    if conv == "index":
        m = E.dim("m", 1, 4)
        arg = E.array("inds", (m,), "i", lo=0, hi=n - 1, distinct=True)
        hit = lambda i: E.member(arg, i)
    else:
        arg = conv
        a1, a2, w = old["ant_1_array"], old["ant_2_array"], old["uvw_array"]
        u = lambda i, k: E.at(w, i, k)
        if conv.startswith("ant"):
            hit = (lambda i: E.at(a1, i) > E.at(a2, i)) if conv == "ant1<ant2" else (lambda i: E.at(a1, i) < E.at(a2, i))
        else:
            x, y = (0, 1) if conv[0] == "u" else (1, 0)
            s = 1 if conv[1] == "<" else -1
            # the first nonzero of (u, v, w) (or (v, u, w)) has the wrong sign
            hit = lambda i: E.Or(s * u(i, x) > 0, E.And(u(i, x) == 0, s * u(i, y) > 0), E.And(u(i, x) == 0, u(i, y) == 0, s * u(i, 2) > 0))
    uv.conjugate_bls(arg, use_enu=False)
    at = E.at
    E.ensure_all("antenna 1", [n], lambda i: at(uv.ant_1_array, i) == E.ite(hit(i), at(old["ant_2_array"], i), at(old["ant_1_array"], i)))
    E.ensure_all("antenna 2", [n], lambda i: at(uv.ant_2_array, i) == E.ite(hit(i), at(old["ant_1_array"], i), at(old["ant_2_array"], i)))
    E.ensure_all("uvw", [n, 3], lambda i, k: E.same(at(uv.uvw_array, i, k), E.ite(hit(i), -at(old["uvw_array"], i, k), at(old["uvw_array"], i, k))))
    for p, pol in enumerate(pols):
        q = pols.index(CONJ[pol])
        conj = lambda z: z.conjugate() if hasattr(z, "conjugate") else z
        E.ensure_all(f"data of polarization {pol}", [n, nf], lambda i, c: E.same(at(uv.data_array, i, c, p), E.ite(hit(i), conj(at(old["data_array"], i, c, q)), at(old["data_array"], i, c, p))))
        E.ensure_all(f"flags of polarization {pol}", [n, nf], lambda i, c: E.Iff(at(uv.flag_array, i, c, p), E.ite(hit(i), at(old["flag_array"], i, c, q), at(old["flag_array"], i, c, p))))
        E.ensure_all(f"weights of polarization {pol}", [n, nf], lambda i, c: E.same(at(uv.nsample_array, i, c, p), E.ite(hit(i), at(old["nsample_array"], i, c, q), at(old["nsample_array"], i, c, p))))
    for a in old:
        if a in ("ant_1_array", "ant_2_array", "baseline_array", "uvw_array", "data_array", "flag_array", "nsample_array"):
            continue
        new = getattr(uv.telescope, a[4:]) if a.startswith("tel.") else getattr(uv, a)
        E.ensure(f"{a} untouched", E.same_array(new, old[a]))
    if E.mode != "sym":
        E.ensure("baseline numbers", E.same_array(uv.baseline_array, uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)))
        E.ensure("Nbls", uv.Nbls == len(set(uv.baseline_array)))
    else:
        E.ensure_all("baseline numbers", [n], lambda i: at(uv.baseline_array, i) == at(BL, at(uv.ant_1_array, i), at(uv.ant_2_array, i)))


def _mk(nm, convs, polsets):
    @contract("C05", funcs=[U + "conjugate_bls", "pyuvdata.utils.pol:reorder_conj_pols"], cases=60, timeout=200, name=nm)
    def f(E):
        _conjugate(E, convs, polsets)


_mk("conjugate_index", ["index"], POLSETS)
_mk("conjugate_ant", ["ant1<ant2", "ant2<ant1"], POLSETS)
_mk("conjugate_u", ["u<0", "u>0"], POLSETS[:4])
_mk("conjugate_v", ["v<0", "v>0"], POLSETS[:4])


def _enu(uv):
    return {int(a): p for a, p in zip(uv.telescope.antenna_numbers, uv.telescope.get_enu_antpos())}


@contract("C05", funcs=[U + "conjugate_bls", U + "reorder_blts"], mode="bounded", cases=250)
def conjugate_public(E):
    """Complete objects, every way to ask for an orientation; lookups before and after agree."""
    uv = gen.uvdata(E, phys=False)
    pols = list(uv.polarization_array)
    closed = all(CONJ[p] in pols for p in pols)
    if E.choice("lookups", [True, False]):
        for pr in set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())):
            uv.antpair2ind(pr)
            if closed:
                uv.get_data(pr)
    how = E.choice("how", ["index", "ant1<ant2", "ant2<ant1", "u<0", "u>0", "v<0", "v>0"])
    use_enu = E.choice("use_enu", [True, False])
    tol = E.choice("tol", [0.0, 0.0, 1.0])
    meta = E.choice("metadata_only", [False, False, False, True])
    if meta:
        uv.data_array = uv.flag_array = uv.nsample_array = None
    uv.blt_order = E.choice("blt_order", [None, "det"]) and None
    if E.choice("det_order", [True, False]):
        uv.determine_blt_order()
    old = gen.snap(uv)
    n = uv.Nblts
    a1, a2, w = old["ant_1_array"], old["ant_2_array"], old["uvw_array"]
    if use_enu and how[0] in "uv":
        enu = _enu(uv)
        w = np.array([enu[int(b)] - enu[int(a)] for a, b in zip(a1, a2)])
    if how == "index":
        k = E.np_rng.integers(1, n + 1)
        arg = E.np_rng.permutation(n)[:k]
        hit = np.isin(np.arange(n), arg)
        arg = E.choice("cont", [lambda x: x, list, tuple])(arg)
    elif how.startswith("ant"):
        arg = how
        hit = (a1 > a2) if how == "ant1<ant2" else (a1 < a2)
    else:
        arg = how
        x, y = (0, 1) if how[0] == "u" else (1, 0)
        s = 1 if how[1] == "<" else -1
        v = s * w
        zx, zy = np.abs(v[:, x]) <= tol, np.abs(v[:, y]) <= tol
        # skip knife-edge values, which rounding of the coordinate conversion may decide either way
        E.assume(not np.any((np.abs(np.abs(w) - tol) < 1e-9 * (1 + np.abs(w))) & (w != 0)))
        hit = (v[:, x] > tol) | (zx & (v[:, y] > tol)) | (zx & zy & (v[:, 2] > tol))
    via = E.choice("via", ["direct", "reorder"])
    if hit.any() and not closed:
        E.ensure("missing conjugate polarization rejected", E.raises(ValueError, lambda: uv.conjugate_bls(arg, use_enu=use_enu, uvw_tol=tol)))
        return
    if via == "direct":
        uv.conjugate_bls(arg, use_enu=use_enu, uvw_tol=tol)
    else:
        uv.reorder_blts(np.arange(n), conj_convention=arg, conj_convention_use_enu=use_enu, uvw_tol=tol, run_check=False)
    cp = np.array([pols.index(CONJ[p]) if CONJ[p] in pols else i for i, p in enumerate(pols)])
    want = dict(old)
    want["ant_1_array"], want["ant_2_array"] = np.where(hit, a2, a1), np.where(hit, a1, a2)
    want["uvw_array"] = np.where(hit[:, None], -old["uvw_array"], old["uvw_array"])
    want["baseline_array"] = uv.antnums_to_baseline(want["ant_1_array"], want["ant_2_array"])
    want["Nbls"] = len(set(want["baseline_array"]))
    if not meta:
        h = hit[:, None, None]
        want["data_array"] = np.where(h, np.conj(old["data_array"][:, :, cp]), old["data_array"])
        want["flag_array"] = np.where(h, old["flag_array"][:, :, cp], old["flag_array"])
        want["nsample_array"] = np.where(h, old["nsample_array"][:, :, cp], old["nsample_array"])
    now = gen.snap(uv)
    for k in want:
        if k not in ("blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"):
            E.ensure(f"{k}", gen.val_eq(want[k], now[k]), detail=(str(want[k])[:200], str(now[k])[:200]))
    gen.true_reports(E, uv)
    uv.check(check_extra=True, run_check_acceptability=False)
    if not meta:
        gen.lookups_true(E, uv)
    if how != "index":
        uv.conjugate_bls(arg, use_enu=use_enu, uvw_tol=tol)
        again = gen.snap(uv)
        for k in now:
            E.ensure(f"second time changes nothing: {k}", gen.val_eq(now[k], again[k]))


@contract("C05", funcs=[U + "conjugate_bls"], mode="bounded", cases=40)
def conjugate_rejects(E):
    uv = gen.uvdata(E, fams=("stokes",))
    old = gen.snap(uv)
    bad = E.choice("bad", ["foo", "ant1>ant2", [uv.Nblts], [-1], [0, uv.Nblts + 3], [0.5], np.array([True])])
    E.ensure("invalid convention rejected", E.raises((ValueError, TypeError), lambda: uv.conjugate_bls(bad)))
    gen.unchanged(E, "rejected", old, uv)
