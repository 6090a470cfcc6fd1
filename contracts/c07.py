"""C07 phasing."""
import numpy as np
from pvc.reg import contract
from contracts import gen, objs

P = "pyuvdata.utils.phasing:"
K = "pyuvdata.utils.phasing.pyx:"
D = "pyuvdata.uvdata.uvdata:UVData."
CVEL = 299792458.0


def _sc(E, x):
    if E.mode == "sym":
        from pvc import core

        return core.strig("sin", x), core.strig("cos", x)
    return np.sin(x), np.cos(x)


def _eq(E, x, y, tol=1e-9):
    if E.mode == "sym":
        return x == y
    return bool(np.all(np.abs(np.asarray(x) - np.asarray(y)) <= tol * (1 + np.max(np.abs(np.asarray(y))))))


def _rot(E, axis, ang, v):
    """Right-handed frame rotation by ang about the axis: components of v in the rotated frame."""
    s, c = _sc(E, ang)
    j, k = (axis + 1) % 3, (axis + 2) % 3
    out = [None] * 3
    out[axis] = v[axis]
    out[j] = c * v[j] - s * v[k]
    out[k] = s * v[j] + c * v[k]
    return out


def _amount(E, name, kind, n):
    """A rotation amount: nothing, zero, one number or one per rotation."""
    if kind == "none":
        return None, lambda r: 0.0
    if kind == "zero":
        return 0.0, lambda r: 0.0
    if kind == "scalar":
        a = E.real(name)
        if E.mode == "conc":
            a = float(E.np_rng.choice([E.np_rng.uniform(-7, 7), np.pi, 1e-9, 0.0]))
        return a, lambda r: a
    a = E.array(name, (n,), "f")
    if E.mode == "conc":
        a[...] = E.np_rng.uniform(-7, 7, size=n)
        if E.rng.random() < 0.3:
            a[E.np_rng.integers(n)] = 0.0
    o = E.old(a)
    return a, lambda r: E.at(o, r)


def _vecs(E, shape_kind, n, m):
    shp = {"v": (3,), "vm": (3, m), "1vm": (1, 3, m), "nv1": (n, 3, 1), "nvm": (n, 3, m)}[shape_kind]
    x = E.array("xyz", shp, "f")
    o = E.old(x)

    def at(r, k, v):
        if shape_kind == "v":
            return E.at(o, k)
        if shape_kind == "vm":
            return E.at(o, k, v)
        return E.at(o, 0 if shape_kind == "1vm" else r, k, 0 if shape_kind == "nv1" else v)

    return x, o, at


def _shapes(E, kinds, out, n, m, shape_kind):
    """(records, vectors) the result must have; None when the shape is left as given (no rotation at all)."""
    nr = n if ("array" in kinds or shape_kind in ("nv1", "nvm")) else 1
    nv = 1 if shape_kind in ("v", "nv1") else m
    return nr, nv


@contract("C07", funcs=[P + "_rotate_one_axis", P + "_rotate_matmul_wrapper"], cases=200)
def rotate_one(E):
    """Every vector is expressed in the frame rotated by its own amount about the axis; the input is not modified."""
    from pyuvdata.utils.phasing import _rotate_one_axis

    axis = E.choice("axis", [0, 1, 2])
    kind = E.choice("amount", ["none", "zero", "scalar", "array"])
    sk = E.choice("shape", ["vm", "1vm", "nv1", "nvm"])
    n, m = E.dim("n", 2, 4), E.dim("m", 2, 4)
    if kind == "scalar" and sk == "nvm":
        return  # one rotation of several sets is refused by the function
    x, old, at = _vecs(E, sk, n, m)
    amt, a = _amount(E, "amt", kind, n)
    got = _rotate_one_axis(x, rot_amount=amt, rot_axis=axis)
    nr, nv = _shapes(E, [kind], got, n, m, sk)
    n0 = E.shape(got)[0]
    E.ensure("shape", E.And(E.Or(n0 == nr, n0 == 1), E.shape(got)[1] == 3, E.shape(got)[2] == nv))

    def ok(r, v):
        want = _rot(E, axis, a(r), [at(r, k, v) for k in range(3)])
        return E.And(*[_eq(E, E.at(got, E.ite(n0 == 1, 0, r), k, v), want[k]) for k in range(3)])

    E.ensure("rotated", E.forall((nr, nv), ok))
    E.ensure("input unchanged", E.same_array(old, x))


@contract("C07", funcs=[P + "_rotate_two_axis", P + "_rotate_one_axis", P + "_rotate_matmul_wrapper"], cases=400, timeout=200)
def rotate_two(E):
    """Two successive rotations: the combined matrix equals the first rotation followed by the second, for all axes and amounts."""
    from pyuvdata.utils.phasing import _rotate_two_axis

    ax1, ax2 = E.choice("axes", [(a, b) for a in range(3) for b in range(3)])
    if ax1 == ax2 and E.mode == "sym":
        return
    k1, k2 = E.choice("amounts", [("zero", "none"), ("zero", "array"), ("array", "none"), ("scalar", "array"), ("array", "scalar"), ("array", "array"), ("scalar", "scalar")])
    sk = E.choice("shape", ["1vm", "nv1"])
    n, m = E.dim("n", 2, 4), E.dim("m", 2, 4)
    x, old, at = _vecs(E, sk, n, m)
    a1, f1 = _amount(E, "amt1", k1, n)
    a2, f2 = _amount(E, "amt2", k2, n)
    got = _rotate_two_axis(x, rot_amount1=a1, rot_amount2=a2, rot_axis1=ax1, rot_axis2=ax2)
    nr, nv = _shapes(E, [k1, k2], got, n, m, sk)
    n0 = E.shape(got)[0]

    def ok(r, v):
        want = _rot(E, ax2, f2(r), _rot(E, ax1, f1(r), [at(r, k, v) for k in range(3)]))
        return E.And(*[_eq(E, E.at(got, E.ite(n0 == 1, 0, r), k, v), want[k]) for k in range(3)])

    E.ensure("shape", E.Or(n0 == nr, n0 == 1))
    E.ensure("rotated", E.forall((nr, nv), ok))
    E.ensure("vectors", E.And(E.shape(got)[1] == 3, E.shape(got)[2] == nv))
    E.ensure("input unchanged", E.same_array(old, x))


def _ang(E, name, n):
    a = E.array(name, (n,), "f")
    if E.mode == "conc":
        a[...] = E.np_rng.uniform(-1.5, 1.5, size=n)
        if E.rng.random() < 0.3:
            a[...] = a[0]
    return a


def _minus(E, a, b):
    """a - b, with the addition formulas of its sine and cosine as facts."""
    d = a - b
    if E.mode == "sym":
        from pvc import core

        sa, ca = _sc(E, a)
        sb, cb = _sc(E, b)
        sd, cd = _sc(E, d)
        t = core.r_term
        core.ctx().side(t(sd) == t(sa) * t(cb) - t(ca) * t(sb))
        core.ctx().side(t(cd) == t(ca) * t(cb) + t(sa) * t(sb))
    return d


@contract("C07", funcs=[P + "calc_uvw", P + "_rotate_two_axis", P + "_rotate_one_axis", P + "_rotate_matmul_wrapper"], cases=400, timeout=300, qtimeout=20)
def uvw_between_directions(E):
    """Without antenna positions: every baseline vector is rotated from its own old direction and position angle to its own new ones."""
    from pyuvdata.utils.phasing import calc_uvw

    how = E.choice("how", ["projected", "from ENU", "to ENU", "same direction", "both ENU"])
    n = E.dim("n", 2, 5)
    uvw = E.array("uvw", (n, 3), "f")
    ra0, dec0, pa0, ra1, dec1, pa1, lst = (_ang(E, x, n) for x in ("ra0", "dec0", "pa0", "ra1", "dec1", "pa1", "lst"))
    lat, lon = E.real("lat"), E.real("lon")
    if how == "same direction":
        ra1, dec1 = ra0, dec0
    keep = [(x, E.old(x)) for x in (uvw, ra0, dec0, pa0, ra1, dec1, pa1, lst)]
    kw = dict(use_ant_pos=False, uvw_array=uvw, lst_array=lst, telescope_lat=lat, telescope_lon=lon)
    if how in ("projected", "same direction"):
        got = calc_uvw(app_ra=ra1, app_dec=dec1, frame_pa=pa1, old_app_ra=ra0, old_app_dec=dec0, old_frame_pa=pa0, **kw)
    elif how == "from ENU":
        got = calc_uvw(app_ra=ra1, app_dec=dec1, frame_pa=pa1, from_enu=True, **kw)
    elif how == "to ENU":
        got = calc_uvw(old_app_ra=ra0, old_app_dec=dec0, old_frame_pa=pa0, to_enu=True, **kw)
    else:
        got = calc_uvw(from_enu=True, to_enu=True, **kw)
    E.ensure("shape", E.And(E.shape(got)[0] == n, E.shape(got)[1] == 3))
    o = dict(zip(["uvw", "ra0", "dec0", "pa0", "ra1", "dec1", "pa1", "lst"], [k[1] for k in keep]))

    def ok(i):
        g = {k: (E.at(v, i) if k != "uvw" else None) for k, v in o.items()}
        v0 = v = [E.at(o["uvw"], i, q) for q in (2, 0, 1)]
        if how == "same direction":
            v = _rot(E, 0, _minus(E, g["pa1"], g["pa0"]), v)
        elif how != "both ENU":
            a, d, p = (g["lst"], lat, 0.0) if how == "from ENU" else (g["ra0"], g["dec0"], g["pa0"])
            b, e, r = (g["lst"], lat, 0.0) if how == "to ENU" else (g["ra1"], g["dec1"], g["pa1"])
            v = _rot(E, 1, -d, _rot(E, 0, -p, v))
            v = _rot(E, 0, r, _rot(E, 1, e, _rot(E, 2, a - b, v)))
        eq = lambda v: E.And(*[_eq(E, E.at(got, i, q), v[(q + 1) % 3]) for q in range(3)])
        if how == "projected":  # the two forms agree when the direction does not change (lemma in uvw_lemmas)
            return E.Or(eq(v), E.And(a == b, d == e, eq(_rot(E, 0, r - p, v0))))
        return eq(v)

    E.ensure("rotated from the old to the new direction", E.forall((n,), ok))
    for x, y in keep:
        E.ensure("input unchanged", E.same_array(y, x))


@contract("C07", funcs=[P + "calc_uvw", P + "_rotate_two_axis", P + "_rotate_one_axis", P + "_rotate_matmul_wrapper"], cases=1, sym_only=True, timeout=300, qtimeout=30)
def uvw_lemmas(E):
    """Lemmas over the definition above: lengths are kept, and going to another direction and back is the identity."""
    uvw = [E.real(f"v{k}") for k in range(3)]
    ra0, dec0, pa0, ra1, dec1, pa1 = (E.real(x) for x in ("ra0", "dec0", "pa0", "ra1", "dec1", "pa1"))

    def move(a, d, p, b, e, r, v):
        v = _rot(E, 1, -d, _rot(E, 0, -p, v))
        return _rot(E, 0, r, _rot(E, 1, e, _rot(E, 2, a - b, v)))

    q = [E.real(f"q{k}") for k in range(3)]
    for ax, ang in ((0, pa0), (1, dec0), (2, ra0 - ra1)):
        w = _rot(E, ax, ang, q)
        E.ensure("one rotation keeps lengths", sum(x * x for x in w) == sum(x * x for x in q))
        back = _rot(E, ax, -ang, w)
        E.ensure("one rotation is undone by its opposite", E.And(*[x == y for x, y in zip(back, q)]))
    E.ensure("same direction: the rotations to and from it cancel", E.And(*[x == y for x, y in zip(_rot(E, 1, dec0, _rot(E, 2, ra0 - ra0, _rot(E, 1, -dec0, q))), q)]))
    for x, y in zip(_rot(E, 0, pa1, _rot(E, 0, -pa0, q)), _rot(E, 0, _minus(E, pa1, pa0), q)):
        E.ensure("same direction: only the position angle turns", x == y)
    E.ensure("opposite right ascension difference", E.And(*[x == y for x, y in zip(_rot(E, 2, ra1 - ra0, q), _rot(E, 2, -(ra0 - ra1), q))]))


@contract("C07", funcs=[P + "calc_uvw", P + "_rotate_two_axis", P + "_rotate_one_axis", P + "_rotate_matmul_wrapper"], cases=600, mode="bounded")
def uvw_from_antennas(E):
    """With antenna positions: every baseline vector is the difference of its two antennas projected on its own direction, in its own frame angle."""
    from pyuvdata.utils.phasing import calc_uvw

    n = E.dim("n", 2, 6)
    k = E.dim("nants", 1, 4)
    num = E.array("nums", (k,), "i", lo=0, hi=40, distinct=True)
    pos = E.array("pos", (k, 3), "f")
    enu = E.choice("to_enu", [False, True])
    pa = None if enu else E.choice("pa", [True, False])
    ra, dec, fpa, lst = (_ang(E, x, n) for x in ("ra", "dec", "pa", "lst"))
    lat, lon = E.real("lat"), E.real("lon")
    i1, i2 = E.array("i1", (n,), "i", lo=0, hi=k - 1), E.array("i2", (n,), "i", lo=0, hi=k - 1)
    a1, a2 = num[i1], num[i2]
    oi1, oi2, opos = E.old(i1), E.old(i2), E.old(pos)
    kw = dict(lst_array=lst, use_ant_pos=True, antenna_positions=pos, antenna_numbers=num, ant_1_array=a1, ant_2_array=a2, telescope_lat=lat, telescope_lon=lon)
    if enu:
        got = calc_uvw(to_enu=True, **kw)
    else:
        got = calc_uvw(app_ra=ra, app_dec=dec, frame_pa=fpa if pa else None, **kw)
    E.ensure("shape", E.And(E.shape(got)[0] == n, E.shape(got)[1] == 3))

    def ok(i):
        b = [E.at(opos, E.at(oi2, i), q) - E.at(opos, E.at(oi1, i), q) for q in range(3)]
        if enu:
            v = _rot(E, 1, lat, _rot(E, 2, 0.0 - lon, b))
        else:
            v = _rot(E, 1, E.at(dec, i), _rot(E, 2, E.at(lst, i) - E.at(ra, i) - lon, b))
            if pa:
                v = _rot(E, 0, E.at(fpa, i), v)
        return E.And(*[_eq(E, E.at(got, i, q), v[(q + 1) % 3]) for q in range(3)])

    E.ensure("projected on its own direction", E.forall((n,), ok))
    E.ensure("input unchanged", E.same_array(opos, pos))


@contract("C07", funcs=[K + "_old_uvw_calc", K + "_undo_old_uvw_calc", P + "old_uvw_calc", P + "undo_old_uvw_calc"], cases=100)
def old_uvw(E):
    """The older projection is the rotation to the direction, and its inverse undoes it for every vector."""
    from pyuvdata.utils.phasing import old_uvw_calc, undo_old_uvw_calc

    n = E.dim("n", 1, 5)
    x = E.array("xyz", (n, 3), "f")
    ra, dec = E.real("ra"), E.real("dec")
    o = E.old(x)
    sr, cr = _sc(E, ra)
    sd, cd = _sc(E, dec)
    at = lambda a, i: [E.at(a, i, k) for k in range(3)]
    got = old_uvw_calc(ra, dec, x)

    def d(i):
        X, Y, Z = at(o, i)
        want = (cr * Y - sr * X, cd * Z - sd * (cr * X + sr * Y), cd * (cr * X + sr * Y) + sd * Z)
        return E.And(*[_eq(E, p, q) for p, q in zip(at(got, i), want)])

    E.ensure("definition", E.forall((n,), d))
    back = undo_old_uvw_calc(ra, dec, got)
    E.ensure("undone", E.forall((n,), lambda i: E.And(*[_eq(E, p, q) for p, q in zip(at(back, i), at(o, i))])))
    fwd = old_uvw_calc(ra, dec, undo_old_uvw_calc(ra, dec, x))
    E.ensure("inverse both ways", E.forall((n,), lambda i: E.And(*[_eq(E, p, q) for p, q in zip(at(fwd, i), at(o, i))])))
    E.ensure("input unchanged", E.same_array(o, x))


@contract("C07", funcs=[P + "polar2_to_cart3", P + "cart3_to_polar2"], cases=150)
def polar(E):
    """Unit vectors and angles: definition and inverse, for every direction."""
    from pyuvdata.utils.phasing import cart3_to_polar2, polar2_to_cart3

    n = E.dim("n", 1, 5)
    lon, lat = E.array("lon", (n,), "f"), E.array("lat", (n,), "f")
    if E.mode == "conc":
        lon[...] = E.np_rng.uniform(-7, 7, size=n)
        lat[...] = E.np_rng.choice([0.3, -1.2, 1.5707, 0.0, -1.57], size=n)
    ol, oa = E.old(lon), E.old(lat)
    xyz = polar2_to_cart3(lon_array=lon, lat_array=lat)
    E.ensure("shape", E.And(E.shape(xyz)[0] == 3, E.shape(xyz)[1] == n))

    def d(i):
        so, co = _sc(E, E.at(ol, i))
        sa, ca = _sc(E, E.at(oa, i))
        return E.And(*[_eq(E, E.at(xyz, k, i), w) for k, w in enumerate((co * ca, so * ca, sa))])

    E.ensure("definition", E.forall((n,), d))
    E.ensure("input unchanged", E.And(E.same_array(ol, lon), E.same_array(oa, lat)))
    if E.mode == "conc":
        lo2, la2 = cart3_to_polar2(xyz)
        E.ensure("latitude back", bool(np.allclose(la2, oa, rtol=0, atol=1e-12)))
        E.ensure("longitude back", bool(np.allclose(np.exp(1j * lo2), np.exp(1j * ol), rtol=0, atol=1e-9)) and bool(np.all((lo2 >= 0) & (lo2 <= 2 * np.pi))))


@contract("C07", funcs=[P + "cart3_to_polar2"], cases=150)
def polar_inverse(E):
    """Direction angles of every vector: its components are the length times the trigonometric functions of the angles."""
    from pyuvdata.utils.phasing import cart3_to_polar2

    n = E.dim("n", 1, 5)
    x = E.array("xyz", (3, n), "f")
    o = E.old(x)
    lon, lat = cart3_to_polar2(x)

    def ok(i):
        v = [E.at(o, k, i) for k in range(3)]
        sa, ca = _sc(E, E.at(lat, i))
        if E.mode == "sym":
            from pvc import core

            r2 = v[0] * v[0] + v[1] * v[1]
            rho = core.ssqrt(r2)
            r = core.ssqrt(rho * rho + v[2] * v[2])
            return E.And(r * sa == v[2], r * ca == rho)
        r = np.sqrt(sum(q * q for q in v))
        lo = lon[i]
        return bool(abs(r * sa - v[2]) < 1e-9 * (1 + r) and abs(r * ca * np.cos(lo) - v[0]) < 1e-9 * (1 + r) and abs(r * ca * np.sin(lo) - v[1]) < 1e-9 * (1 + r) and 0 <= lo <= 2 * np.pi)

    E.ensure("angles", E.forall((n,), ok))
    E.ensure("input unchanged", E.same_array(o, x))


def _phase_factor(E, dw, f):
    """exp(-2 pi i dw f / c) as (re, im)."""
    x = (2 * np.pi / CVEL) * dw * f
    s, c = _sc(E, x)
    return c, -s


def _same_c(E, got, old, re, im):
    """got == old * (re + i im)."""
    if E.mode == "sym":
        return E.And(got.re == old.re * re - old.im * im, got.im == old.re * im + old.im * re)
    return bool(abs(got - old * (re + 1j * im)) <= 1e-6 * (1 + abs(old)))


def _data_moved(E, uv, old, D, sel, dw):
    """Exactly the selected records are multiplied by the phase of their own path difference."""
    def ok(i, f, p):
        got, was = E.at(uv.data_array, i, f, p), E.at(old["data_array"], i, f, p)
        re, im = _phase_factor(E, dw(i), E.at(old["freq_array"], f))
        return E.And(
            E.Implies(sel(i), _same_c(E, got, was, re, im)), E.Implies(E.Not(sel(i)), E.same(got, was)))

    E.ensure_all("visibilities turned by their own phase only", [D["blt"], D["freq"], D["pol"]], ok)
    if E.mode == "sym":  # amplitude: consequence of the factor being a pure phase
        re, im = _phase_factor(E, E.real("dw!"), E.real("f!"))
        E.ensure("pure phase", re * re + im * im == 1)


def _untouched(E, uv, old, skip):
    for a in old:
        if a in skip:
            continue
        new = getattr(uv.telescope, a[4:]) if a.startswith("tel.") else getattr(uv, a)
        E.ensure(f"{a} untouched", E.same_array(new, old[a]))


@contract("C07", funcs=[D + "_apply_w_proj"], cases=200, timeout=200)
def w_proj(E):
    """Each selected record is multiplied by the pure phase of its own change of w at each frequency; nothing else changes."""
    uv, dd = objs.make_uvdata(E)
    n = dd["blt"]
    old = objs.snap_uvdata(E, uv)
    form = E.choice("w", ["arrays", "new zero", "old zero"])
    neww = 0.0 if form == "new zero" else E.array("neww", (n,), "f")
    oldw = 0.0 if form == "old zero" else E.array("oldw", (n,), "f")
    kn, ko = (E.old(x) if hasattr(x, "shape") else x for x in (neww, oldw))
    at = lambda x, i: E.at(x, i) if hasattr(x, "shape") else x
    s = E.choice("sel", ["none", "mask", "index"])
    if s == "none":
        mask, sel = None, lambda i: True
    elif s == "mask":
        mask = E.array("mask", (n,), "b")
        sel = lambda i: E.at(mask, i)
    else:
        m = E.dim("m", 1, 3)
        mask = E.array("inds", (m,), "i", lo=0, hi=n - 1)
        sel = lambda i: E.member(mask, i)
    uv._apply_w_proj(new_w_vals=neww, old_w_vals=oldw, select_mask=mask)
    _data_moved(E, uv, old, dd, sel, lambda i: at(kn, i) - at(ko, i))
    _untouched(E, uv, old, ("data_array",))
    for a, b in ((neww, kn), (oldw, ko)):
        if hasattr(a, "shape"):
            E.ensure("w values untouched", E.same_array(a, b))


class _Callees:
    """phase/unproject are checked against the contracts of their callees: each result of calc_app_coords, calc_frame_pos_angle and
    calc_uvw is a function of that record's own inputs (pointwise; calc_uvw's definition is proved above)."""

    def __init__(self, E):
        from pyuvdata.utils import phasing

        self.E, self.ph = E, phasing
        self.real = {k: getattr(phasing, k) for k in ("calc_app_coords", "calc_frame_pos_angle", "calc_uvw")}

    def uf(self, name, *args):
        from pvc import core

        ts = [core.r_term(a) for a in args]
        return core.SReal(core.ufun(name, *([core.R] * (len(ts) + 1)))(*ts))

    def coords(self, i, time, lst, key):
        return [self.uf(f"app_{q}_{key}", time(i), lst(i)) for q in ("ra", "dec")]

    def uvw(self, i, k, ant, enu, cols):
        """cols: per-record inputs by name (missing = not given)."""
        names = (["ant_1_array", "ant_2_array"] + ([] if enu else ["app_ra", "app_dec", "frame_pa", "lst_array"])) if ant else (
            ["u0", "u1", "u2", "old_app_ra", "old_app_dec", "old_frame_pa"] + (["lst_array"] if enu else ["app_ra", "app_dec", "frame_pa"]))
        return self.uf(f"uvw_{k}_{ant}_{enu}", *[cols[x] for x in names])

    def __enter__(self):
        if self.E.mode != "sym":
            return self
        from pvc.sarr import SArr, lift

        def calc_app_coords(*, lon_coord, lat_coord, time_array, lst_array, **k):
            t, l = lift(time_array).snapshot(), lift(lst_array).snapshot()
            key = _ckey(lon_coord, lat_coord, k)
            return tuple(SArr(time_array.shape, "f", (lambda q: lambda i: self.coords(i, t, l, key)[q])(q)) for q in (0, 1))

        def calc_frame_pos_angle(*, time_array, app_ra, app_dec, ref_frame=None, ref_epoch=None, **k):
            t, a, d = (lift(x).snapshot() for x in (time_array, app_ra, app_dec))
            return SArr(time_array.shape, "f", lambda i: self.uf(f"pa_{ref_frame}_{ref_epoch}", t(i), a(i), d(i)))

        def calc_uvw(*, use_ant_pos=True, to_enu=False, from_enu=False, uvw_array=None, **k):
            assert not from_enu
            cols = {x: lift(v).snapshot() for x, v in k.items() if x in ("app_ra", "app_dec", "frame_pa", "lst_array", "ant_1_array", "ant_2_array", "old_app_ra", "old_app_dec", "old_frame_pa") and v is not None}
            u = lift(uvw_array).snapshot() if uvw_array is not None else None

            def fn(i, q):
                c = {x: f(i) for x, f in cols.items()}
                if u is not None:
                    c.update({f"u{j}": u(i, j) for j in range(3)})
                return self.ite_k(q, [self.uvw(i, j, bool(use_ant_pos), bool(to_enu), c) for j in range(3)])

            n = (k["lst_array"] if use_ant_pos else uvw_array).shape[0]
            return SArr((n, 3), "f", fn)

        for f in (calc_app_coords, calc_frame_pos_angle, calc_uvw):
            setattr(self.ph, f.__name__, f)
        self.E.stub("calc_app_coords, calc_frame_pos_angle and calc_uvw answer each record from that record's own inputs (calc_uvw: proved above; the other two: assumed, executed in the bounded contracts)")
        return self

    def ite_k(self, q, vals):
        from pvc import core

        if not core.is_sym(q):
            return vals[q]
        return core.ite(core.num_bin("eq", q, 0), vals[0], core.ite(core.num_bin("eq", q, 1), vals[1], vals[2]))

    def __exit__(self, *a):
        for k, v in self.real.items():
            setattr(self.ph, k, v)


def _ckey(lon, lat, k):
    return "_".join(str(x) for x in (lon, lat, k.get("coord_frame"), k.get("coord_epoch"), k.get("coord_type"), k.get("pm_ra"), k.get("pm_dec"), k.get("vrad"), k.get("dist")))


TYPES = [["sidereal", "unprojected"], ["sidereal", "sidereal"]]
CARG = dict(cat_name="target", lon=1.5, lat=-0.25, pm_ra=2.0, pm_dec=3.0, vrad=40.0, dist=50.0)


def _obj(E):
    uv, dd = objs.make_uvdata(E, npc=2, eq_coeffs=False, scan=False)
    for k, t in enumerate(E.choice("types", TYPES)):
        uv.phase_center_catalog[k].update(cat_type=t)
        if t == "unprojected":
            uv.phase_center_catalog[k].update(cat_lon=None, cat_lat=None, cat_frame=None, cat_epoch=None)
    if E.mode == "conc":
        uv.time_array = 2457000.0 + np.round(E.np_rng.uniform(0, 300, size=uv.Nblts), E.rng.choice([0, 4]))
        uv.set_lsts_from_time_array()
        for a, lo, hi in (("phase_center_app_ra", 0.1, 6), ("phase_center_app_dec", -1.4, 1.4), ("phase_center_frame_pa", -1, 1)):
            setattr(uv, a, E.np_rng.uniform(lo, hi, size=uv.Nblts))
    un = [k for k, e in uv.phase_center_catalog.items() if e["cat_type"] == "unprojected"]
    if E.mode == "conc":
        for k in un:
            s = uv.phase_center_id_array == k
            uv.phase_center_app_ra[s] = uv.lst_array[s]
            uv.phase_center_app_dec[s] = uv.telescope.location.lat.rad
            uv.phase_center_frame_pa[s] = 0.0
    ids = E.old(uv.phase_center_id_array)
    return uv, dd, (lambda i: E.Or(False, *[E.at(ids, i) == k for k in un]))


def _mask(E, n):
    if E.choice("sel", ["all", "mask"]) == "all":
        return None, lambda i: True
    m = E.array("mask", (n,), "b")
    o = E.old(m)
    return m, lambda i: E.at(o, i)


def _direct(E, cal, uv, old, ant, enu, ra, dec, pa):
    """calc_uvw of every record's own inputs (new direction ra, dec, pa: per-record functions)."""
    if E.mode == "sym":
        def w(i, q):
            c = {x: E.at(old[x], i) for x in ("lst_array", "ant_1_array", "ant_2_array")}
            c.update(old_app_ra=E.at(old["phase_center_app_ra"], i), old_app_dec=E.at(old["phase_center_app_dec"], i), old_frame_pa=E.at(old["phase_center_frame_pa"], i))
            c.update({f"u{j}": E.at(old["uvw_array"], i, j) for j in range(3)})
            if not enu:
                c.update(app_ra=ra(i), app_dec=dec(i), frame_pa=pa(i))
            return cal.uvw(i, q, ant, enu, c)

        return w
    n = len(old["lst_array"])
    new = {} if enu else {k: np.array([f(i) for i in range(n)]) for k, f in (("app_ra", ra), ("app_dec", dec), ("frame_pa", pa))}
    t = uv.telescope
    r = cal.real["calc_uvw"](
        use_ant_pos=ant, to_enu=enu, uvw_array=old["uvw_array"], lst_array=old["lst_array"], antenna_positions=t.antenna_positions, antenna_numbers=t.antenna_numbers,
        ant_1_array=old["ant_1_array"], ant_2_array=old["ant_2_array"], old_app_ra=old["phase_center_app_ra"], old_app_dec=old["phase_center_app_dec"],
        old_frame_pa=old["phase_center_frame_pa"], telescope_lat=t.location.lat.rad, telescope_lon=t.location.lon.rad, **new)
    return lambda i, q: r[i, q]


def _close_u(E, x, y):
    return E.same(x, y) if E.mode == "sym" else bool(abs(x - y) < 1e-6 * (1 + abs(y)))


@contract("C07", funcs=[D + "phase", D + "_phase_dict_helper", D + "_apply_w_proj"], cases=150, timeout=400, qtimeout=15)
def phase_records(E):
    """Exactly the selected records get the new direction, the baseline vectors that follow from it and the matching phase; everything else stays."""
    import warnings

    uv, dd, unproj = _obj(E)
    n = dd["blt"]
    mask, sel = _mask(E, n)
    if E.mode == "conc" and mask is not None:
        E.assume(bool(mask.any()))
    ant = E.choice("ant", [True, False])
    old = objs.snap_uvdata(E, uv)
    oldc = {k: dict(v) for k, v in uv.phase_center_catalog.items()}
    with _Callees(E) as cal, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uv.phase(use_ant_pos=ant, select_mask=mask, cleanup_old_sources=False, **CARG)
        key = _ckey(1.5, -0.25, dict(coord_frame="icrs", coord_epoch=2000.0, coord_type="sidereal", pm_ra=2.0, pm_dec=3.0, vrad=40.0, dist=50.0))
        if E.mode == "sym":
            t, l = (lambda i: E.at(old["time_array"], i)), (lambda i: E.at(old["lst_array"], i))
            ra = lambda i: cal.coords(i, t, l, key)[0]
            dec = lambda i: cal.coords(i, t, l, key)[1]
            pa = lambda i: cal.uf("pa_icrs_2000.0", t(i), ra(i), dec(i))
        else:
            r, d = cal.real["calc_app_coords"](lon_coord=1.5, lat_coord=-0.25, coord_frame="icrs", coord_epoch=2000.0, coord_type="sidereal", pm_ra=2.0, pm_dec=3.0, vrad=40.0, dist=50.0,
                                               time_array=old["time_array"], lst_array=old["lst_array"], telescope_loc=uv.telescope.location)
            p = cal.real["calc_frame_pos_angle"](time_array=old["time_array"], app_ra=r, app_dec=d, telescope_loc=uv.telescope.location, ref_frame="icrs", ref_epoch=2000.0)
            ra, dec, pa = (lambda i: r[i]), (lambda i: d[i]), (lambda i: p[i])
        w = _direct(E, cal, uv, old, ant, False, ra, dec, pa)
    for a, f in (("phase_center_app_ra", ra), ("phase_center_app_dec", dec), ("phase_center_frame_pa", pa)):
        E.ensure_all(a, [n], lambda i: E.And(E.Implies(sel(i), _close_u(E, E.at(getattr(uv, a), i), f(i))), E.Implies(E.Not(sel(i)), E.same(E.at(getattr(uv, a), i), E.at(old[a], i)))))
    for q in range(3):
        E.ensure_all("baseline vectors", [n], lambda i: E.And(E.Implies(sel(i), _close_u(E, E.at(uv.uvw_array, i, q), w(i, q))), E.Implies(E.Not(sel(i)), E.same(E.at(uv.uvw_array, i, q), E.at(old["uvw_array"], i, q)))))
    _data_moved(E, uv, old, dd, sel, lambda i: w(i, 2) - E.ite(unproj(i), 0.0, E.at(old["uvw_array"], i, 2)))
    new = [k for k, e in uv.phase_center_catalog.items() if e["cat_name"] == "target"]
    E.ensure("one new entry describes the direction", len(new) == 1 and all(uv.phase_center_catalog[new[0]][k] == v for k, v in
             dict(cat_type="sidereal", cat_lon=1.5, cat_lat=-0.25, cat_frame="icrs", cat_epoch=2000.0, cat_pm_ra=2.0, cat_pm_dec=3.0, cat_vrad=40.0, cat_dist=50.0).items()))
    E.ensure("other entries stay", all(uv.phase_center_catalog[k] == v for k, v in oldc.items()))
    E.ensure_all("selected records point at it, the others stay", [n], lambda i: E.at(uv.phase_center_id_array, i) == E.ite(sel(i), new[0] if new else -1, E.at(old["phase_center_id_array"], i)))
    _untouched(E, uv, old, ("data_array", "uvw_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array"))


@contract("C07", funcs=[D + "unproject_phase", D + "_apply_w_proj", D + "_check_for_cat_type"], cases=150, timeout=400, qtimeout=15)
def unproject_records(E):
    """Exactly the selected projected records lose their phase and get local baseline vectors; everything else stays."""
    import warnings

    uv, dd, unproj = _obj(E)
    n = dd["blt"]
    mask, msel = _mask(E, n)
    sel = lambda i: E.And(msel(i), E.Not(unproj(i)))
    ant = E.choice("ant", [True, False])
    old = objs.snap_uvdata(E, uv)
    with _Callees(E) as cal, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uv.unproject_phase(use_ant_pos=ant, select_mask=mask)
        w = _direct(E, cal, uv, old, ant, True, None, None, None)
    lat = uv.telescope.location.lat.rad
    for a, f in (("phase_center_app_ra", lambda i: E.at(old["lst_array"], i)), ("phase_center_app_dec", lambda i: lat), ("phase_center_frame_pa", lambda i: 0.0)):
        E.ensure_all(a, [n], lambda i: E.And(E.Implies(sel(i), E.same(E.at(getattr(uv, a), i), f(i))), E.Implies(E.Not(sel(i)), E.same(E.at(getattr(uv, a), i), E.at(old[a], i)))))
    for q in range(3):
        E.ensure_all("baseline vectors", [n], lambda i: E.And(E.Implies(sel(i), _close_u(E, E.at(uv.uvw_array, i, q), w(i, q))), E.Implies(E.Not(sel(i)), E.same(E.at(uv.uvw_array, i, q), E.at(old["uvw_array"], i, q)))))
    _data_moved(E, uv, old, dd, sel, lambda i: 0.0 - E.at(old["uvw_array"], i, 2))
    un = [k for k, e in uv.phase_center_catalog.items() if e["cat_type"] == "unprojected"]
    E.ensure_all("selected records point at an unprojected entry", [n], lambda i: E.Implies(sel(i), E.Or(False, *[E.at(uv.phase_center_id_array, i) == k for k in un])))
    E.ensure_all("the others stay", [n], lambda i: E.Implies(E.Not(sel(i)), E.at(uv.phase_center_id_array, i) == E.at(old["phase_center_id_array"], i)))
    _untouched(E, uv, old, ("data_array", "uvw_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array"))


@contract("C07", funcs=[D + "set_uvws_from_antenna_positions", D + "_apply_w_proj"], cases=150, timeout=300, qtimeout=15)
def set_uvws_records(E):
    """Every baseline vector becomes the projected antenna separation, and the data of projected records turn by the matching phase."""
    import warnings

    uv, dd, unproj = _obj(E)
    n = dd["blt"]
    upd = E.choice("update", [True, False])
    old = objs.snap_uvdata(E, uv)
    with _Callees(E) as cal, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uv.set_uvws_from_antenna_positions(update_vis=upd)
        w = _direct(E, cal, uv, old, True, False, *[(lambda a: lambda i: E.at(old[a], i))(a) for a in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa")])
    for q in range(3):
        E.ensure_all("baseline vectors", [n], lambda i: _close_u(E, E.at(uv.uvw_array, i, q), w(i, q)))
    _data_moved(E, uv, old, dd, (lambda i: E.Not(unproj(i))) if upd else (lambda i: False), lambda i: w(i, 2) - E.at(old["uvw_array"], i, 2))
    _untouched(E, uv, old, ("data_array", "uvw_array"))


def _project(uv):
    """Antenna separations of every record projected on its recorded apparent direction and frame angle (textbook formulas)."""
    t = uv.telescope
    pos = {int(a): p for a, p in zip(t.antenna_numbers, t.antenna_positions)}
    out = np.zeros((uv.Nblts, 3))
    un = np.array([uv.phase_center_catalog[k]["cat_type"] == "unprojected" for k in uv.phase_center_id_array])
    lat, lon = t.location.lat.rad, t.location.lon.rad
    for i in range(uv.Nblts):
        b = pos[int(uv.ant_2_array[i])] - pos[int(uv.ant_1_array[i])]
        h, d, p = (-lon, lat, 0.0) if un[i] else (uv.lst_array[i] - uv.phase_center_app_ra[i] - lon, uv.phase_center_app_dec[i], uv.phase_center_frame_pa[i])
        u = np.sin(h) * b[0] + np.cos(h) * b[1]
        v = -np.sin(d) * (np.cos(h) * b[0] - np.sin(h) * b[1]) + np.cos(d) * b[2]
        w = np.cos(d) * (np.cos(h) * b[0] - np.sin(h) * b[1]) + np.sin(d) * b[2]
        out[i] = (np.cos(p) * u - np.sin(p) * v, np.sin(p) * u + np.cos(p) * v, w)
    return out, un


def _astropy_dirs(uv):
    """East, north, up unit vectors of each record's catalog direction, from astropy's transformation to altitude and azimuth."""
    import astropy.units as un
    from astropy.coordinates import AltAz, SkyCoord
    from astropy.time import Time

    out = np.full((uv.Nblts, 3), np.nan)
    for k, e in uv.phase_center_catalog.items():
        s = np.nonzero(uv.phase_center_id_array == k)[0]
        if not len(s) or e["cat_type"] != "sidereal":
            continue
        t = Time(uv.time_array[s], format="jd", scale="utc")
        fr = {"fk5": dict(frame="fk5", equinox="J2000"), "fk4": dict(frame="fk4", equinox="B1950"), "galactic": dict(frame="galactic"), "icrs": dict(frame="icrs")}[e["cat_frame"]]
        kw = {}
        if e["cat_pm_ra"] is not None:
            kw = dict(pm_ra_cosdec=e["cat_pm_ra"] * np.cos(e["cat_lat"]) * un.mas / un.yr, pm_dec=e["cat_pm_dec"] * un.mas / un.yr, distance=e["cat_dist"] * un.pc, radial_velocity=e["cat_vrad"] * un.km / un.s, obstime=Time(e["cat_epoch"], format="jyear"))
        c = SkyCoord(*((e["cat_lon"] * un.rad, e["cat_lat"] * un.rad)), **fr, **kw)
        for j, tt in zip(s, t):
            cc = c.apply_space_motion(new_obstime=tt) if kw else c
            aa = cc.transform_to(AltAz(obstime=tt, location=uv.telescope.location, pressure=0 * un.hPa))
            al, az = aa.alt.rad, aa.az.rad
            out[j] = (np.cos(al) * np.sin(az), np.cos(al) * np.cos(az), np.sin(al))
    return out


def _recorded_dirs(uv):
    """East, north, up unit vectors from the recorded apparent coordinates."""
    lat = uv.telescope.location.lat.rad
    h, d = uv.lst_array - uv.phase_center_app_ra, uv.phase_center_app_dec
    return np.stack([-np.cos(d) * np.sin(h), np.cos(lat) * np.sin(d) - np.sin(lat) * np.cos(d) * np.cos(h), np.sin(lat) * np.sin(d) + np.cos(lat) * np.cos(d) * np.cos(h)], axis=1)


@contract("C07", funcs=[D + "phase", D + "unproject_phase", D + "set_uvws_from_antenna_positions", D + "_phase_dict_helper", D + "_set_app_coords_helper", D + "phase_to_time", P + "calc_uvw", P + "calc_app_coords",
                        P + "calc_frame_pos_angle", P + "transform_icrs_to_app", P + "transform_app_to_icrs", P + "transform_sidereal_coords", P + "interpolate_ephem"], mode="bounded", cases=60)
def histories(E):
    """Sequences of up to six phase-center changes on arbitrary records, against the visibilities without any projection."""
    import warnings

    warnings.simplefilter("ignore")
    r = E.rng
    uv = gen.uvdata(E, npc=2, maxtimes=3)
    step = r.choice([1, 60, 360, 20000])
    uv.time_array = gen.JD0 + (uv.time_array - gen.JD0) * step
    uv.integration_time[:] = 10.0
    uv.set_lsts_from_time_array()
    uv._set_app_coords_helper()
    uv.set_uvws_from_antenna_positions(update_vis=False)
    lam = lambda o: o.uvw_array[:, 2][:, None] * o.freq_array[None] / CVEL
    p0, un0 = _project(uv)
    base = uv.data_array * np.exp(2j * np.pi * np.where(un0[:, None], 0, lam(uv)))[:, :, None]
    bare = gen.snap(uv)
    enu = uv.copy()
    enu.unproject_phase()
    E.ensure("unprojecting removes the whole phase", bool(np.allclose(enu.data_array, base, atol=1e-6)))
    targets = ["a", "b", "c", "d"]
    for step_no in range(r.choice([2, 4, 6])):
        op = r.choice(["phase", "phase", "phase", "back", "unproject", "uvws", "lookup", "drift", "ephem", "pole", "to_time"])
        n = uv.Nblts
        m = None
        if r.random() < 0.5:
            m = np.array([r.random() < 0.5 for _ in range(n)])
            m[r.randrange(n)] = True
        ant = r.random() < 0.5
        before = uv.copy()
        sel = np.ones(n, bool) if m is None else m.copy()
        kw = dict(select_mask=m, use_ant_pos=ant)
        if op == "unproject":
            uv.unproject_phase(**kw)
        elif op == "uvws":
            uv.set_uvws_from_antenna_positions(update_vis=True)
            sel = np.ones(n, bool)
        elif op == "to_time":
            from astropy.time import Time

            uv.phase_to_time(Time(float(uv.time_array[0]), format="jd"), **kw)
        else:
            nm = f"{r.choice(targets)}{step_no}"
            lon, lat = r.uniform(0, 6.28), r.uniform(-1.5, 1.2)
            kw["cleanup_old_sources"] = r.random() < 0.6
            if op == "lookup":
                known = [e["cat_name"] for e in uv.phase_center_catalog.values() if e["cat_type"] == "sidereal"]
                if not known:
                    continue
                kw.update(cat_name=r.choice(known), lookup_name=True, lon=0.0, lat=0.0)
            elif op == "drift":
                kw.update(cat_name=nm, cat_type="driftscan", lon=r.uniform(0, 6.28), lat=r.uniform(0.2, 1.5), phase_frame="altaz")
            elif op == "ephem":
                k = r.choice([2, 4])
                t = np.linspace(uv.time_array.min() - 0.1, uv.time_array.max() + 0.1, k)
                kw.update(cat_name=nm, cat_type="ephem", lon=lon + 1e-3 * np.arange(k), lat=np.clip(lat + 1e-3 * np.arange(k), -1.5, 1.5), ephem_times=t)
            elif op == "pole":
                kw.update(cat_name=nm, lon=lon, lat=r.choice([1, -1]) * np.radians(90 - r.choice([0.01, 0.2, 0.4, 1.0])))
            else:
                frame = r.choice(["icrs", "icrs", "fk5", "fk4", "galactic"])
                kw.update(cat_name=nm, lon=lon, lat=lat, phase_frame=frame, epoch=1950.0 if frame == "fk4" else 2000.0)
                if frame == "icrs" and r.random() < 0.4:
                    kw.update(pm_ra=r.uniform(-900, 900), pm_dec=r.uniform(-9000, 9000), dist=r.uniform(1.5, 20), vrad=r.uniform(-3000, 20000))
            dup = [e["cat_name"] for e in uv.phase_center_catalog.values()]
            if kw.get("lookup_name") and dup.count(kw["cat_name"]) > 1:
                continue
            uv.phase(**kw)
        amp = np.abs(uv.data_array)
        E.ensure("amplitudes", bool(np.allclose(amp, np.abs(base), rtol=1e-9, atol=1e-12)))
        for a in ("flag_array", "nsample_array", "time_array", "lst_array", "ant_1_array", "ant_2_array", "freq_array", "integration_time"):
            E.ensure(f"{a} unchanged", np.array_equal(getattr(uv, a), bare[a]))
        want, un = _project(uv)
        E.ensure("baseline vectors agree with the projected antenna separations", bool(np.allclose(uv.uvw_array, want, atol=1e-6)))
        E.ensure("lengths", bool(np.allclose(np.linalg.norm(uv.uvw_array, axis=1), np.linalg.norm(p0, axis=1), atol=1e-6)))
        turn = np.where(un[:, None], 0, lam(uv))
        E.ensure("visibilities carry exactly the phase of their baseline vectors", bool(np.allclose(uv.data_array, base * np.exp(-2j * np.pi * turn)[:, :, None], atol=1e-5)))
        for a in ("data_array", "uvw_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
            if op != "uvws":
                E.ensure(f"{a} of unselected records", np.array_equal(getattr(uv, a)[~sel], getattr(before, a)[~sel]))
        chk = uv.copy()
        chk._set_app_coords_helper()
        for a in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
            E.ensure(f"{a} as the catalog entry implies", bool(np.allclose(np.exp(1j * getattr(chk, a)), np.exp(1j * getattr(uv, a)), atol=1e-8)))
        ap = _astropy_dirs(uv)
        ok = ~np.isnan(ap[:, 0])
        E.ensure("direction agrees with astropy", bool(np.allclose(_recorded_dirs(uv)[ok], ap[ok], atol=3e-6)))
        if any(e["cat_type"] == "driftscan" for e in uv.phase_center_catalog.values()):
            for k, e in uv.phase_center_catalog.items():
                s = uv.phase_center_id_array == k
                if e["cat_type"] == "driftscan":
                    az, al = e["cat_lon"], e["cat_lat"]
                    E.ensure("drifting direction is fixed to the ground", bool(np.allclose(_recorded_dirs(uv)[s], [np.cos(al) * np.sin(az), np.cos(al) * np.cos(az), np.sin(al)], atol=1e-6)))
    uv.unproject_phase(use_ant_pos=r.random() < 0.5)
    E.ensure("removing every projection restores the visibilities", bool(np.allclose(uv.data_array, base, atol=1e-5)))
    E.ensure("and the local baseline vectors", bool(np.allclose(uv.uvw_array, enu.uvw_array, atol=1e-6)))


@contract("C07", funcs=[P + "calc_frame_pos_angle", P + "calc_sidereal_coords", P + "calc_app_coords", P + "transform_icrs_to_app", P + "transform_app_to_icrs"], mode="bounded", cases=120)
def frame_angles(E):
    """Apparent coordinates and frame position angles of every record depend on that record only, and the angle is the direction of frame north."""
    import warnings
    from pyuvdata.utils import phasing

    warnings.simplefilter("ignore")
    r = E.np_rng
    loc = objs.location()
    ut = gen.JD0 + r.uniform(0, 300, size=2)
    nd = 2
    ra, dec = r.uniform(0, 6.28, size=nd), r.uniform(-1.3, 1.3, size=nd)
    n = E.dim("n", 1, 7)
    ti, di, ei = (r.integers(0, 2, size=n) for _ in range(3))
    t = ut[ti]
    frame = E.choice("frame", ["icrs", "fk5", "fk4", "galactic"])
    ep = {"fk4": 1950.0}.get(frame, 2000.0)
    kw = dict(telescope_loc=loc, ref_frame=frame, ref_epoch=ep)
    pa = phasing.calc_frame_pos_angle(time_array=t, app_ra=ra[di], app_dec=dec[ei], **kw)
    one = np.array([phasing.calc_frame_pos_angle(time_array=t[i:i + 1], app_ra=ra[di][i:i + 1], app_dec=dec[ei][i:i + 1], **kw)[0] for i in range(n)])
    E.ensure("angle of every record depends on that record only", bool(np.allclose(np.exp(1j * pa), np.exp(1j * one), rtol=0, atol=1e-9)))
    lon, lat = r.uniform(0, 6.28), r.uniform(-1.1, 1.1)
    ck = dict(coord_frame=frame, coord_epoch=ep, telescope_loc=loc)
    if frame == "icrs" and E.choice("motion", [True, False]):
        ck.update(pm_ra=5000.0, pm_dec=-3000.0, vrad=15000.0, dist=2.0)
    a, d = phasing.calc_app_coords(lon_coord=lon, lat_coord=lat, time_array=t, **ck)
    for i in range(n):
        a1, d1 = phasing.calc_app_coords(lon_coord=lon, lat_coord=lat, time_array=t[i:i + 1], **ck)
        E.ensure("direction of every record depends on that record only", bool(abs(np.exp(1j * a1[0]) - np.exp(1j * a[i])) < 1e-10 and abs(d1[0] - d[i]) < 1e-10))
    pa = phasing.calc_frame_pos_angle(time_array=t, app_ra=a, app_dec=d, **kw)
    eps = 1e-4
    ck = {k: v for k, v in ck.items() if k not in ("pm_ra", "pm_dec", "vrad", "dist")}
    a0, d0 = phasing.calc_app_coords(lon_coord=lon, lat_coord=lat - eps, time_array=t, **ck)
    a1, d1 = phasing.calc_app_coords(lon_coord=lon, lat_coord=lat + eps, time_array=t, **ck)
    da = (a1 - a0 + np.pi) % (2 * np.pi) - np.pi
    north = np.arctan2(da * np.cos(d), d1 - d0)  # position angle of frame north in the apparent frame
    if np.all(np.abs(d) < 1.2):
        E.ensure("angle of frame north", bool(np.all(np.abs(np.exp(1j * (pa - north)) - 1) < 4e-2)))
