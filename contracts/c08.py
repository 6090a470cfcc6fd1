"""C08 coordinate conversions."""
import numpy as np
from pvc.reg import contract

C = "pyuvdata.utils.coordinates:"
K = "pyuvdata.utils.coordinates.pyx:"
BODIES = ["ITRS", "SPHERE", "GSFC", "GRAIL23", "CE-1-LAM-GEO"]


def _ab(body):
    """Semi-axes, from the bodies' definitions and not from the code under test."""
    if body == "ITRS":
        return 6378137.0, 6356752.31424518
    from lunarsky.moon import SELENOIDS

    a = SELENOIDS[body]._equatorial_radius.to_value("m")
    return a, a * (1 - SELENOIDS[body]._flattening)


def _body(E):
    b = E.choice("body", BODIES)
    if E.mode == "sym":
        return b, ({} if b == "ITRS" else dict(frame="mcmf", ellipsoid=b))
    sty = E.choice("style", [0, 1])
    return b, (({} if sty else {"frame": "itrs"}) if b == "ITRS" else dict(frame=["mcmf", "MCMF"][sty], **({} if b == "SPHERE" and sty else {"ellipsoid": b})))


def _angles(E):
    lat, lon, alt = E.real("lat"), E.real("lon"), E.real("alt")
    if E.mode == "conc":
        r = E.np_rng
        lat = float(r.choice([r.uniform(-1.55, 1.55), r.uniform(-1.55, 1.55), 0.0, -0.5]))
        lon = float(r.choice([r.uniform(-3.1, 3.1), r.uniform(0, 6.2), 0.0, np.pi / 2]))
        alt = float(r.uniform(-300, 5000))
    return lat, lon, alt


def _sc(E, x):
    if E.mode == "sym":
        from pvc import core

        return core.strig("sin", x), core.strig("cos", x)
    return np.sin(x), np.cos(x)


def _sqrt(E, x):
    if E.mode == "sym":
        from pvc import core

        return core.ssqrt(x)
    return np.sqrt(x)


def _xyz_def(E, lat, lon, alt, body):
    a, b = _ab(body)
    q = (b / a) ** 2
    sl, cl = _sc(E, lat)
    so, co = _sc(E, lon)
    n = a / _sqrt(E, 1.0 - (1.0 - q) * sl * sl)
    return (n + alt) * cl * co, (n + alt) * cl * so, (q * n + alt) * sl


def _close(E, x, y, tol):
    return (x == y) if E.mode == "sym" else bool(np.all(np.abs(np.asarray(x) - np.asarray(y)) <= tol))


def _basis(E, lat, lon):
    sl, cl = _sc(E, lat)
    so, co = _sc(E, lon)
    return ((-so, co, 0.0), (-sl * co, -sl * so, cl), (cl * co, cl * so, sl))


def _points(E, n, lat, lon, alt, body):
    if E.mode == "sym":
        return E.array("xyz", (n, 3), "f")
    c = np.array(_xyz_def(E, lat, lon, alt, body))
    p = c + E.np_rng.uniform(-800, 800, size=(n, 3))
    return np.asfortranarray(p) if E.choice("forder", [True, False]) else p


@contract("C08", funcs=[C + "XYZ_from_LatLonAlt", K + "_xyz_from_latlonalt"], cases=150)
def xyz_definition(E):
    """Every point is converted by the geodetic definition with the semi-axes of the chosen body, in place."""
    from pyuvdata.utils import XYZ_from_LatLonAlt

    body, kw = _body(E)
    n = E.dim("n", 2, 5)
    if E.mode == "sym":
        lat, lon, alt = (E.array(x, (n,), "f") for x in ("lat", "lon", "alt"))
    else:
        lat, lon, alt = (np.array(x) for x in zip(*[_angles(E) for _ in range(n)]))
    old = [E.old(x) for x in (lat, lon, alt)]
    out = XYZ_from_LatLonAlt(lat, lon, alt, **kw)
    E.ensure("shape", E.And(E.shape(out)[0] == n, E.shape(out)[1] == 3))
    for q in range(3):
        E.ensure("definition", E.forall((n,), lambda i: _close(E, E.at(out, i, q), _xyz_def(E, *[E.at(o, i) for o in old], body)[q], 1e-6)))
    for o, v in zip(old, (lat, lon, alt)):
        E.ensure("input unchanged", E.same_array(o, v))


@contract("C08", funcs=[C + "ENU_from_ECEF", C + "ECEF_from_ENU", K + "_ENU_from_ECEF", K + "_ECEF_from_ENU", K + "_xyz_from_latlonalt"], cases=200, timeout=150, qtimeout=15)
def enu_definition(E):
    """East, north and up components of every position relative to the reference location, for every body; the way back is its inverse."""
    from pyuvdata.utils import ECEF_from_ENU, ENU_from_ECEF

    body, kw = _body(E)
    n = E.dim("n", 2, 5)
    lat, lon, alt = _angles(E)
    loc = dict(latitude=lat, longitude=lon, altitude=alt, **kw)
    c = _xyz_def(E, lat, lon, alt, body)
    b = _basis(E, lat, lon)
    xyz = _points(E, n, lat, lon, alt, body)
    old = E.old(xyz)
    if E.choice("dir", ["to", "from"]) == "to":
        enu = E.call(ENU_from_ECEF, xyz, allow=(ValueError,) if E.mode == "sym" else (), **loc)
        for q in range(3):
            E.ensure("components", E.forall((n,), lambda i: _close(E, E.at(enu, i, q), sum(b[q][k] * (E.at(old, i, k) - c[k]) for k in range(3)), 1e-6)))
        out = enu
    else:
        if E.mode == "conc":
            xyz = xyz - np.array(c)
            old = E.old(xyz)
        out = ECEF_from_ENU(xyz, **loc)
        for k in range(3):
            E.ensure("position", E.forall((n,), lambda i: _close(E, E.at(out, i, k), c[k] + sum(b[q][k] * E.at(old, i, q) for q in range(3)), 1e-6)))
    E.ensure("shape", E.And(E.shape(out)[0] == n, E.shape(out)[1] == 3))
    E.ensure("input unchanged", E.same_array(old, xyz))


@contract("C08", funcs=[C + "ENU_from_ECEF", C + "ECEF_from_ENU"], cases=1, sym_only=True, timeout=150, qtimeout=30)
def enu_inverse(E):
    """Lemma over the definitions above: converting there and back is the identity and distances are preserved."""
    lat, lon = E.real("lat"), E.real("lon")
    b = _basis(E, lat, lon)
    c = [E.real(f"c{k}") for k in range(3)]
    x = [E.real(f"x{k}") for k in range(3)]
    y = [E.real(f"y{k}") for k in range(3)]
    e = [sum(b[q][k] * (x[k] - c[k]) for k in range(3)) for q in range(3)]
    f = [sum(b[q][k] * (y[k] - c[k]) for k in range(3)) for q in range(3)]
    for k in range(3):
        E.ensure("ECEF -> ENU -> ECEF", c[k] + sum(b[q][k] * e[q] for q in range(3)) == x[k])
    z = [c[k] + sum(b[q][k] * x[q] for q in range(3)) for k in range(3)]
    for q in range(3):
        E.ensure("ENU -> ECEF -> ENU", sum(b[q][k] * (z[k] - c[k]) for k in range(3)) == x[q])
    d2 = lambda u, v: sum((p - q) * (p - q) for p, q in zip(u, v))
    E.ensure("distances", d2(e, f) == d2(x, y))


@contract("C08", funcs=[C + "rotECEF_from_ECEF", C + "ECEF_from_rotECEF"], cases=150)
def rot_ecef(E):
    """Rotation about the polar axis by the longitude: the reference meridian goes to x; mutual inverses; distances preserved."""
    from pyuvdata.utils import ECEF_from_rotECEF, rotECEF_from_ECEF

    n = E.dim("n", 1, 5)
    _, lon, _ = _angles(E)
    xyz = E.array("xyz", (n, 3), "f")
    s, c = _sc(E, lon)
    old = E.old(xyz)
    r = rotECEF_from_ECEF(xyz, lon)
    at = lambda a, i: [E.at(a, i, k) for k in range(3)]
    tol = 1e-6 if E.mode == "sym" else 1e-9 * float(1 + np.max(np.abs(xyz)))

    def d(i):
        x, y, z = at(old, i)
        want = (c * x + s * y, c * y - s * x, z)
        return E.And(*[_close(E, p, q, tol) for p, q in zip(at(r, i), want)])

    E.ensure("rotation by the longitude", E.forall((n,), d))
    back = ECEF_from_rotECEF(r, lon)
    E.ensure("and back", E.forall((n,), lambda i: E.And(*[_close(E, p, q, tol) for p, q in zip(at(back, i), at(old, i))])))
    d2 = lambda u, v: sum((p - q) * (p - q) for p, q in zip(u, v))
    if E.mode == "sym":
        E.ensure("distances", E.forall((n, n), lambda i, j: d2(at(r, i), at(r, j)) == d2(at(old, i), at(old, j))))
    E.ensure("input unchanged", E.same_array(old, xyz))
    E.ensure("shape", E.And(E.shape(r)[0] == n, E.shape(back)[0] == n))


@contract("C08", funcs=[C + "LatLonAlt_from_XYZ", K + "_lla_from_xyz"], cases=60, timeout=100)
def lla_longitude(E):
    """Longitude of every point is the angle of (x, y); the point is not moved to another place of the array and the input is unchanged."""
    from pyuvdata.utils import LatLonAlt_from_XYZ

    body, kw = _body(E)
    n = E.dim("n", 2, 5)
    lat, lon, alt = (E.real("lat"), E.real("lon"), E.real("alt")) if E.mode == "sym" else _angles(E)
    xyz = _points(E, n, lat, lon, alt, body)
    old = E.old(xyz)
    out = LatLonAlt_from_XYZ(xyz, check_acceptability=False, **kw)

    def ok(i):
        if E.mode == "sym":
            from pvc import core

            return E.at(out[1], i) == core.satan2(E.at(old, i, 1), E.at(old, i, 0))
        return _close(E, out[1][i], np.arctan2(old[i, 1], old[i, 0]), 1e-12)

    E.ensure("longitude", E.forall((n,), ok))
    E.ensure("lengths", E.And(*[E.shape(o)[0] == n for o in out]))
    E.ensure("input unchanged", E.same_array(old, xyz))


@contract("C08", funcs=[C + "check_surface_based_positions"], cases=200)
def surface(E):
    """Positions are accepted exactly when every distance from the centre lies in the body's range."""
    from pyuvdata.utils.coordinates import check_surface_based_positions

    frame = E.choice("frame", ["itrs", "mcmf"])
    lo, hi = {"itrs": (6.35e6, 6.39e6), "mcmf": (1717100.0, 1757100.0)}[frame]
    n = E.dim("n", 1, 4)
    if E.mode == "sym":
        pos = E.array("pos", (n, 3), "f")
    else:
        u = E.np_rng.normal(size=(n, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        pos = u * E.np_rng.choice([0.5 * (lo + hi), lo + 10, hi - 10, lo - 10, hi + 10, 0.5 * (lo + hi)], size=n)[:, None]
    old = E.old(pos)
    got = []
    bad = E.raises(ValueError, lambda: got.append(check_surface_based_positions(telescope_frame=frame, antenna_positions=pos)))
    r2 = lambda i: sum(E.at(old, i, k) * E.at(old, i, k) for k in range(3))
    E.ensure("accepted exactly when all in range", E.Iff(E.Not(bad), E.forall((n,), lambda i: E.And(r2(i) >= lo**2, r2(i) <= hi**2))))
    E.ensure("input unchanged", E.same_array(old, pos))
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = check_surface_based_positions(telescope_frame=frame, antenna_positions=pos, raise_error=False)
    E.ensure("reported without raising", E.Iff(res, E.Not(bad)))


@contract("C08", funcs=[C + "LatLonAlt_from_XYZ", C + "XYZ_from_LatLonAlt", C + "ENU_from_ECEF", C + "ECEF_from_ENU", K + "_lla_from_xyz"], mode="bounded", cases=500)
def round_trips(E):
    """Every pair of conversions is an inverse up to rounding, for single points and arrays, all bodies, every way of giving the reference location."""
    import astropy.units as un
    from astropy.coordinates import EarthLocation
    from lunarsky import MoonLocation
    from pyuvdata import utils

    body, kw = _body(E)
    n = E.choice("n", [1, 1, 2, 3, 6])
    pts = [_angles(E) for _ in range(n)]
    lat, lon, alt = (np.array(x) for x in zip(*pts))
    if n == 1 and E.choice("scalar", [True, False]):
        lat, lon, alt = (float(x[0]) for x in (lat, lon, alt))
    xyz = utils.XYZ_from_LatLonAlt(lat, lon, alt, **kw)
    E.ensure("definition", bool(np.allclose(np.atleast_2d(xyz), np.array([_xyz_def(E, *p, body) for p in pts]), rtol=0, atol=1e-6)))
    E.ensure("single point is one vector", xyz.shape == ((3,) if n == 1 else (n, 3)))
    back = utils.LatLonAlt_from_XYZ(xyz, **kw)
    wrap = lambda d: np.abs((np.asarray(d) + np.pi) % (2 * np.pi) - np.pi)
    E.ensure("latitude back", bool(np.all(np.abs(back[0] - lat) < 1e-9)))
    E.ensure("longitude back", bool(np.all(wrap(back[1] - lon) < 1e-9)))
    E.ensure("altitude back", bool(np.all(np.abs(back[2] - alt) < 1e-3 / max(0.02, float(np.min(np.cos(lat)))))))
    rt = utils.XYZ_from_LatLonAlt(*back, **kw)
    E.ensure("position back", bool(np.all(np.abs(np.ravel(rt) - np.ravel(xyz)) < 1e-3 / max(0.02, float(np.min(np.cos(lat)))))))
    # local frame
    a0, o0, h0 = pts[0]
    c = np.array(_xyz_def(E, a0, o0, h0, body))
    m = E.choice("m", [0, 1, 2, 5])
    P = c + E.np_rng.uniform(-900, 900, size=(m, 3)) if m else c + E.np_rng.uniform(-900, 900, size=3)
    how = E.choice("loc", ["numbers", "object"])
    if how == "numbers":
        loc = dict(latitude=a0, longitude=o0, altitude=h0, **kw)
    elif body == "ITRS":
        loc = dict(center_loc=EarthLocation.from_geodetic(o0 * un.rad, a0 * un.rad, h0 * un.m))
    else:
        loc = dict(center_loc=MoonLocation.from_selenodetic(o0 * un.rad, a0 * un.rad, h0 * un.m, ellipsoid=body))
    keep = P.copy()
    enu = utils.ENU_from_ECEF(P, **loc)
    E.ensure("input unchanged", np.array_equal(P, keep))
    E.ensure("shape kept", enu.shape == P.shape)
    b = np.array(_basis(E, a0, o0), dtype=float)
    E.ensure("components", bool(np.allclose(enu, (P - c) @ b.T, rtol=0, atol=1e-4)))
    P2 = utils.ECEF_from_ENU(enu, **loc)
    E.ensure("there and back", P2.shape == P.shape and bool(np.allclose(P2, P, rtol=0, atol=1e-6)))
    if m > 1:
        D = lambda q: np.linalg.norm(q[:, None] - q[None], axis=-1)
        E.ensure("distances", bool(np.allclose(D(enu), D(P), rtol=0, atol=1e-6)))
