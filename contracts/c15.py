"""C15 equality and copies."""
import copy
import warnings

import numpy as np
from pvc.reg import contract
from contracts import gen

PM = "pyuvdata.parameter:UVParameter."
UB = "pyuvdata.uvbase:UVBase."


# ------------------------------------------------------------------ proofs
def _param_arrays(E, nd, kind):
    """Two array parameters are equal exactly when they have one shape and every pair of elements agrees within the tolerances."""
    from pyuvdata.parameter import UVParameter

    typ = {"f": float, "i": int, "b": bool, "c": complex}[kind]
    s1 = tuple(E.dim(f"n{q}", 1, 3) for q in range(nd))
    s2 = tuple(E.dim(f"m{q}", 1, 3) for q in range(nd)) if E.choice("shapes", ["same", "any"]) == "any" else s1
    rt, at = (E.real("rtol"), E.real("atol")) if E.mode == "sym" else (E.choice("rt", [0.0, 0.1]), E.choice("at", [0.0, 0.3]))
    E.assume(E.And(rt >= 0, at >= 0))
    kw = {} if E.mode == "sym" else ({"lo": 0, "hi": 1} if kind in "if" else {})
    a, b = E.array("a", s1, kind, **kw), E.array("b", s2, kind, **kw)
    p = UVParameter("x", value=a, expected_type=typ, tols=(rt, at), form=("A",) * nd)
    q = UVParameter("x", value=b, expected_type=typ, tols=(rt, at), form=("A",) * nd)
    oa, ob = E.old(a), E.old(b)
    r = p.__eq__(q, silent=True)
    n = p.__ne__(q)
    E.ensure("inequality is the negation of equality", E.Iff(n, E.Not(r)))
    shp = E.And(*[x == y for x, y in zip(s1, s2)])

    def close(*ix):
        x, y = E.at(oa, *ix), E.at(ob, *ix)
        if kind == "b":
            x, y = E.ite(x, 1, 0), E.ite(y, 1, 0)
        return abs(x - y) <= at + rt * abs(y)

    if kind == "c" and E.mode == "sym":
        E.ensure("equal only with one shape", E.Implies(r, shp))
        E.ensure("identical arrays are equal", E.Implies(E.And(shp, E.forall(s1, lambda *ix: E.And(E.at(oa, *ix).real == E.at(ob, *ix).real, E.at(oa, *ix).imag == E.at(ob, *ix).imag))), r))
        return
    E.ensure("equal exactly when every element agrees within tolerance", E.Iff(r, E.And(shp, E.forall(s1, close)) if E.mode == "sym" or shp else False))
    E.ensure("arrays unchanged", E.And(E.same_array(p.value, oa), E.same_array(q.value, ob)))


for _n in (1, 2, 3, 4):
    for _k in "fib":
        contract("C15", funcs=[PM + "__eq__", PM + "__ne__"], name=f"param_{_n}d_{dict(f='real', i='int', b='bool')[_k]}", cases=30, timeout=60)(lambda E, n=_n, k=_k: _param_arrays(E, n, k))


def _classes():
    from pyuvdata import Telescope, UVBeam, UVCal, UVData, UVFlag

    return dict(UVData=UVData, UVCal=UVCal, UVBeam=UVBeam, UVFlag=UVFlag, Telescope=Telescope)


def _base_eq(E, cls, extra):
    """With every other attribute equal, two objects are equal exactly when the chosen attribute compares equal."""
    A, B = _classes()[cls](), _classes()[cls]()
    names = list(A)
    which = E.choice("attribute", names)
    d = E.bool("differs")
    for o in (A, B):
        getattr(o, "metadata_only", None)  # updates which attributes are required
    req = {n: getattr(A, n).required for n in names}
    for n in names:
        pa = getattr(A, n)
        if n == "_telescope":
            from pyuvdata.uvbase import UVBase

            class Sub(UVBase):
                def __init__(self):
                    pass

                def __ne__(self, other, *, check_extra=True, silent=True):
                    return d if which == "_telescope" else False

            pa.value = Sub()
        else:
            pa.__dict__["__ne__"] = (lambda other, silent=True: d) if n == which else (lambda other, silent=True: False)
    kw = {} if cls == "UVFlag" else {"silent": True}
    r = A.__eq__(B, check_extra=extra, **kw)
    counted = which != "_filename" and (extra or req[which])
    if counted:
        E.ensure("a difference in any compared attribute makes the objects unequal, nothing else does", E.Iff(r, E.Not(d)))
    else:
        E.ensure("attributes outside the comparison do not matter", r)
    E.ensure("inequality is the negation", E.Iff(A.__ne__(B, check_extra=extra), E.Not(r)))


for _c in ("UVData", "UVCal", "UVBeam", "UVFlag", "Telescope"):
    for _x in (True, False):
        contract("C15", funcs=[UB + "__eq__", UB + "__ne__"], name=f"object_{_c}_{'all' if _x else 'required'}", cases=0, sym_only=True)(lambda E, c=_c, x=_x: _base_eq(E, c, x))


# ------------------------------------------------------------------ bounded
def any_obj(E, k=None):
    k = k or E.choice("class", ["uvdata", "uvcal", "uvbeam", "uvflag", "telescope"])
    if k == "uvdata":
        o = gen.uvdata(E)
        if E.choice("meta", [False, False, True]):
            o.data_array = o.flag_array = o.nsample_array = None
        return o
    if k == "uvcal":
        return gen.uvcal(E)
    if k == "uvbeam":
        return gen.uvbeam(E)
    if k == "uvflag":
        return gen.uvflag(E)
    return gen.uvdata(E).telescope


def perturb(E, v, tols):
    """a value differing from v in one place, clearly beyond the tolerances"""
    r = E.np_rng
    if isinstance(v, np.ndarray) and v.dtype.kind == "V":
        from astropy.coordinates import EarthLocation

        return EarthLocation.from_geocentric(v.x.value + 0.5, v.y.value, v.z.value, unit="m")
    if isinstance(v, np.ndarray) and v.dtype.kind in "US":
        w = v.astype("U40")
        i = tuple(r.integers(s) for s in w.shape)
        w[i] = w[i] + "z"
        return w
    if isinstance(v, np.ndarray):
        w = v.copy()
        i = tuple(r.integers(s) for s in w.shape)
        if w.dtype.kind == "b":
            w[i] = not w[i]
        elif w.dtype.kind in "iu":
            w[i] += int(np.ceil(3 * (tols[1] + tols[0] * abs(float(w[i]))))) or 1
        else:
            e = 3 * (float(tols[1]) + tols[0] * abs(w[i])) + abs(w[i]) * 1e-12
            w[i] = w[i] + (e if w.dtype.kind == "f" or r.random() < 0.5 else 1j * e)
        return w
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return v + "z"
    if isinstance(v, dict):
        w = copy.deepcopy(v)
        how = E.choice("dhow", ["add", "drop", "change"])
        if how == "add" or not w:
            w[max(w) + 1 if w and isinstance(next(iter(w)), int) else "newkey"] = copy.deepcopy(next(iter(w.values()))) if w else 1
        elif how == "drop":
            w.pop(list(w)[r.integers(len(w))])
        else:
            k = list(w)[r.integers(len(w))]
            x = w[k]
            w[k] = perturb(E, x, (1e-5, 1e-8)) if x is not None else 3
        return w
    if isinstance(v, (list, tuple)):
        w = list(v)
        k = r.integers(len(w))
        w[k] = perturb(E, w[k], tols)
        return type(v)(w) if isinstance(v, tuple) else w
    if isinstance(v, (int, np.integer)):
        return v + max(1, int(np.ceil(3 * (tols[1] + tols[0] * abs(v)))))
    if isinstance(v, (float, np.floating)):
        return v + 3 * (float(tols[1]) + tols[0] * abs(v)) + abs(v) * 1e-12 + 1e-300
    return None


def rec_mutate(v):
    if isinstance(v, np.ndarray) and v.dtype.kind != "V":
        if v.dtype.kind == "b":
            v[...] = ~v
        elif v.dtype.kind in "US":
            v[...] = "q"
        else:
            v[...] = v + 1
    elif isinstance(v, dict):
        for x in v.values():
            rec_mutate(x)
        v["__added"] = 1
    elif isinstance(v, list):
        for x in v:
            rec_mutate(x)
        v.append(None)


@contract("C15", funcs=[UB + "__eq__", UB + "__ne__", PM + "__eq__", "pyuvdata.parameter:_param_dict_equal"], mode="bounded", cases=700, conc_tl=120)
def one_difference(E):
    """Any single difference is detected in both directions; copies are equal."""
    r = E.np_rng
    a = any_obj(E)
    b = a.copy()
    E.ensure("a copy equals its original", bool(a == b) and bool(b == a) and not (a != b))
    targets = [(o, p) for o, pre in ((b, ""), (getattr(b, "telescope", None), "t")) if o is not None for p in o if getattr(o, p).value is not None and p not in ("_telescope", "_filename")]
    o, p = targets[r.integers(len(targets))]
    par = getattr(o, p)
    how = E.choice("how", ["change", "change", "change", "none"])
    E.assume(not (hasattr(a, "waterfall_method") or type(a).__name__ == "UVFlag") or p not in ("_mode", "_type"))
    E.assume(p != "_cal_type" or how == "change")
    new = None if how == "none" else perturb(E, par.value, par.tols)
    E.assume(new is not None or how == "none")
    E.assume(not (how == "none" and par.ignore_eq_none))
    par.value = new
    eq = [bool(a == b), bool(b == a)]
    E.ensure("a single difference makes the objects unequal in both directions", eq == [False, False], detail=(p, how, str(new)[:100]))
    E.ensure("inequality is the negation of equality", bool(a != b) and bool(b != a))


@contract("C15", funcs=[UB + "copy", "pyuvdata.uvdata.uvdata:UVData.copy", "pyuvdata.uvcal.uvcal:UVCal.copy"], mode="bounded", cases=150)
def independent_copies(E):
    """Changing a copy never changes the original, and vice versa."""
    a = any_obj(E)
    meta = hasattr(a, "metadata_only") and E.choice("metadata_only", [False, True])
    b = a.copy(metadata_only=True) if meta else a.copy()
    if meta:
        for p in a._data_params:
            E.ensure("a metadata copy has no data", getattr(b, p) is None)
        old = gen.snap(b)
        for k, v in gen.snap(a).items():
            if k not in a._data_params:
                E.ensure("a metadata copy keeps the metadata", gen.val_eq(v, old[k]), detail=k)
    src, dst = (a, b) if E.choice("dir", [True, False]) else (b, a)
    old = gen.snap(src)
    for o in (dst, getattr(dst, "telescope", None)):
        if o is not None:
            for p in o:
                par = getattr(o, p)
                if p != "_telescope":
                    rec_mutate(par.value)
                    par.required = not par.required
                    par.tols = (9, 9)
    gen.unchanged(E, "other object", old, src)
    E.ensure("parameter settings are independent", all(getattr(src, p).tols != (9, 9) for p in src if p != "_telescope"))


VALS = [1, 2, 1.0, 1.5, True, "a", "b", "a b", [1, 2], [1, 2, 3], [1], (1, 1), ["a", "b"], ["a", "c"], ["a"], {"k": 1}, {"k": 2}, {"k": [1, 2]}, {"k": [1, 2, 3]}, {"k": ["x", "y"]}, {"k": ["x", "z"]},
        {"k": {"q": 1}}, {"k": {"q": 2}}, {"k": None}, {"k": np.array([1.0, 2.0])}, {"k": 1.0, "j": 2}, {}, None]


def same_val(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same_val(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if np.shape(a) != np.shape(b):
        return False
    x, y = np.asarray(a), np.asarray(b)
    if (x.dtype.kind in "US") != (y.dtype.kind in "US"):
        return False
    return bool(np.array_equal(x, y))


@contract("C15", funcs=[PM + "__eq__", "pyuvdata.parameter:_param_dict_equal"], mode="bounded", cases=400)
def parameter_values(E):
    """Parameters holding scalars, lists, strings and nested dictionaries of the same kind."""
    from pyuvdata.parameter import UVParameter

    a, b = copy.deepcopy(E.choice("a", VALS)), copy.deepcopy(E.choice("b", VALS))
    kind = lambda v: "d" if isinstance(v, dict) else "s" if isinstance(v, str) else "l" if isinstance(v, (list, tuple)) and isinstance(v[0], str) else "n"
    E.assume(a is None or b is None or kind(a) == kind(b))
    p, q = UVParameter("x", value=a), UVParameter("x", value=b)
    r = p.__eq__(q, silent=True)
    E.ensure("equal exactly when the values are", bool(r) == same_val(a, b), detail=(a, b))
    E.ensure("negation", bool(p != q) == (not r))


@contract("C15", funcs=[PM + "__eq__", PM + "__ne__", "pyuvdata.parameter:LocationParameter.__eq__", "pyuvdata.parameter:SkyCoordParameter.__eq__"], mode="bounded", cases=500)
def typed_parameters(E):
    """Parameters holding quantities, angles, locations, sky positions, records and string arrays are equal exactly when
    the values they stand for agree within the tolerance, however they are written."""
    from astropy import units as u
    from astropy.coordinates import Angle, EarthLocation, SkyCoord
    from pyuvdata.parameter import AngleParameter, LocationParameter, SkyCoordParameter, UVParameter

    r = E.np_rng
    kind = E.choice("kind", ["quantity", "angle", "location", "sky", "record", "strings"])
    tol = 1e-3
    d = E.choice("difference", [0, 0.1, 10]) * tol
    n = int(r.integers(1, 4))
    k = int(r.integers(0, n))
    e = np.zeros(n)
    e[k] = d
    x = r.uniform(1, 2, n)
    same = d < tol
    if kind == "quantity":
        unit = E.choice("unit", [u.m, u.km, u.cm, u.s])
        a = x * u.m
        b = ((x + e) * u.m).to(unit) if unit != u.s else (x + e) * u.s
        if E.choice("bare", [False, False, True]):
            b = np.asarray(b.value)
            same = False
        same = same and unit != u.s
        if E.choice("size", [False, False, True]):
            b = np.append(b, b[:1]) if not isinstance(b, u.Quantity) else u.Quantity(list(b) + [b[0]])
            same = False
        P = lambda v, w: UVParameter("x", value=v, form=("n",), expected_type=float, tols=tol * u.m)
    elif kind == "angle":
        a, b = Angle(x, "rad"), Angle(x + e, "rad").to(E.choice("unit", [u.rad, u.deg, u.hourangle]))
        P = lambda v, w: AngleParameter("x", value=v, form=("n",), tols=tol * u.rad)
    elif kind == "location":
        p = r.normal(size=3)
        p *= 6.37e6 / np.linalg.norm(p)
        q = p.copy()
        q[r.integers(0, 3)] += d
        a, b = EarthLocation.from_geocentric(*p, unit="m"), EarthLocation.from_geocentric(*q, unit="m")
        if E.choice("geodetic", [True, False]):
            b = EarthLocation.from_geodetic(lon=b.lon, lat=b.lat, height=b.height)
        P = lambda v, w: LocationParameter("x", value=v, tols=(0, tol))
    elif kind == "sky":
        fr = E.choice("frames", [("icrs", "icrs"), ("fk5", "fk5"), ("icrs", "fk5")])
        a = SkyCoord(x, x / 2, unit="rad", frame=fr[0])
        b = SkyCoord(x, x / 2 + e, unit="rad", frame=fr[1])
        same = same and fr[0] == fr[1]
        P = lambda v, w: SkyCoordParameter("x", value=v, form=("n",), radian_tol=tol)
    elif kind == "record":
        names = ["f", "g", "s"]
        mk = lambda f, g, s, o: np.rec.fromarrays([{"f": f, "g": g, "s": s}[c] for c in o], names=[c for c in o])
        s = np.array(["ab", "cd", "ef"])[:n]
        s2 = s.copy()
        if E.choice("string differs", [False, False, True]):
            s2[k] = "zz"
            same = False
        order = [names[i] for i in r.permutation(3)]
        if E.choice("rename", [False, False, True]):
            b = np.rec.fromarrays([x, x + e, s2], names=["f", "h", "s"])
            same = False
        else:
            b = mk(x, x + e, s2, order)
        a = mk(x, x, s, names)
        P = lambda v, w: UVParameter("x", value=v, form=("n",), expected_type=np.recarray, tols=(0, tol))
    else:
        a = np.array(["ab", "cd", "ef"])[:n]
        b = a.copy()
        how = E.choice("how", ["same", "value", "list", "longer", "shorter"])
        same = how in ("same",)
        if how == "value":
            b[k] = "zz"
        elif how == "longer":
            b = np.append(b, "zz")
        elif how == "shorter":
            b = b[: n - 1]
            E.assume(n > 1)
        elif how == "list":
            b = list(b)
            same = None
        P = lambda v, w: UVParameter("x", value=v, form=("n",), expected_type=str)
    p, q = P(a, 0), P(b, 1)
    for lab, y, z in (("left", p, q), ("right", q, p)):
        got = y.__eq__(z, silent=True)
        if same is not None:
            E.ensure(f"equal exactly when the values are, {lab}", bool(got) == bool(same), detail=(kind, d, str(a), str(b), got))
        E.ensure(f"negation, {lab}", bool(y != z) == (not got))


ATOMS = [None, 1, 2.5, True, "a", "b", [1.0, 2.0], [1.0, 3.0], [1.0], np.array([1, 2, 3]), np.arange(4.0).reshape(2, 2), ["x", "y"], ["x", "z"], np.array(["p", "q", "r"]), {}, {"u": 1.5}, {"u": None}, {"u": {"w": "t"}}, {"u": {"w": [1, 2]}}]


def keyed_eq(a, b):
    """Equality of (possibly nested) dictionaries whose keys are compared without case."""
    if isinstance(a, dict) and isinstance(b, dict):
        la, lb = {k.lower(): v for k, v in a.items()}, {k.lower(): v for k, v in b.items()}
        return set(la) == set(lb) and all(keyed_eq(la[k], lb[k]) for k in la)
    return same_val(a, b)


@contract("C15", funcs=[PM + "__eq__", PM + "__ne__", "pyuvdata.parameter:_param_dict_equal"], mode="bounded", cases=500)
def dictionary_values(E):
    """Parameters holding dictionaries are equal exactly when they have the same keys (up to case) and equal values under
    each, whatever the values are (missing, numbers, arrays, strings, nested dictionaries), in both directions and
    whatever the order of the keys."""
    from pyuvdata.parameter import UVParameter

    r = E.np_rng
    keys = ["k0", "Key1", "KEY2"][: int(r.integers(1, 4))]
    pick = lambda: copy.deepcopy(ATOMS[int(r.integers(0, len(ATOMS)))])
    a = {k: pick() for k in keys}
    b = {}
    for k in [keys[i] for i in r.permutation(len(keys))]:
        b[k if E.choice("case_" + k, [True, False]) else k.swapcase()] = copy.deepcopy(a[k])
    how = E.choice("how", ["same", "value", "value", "value", "missing", "renamed", "extra"])
    k = list(b)[int(r.integers(0, len(b)))]
    if how == "value":
        b[k] = pick()
    elif how == "missing":
        del b[k]
    elif how == "renamed":
        b["other"] = b.pop(k)
    elif how == "extra":
        b["other"] = pick()
    deep = E.choice("nested", [False, False, True])
    A, B = ({"n": a}, {"n": b}) if deep else (a, b)
    want = keyed_eq(A, B)
    p, q = UVParameter("x", value=A), UVParameter("x", value=B)
    for lab, y, z in (("left", p, q), ("right", q, p)):
        got = bool(y.__eq__(z, silent=True))
        E.ensure(f"equal exactly when keys and values are, {lab}", got == want, detail=(A, B, got))
        E.ensure(f"negation, {lab}", bool(y.__ne__(z, silent=True)) == (not got))


@contract("C15", funcs=[PM + "__eq__", PM + "__ne__", "pyuvdata.parameter:LocationParameter.__eq__"], mode="bounded", cases=200)
def body_locations(E):
    """Locations are equal exactly when they are on the same body, with the same lunar ellipsoid, at the same place."""
    from astropy.coordinates import EarthLocation
    from lunarsky import MoonLocation
    from pyuvdata.parameter import LocationParameter

    r = E.np_rng
    p = r.normal(size=3)
    p *= 1.7e6 / np.linalg.norm(p)

    def make(lab, xyz):
        k = E.choice("body_" + lab, ["earth", "SPHERE", "SPHERE", "GSFC", "none"])
        if k == "none":
            return k, None
        if k == "earth":
            return k, EarthLocation.from_geocentric(*xyz, unit="m")
        v = MoonLocation.from_selenocentric(*xyz, unit="m")
        v.ellipsoid = k
        return k, v

    d = E.choice("metres", [0.0, 1e-4, 1.0])
    q = p.copy()
    q[r.integers(0, 3)] += d
    (ka, a), (kb, b) = make("a", p), make("b", q)
    want = ka == kb and (ka == "none" or d < 1e-3)
    A, B = LocationParameter("x", value=a, tols=(0, 1e-3)), LocationParameter("x", value=b, tols=(0, 1e-3))
    for lab, y, z in (("left", A, B), ("right", B, A)):
        got = bool(y.__eq__(z, silent=True))
        E.ensure(f"equal exactly when body, ellipsoid and place are, {lab}", got == want, detail=(ka, kb, d, got))
        E.ensure(f"negation, {lab}", bool(y.__ne__(z, silent=True)) == (not got))
