"""C16 consistency checks: malformed objects are rejected, well-formed ones accepted and left alone."""
import copy
import warnings

import numpy as np
from pvc.loops import loop
from pvc.reg import contract
from contracts import gen, objs

PM = "pyuvdata.parameter:UVParameter."
UB = "pyuvdata.uvbase:UVBase."


# ------------------------------------------------------------------ proofs: one attribute of a minimal object
def _holder(**params):
    from pyuvdata.parameter import UVParameter
    from pyuvdata.uvbase import UVBase

    class Holder(UVBase):
        def __init__(self):
            for n, kw in params.items():
                setattr(self, "_" + n, UVParameter(n, **kw))
            super().__init__()

    return Holder()


TYP = {"f": float, "i": int, "b": bool, "c": complex, "U": str}


def _shape(E, nd, kind, required):
    """An array is accepted exactly when its shape is the declared one, for all declared and actual lengths."""
    n = [E.dim(f"N{q}", 1, 3) for q in range(nd)]
    m = [E.dim(f"m{q}", 1, 3) for q in range(nd)]
    ad = nd + E.choice("extra_axes", [0, 1]) - (E.choice("fewer_axes", [0, 1]) if nd > 1 else 0)
    sh = tuple((m + [2, 2])[:ad])
    v = E.array("v", sh, kind)
    P = {f"N{q}": dict(value=n[q], expected_type=int) for q in range(nd)}
    P["v"] = dict(value=v, form=tuple(f"N{q}" for q in range(nd)), expected_type=TYP[kind], required=required)
    o = _holder(**P)
    if E.mode == "conc" and kind != "U":
        o._v.value = v = np.asarray(v).astype(TYP[kind])
    old = E.old(v)
    bad = E.raises(ValueError, lambda: o.check())
    ok = E.And(*[a == b for a, b in zip(n, sh)]) if ad == nd else False
    E.ensure("accepted exactly when the shape is the declared one", E.Iff(bad, E.Not(ok)))
    E.ensure("the array is left alone", E.same_array(o.v, old))
    E.ensure("without extra attributes an optional array is not inspected", E.Iff(E.raises(ValueError, lambda: o.check(check_extra=False)), E.And(bad, required)))


for _n in (1, 2, 3, 4):
    for _k in "fibc":
        contract("C16", funcs=[UB + "check", PM + "expected_shape", PM + "check_acceptability"], name=f"shape_{_n}d_{_k}", cases=30, timeout=60)(lambda E, n=_n, k=_k: _shape(E, n, k, True))
contract("C16", funcs=[UB + "check", PM + "expected_shape"], name="shape_optional", cases=30, timeout=60)(lambda E: _shape(E, 2, "f", False))


def _kind(E, have, want):
    """An array of another kind than the declared type is rejected, whatever it holds."""
    n = E.dim("N", 1, 3)
    v = E.array("v", (n,), have)
    o = _holder(N=dict(value=n, expected_type=int), v=dict(value=v, form=("N",), expected_type=TYP[want]))
    if E.mode == "conc" and have != "U":
        o._v.value = np.asarray(v).astype(TYP[have])
    E.ensure("accepted exactly when the kind is the declared one", E.Iff(E.raises(ValueError, lambda: o.check()), have != want))


for _h in "fibc":
    for _w in "fibc":
        contract("C16", funcs=[UB + "check"], name=f"kind_{_h}_for_{_w}", cases=10, timeout=60)(lambda E, h=_h, w=_w: _kind(E, h, w))


@loop("pyuvdata/parameter.py", "UVParameter.check_acceptability", 0)
def _acc_inv(E, k, st, env):
    return E.forall([k], lambda i: E.Or(*[env.elems.at(i) == w for w in env.acceptable_vals]))


@contract("C16", funcs=[UB + "check", PM + "check_acceptability"], cases=60)
def allowed_values(E):
    """A number or an array of numbers is accepted exactly when every value is in the allowed set."""
    allowed = [-3, 1, 4, 7]
    n = E.dim("N", 1, 3)
    x = E.int("x") if E.mode == "sym" else int(E.np_rng.choice([-3, 1, 4, 2]))
    a = E.array("a", (n,), "i", **({} if E.mode == "sym" else dict(pool=[-3, 1, 4, 7, 4, 1, 1, 1, 0])))
    arr = E.choice("array", [True, False])
    o = _holder(N=dict(value=n, expected_type=int), x=dict(value=x, expected_type=int, acceptable_vals=allowed),
                a=dict(value=a if arr else None, form=("N",), expected_type=int, acceptable_vals=allowed, required=False))
    bad = E.raises(ValueError, lambda: o.check())
    isin = lambda v: E.Or(*[v == w for w in allowed])
    ok = E.And(isin(x), E.forall([n], lambda i: isin(E.at(a, i)))) if arr else isin(x)
    E.ensure("accepted exactly when all values are allowed", E.Iff(bad, E.Not(ok)))
    if bad:
        E.ensure("values are not inspected when not requested", E.Not(E.raises(ValueError, lambda: o.check(run_check_acceptability=False))))


@contract("C16", funcs=[UB + "check", PM + "check_acceptability"], cases=60)
def allowed_range(E):
    """A number is accepted exactly when its magnitude lies in the allowed range."""
    lo, hi = (E.real("lo"), E.real("hi")) if E.mode == "sym" else (0.5, 2.0)
    x = E.real("x") if E.mode == "sym" else float(E.np_rng.choice([0.5, 2.0, -1.0, 0.2, -3, 2.01]))
    o = _holder(x=dict(value=x, expected_type=float, acceptable_range=(lo, hi)))
    bad = E.raises(ValueError, lambda: o.check())
    E.ensure("accepted exactly when in range", E.Iff(bad, E.Not(E.And(abs(x) >= lo, abs(x) <= hi))))


@contract("C16", funcs=[UB + "check"], cases=10)
def required_missing(E):
    """A missing required attribute is rejected, a missing optional one is not."""
    req, none, extra = E.choice("required", [True, False]), E.choice("missing", [True, False]), E.choice("extra", [True, False])
    n = E.dim("N", 1, 3)
    o = _holder(N=dict(value=n, expected_type=int), x=dict(value=None if none else E.array("x", (n,), "f"), form=("N",), expected_type=float, required=req))
    E.ensure("rejected exactly when required and missing", E.Iff(E.raises(ValueError, lambda: o.check(check_extra=extra)), req and none))


# ------------------------------------------------------------------ proofs: every array attribute of a visibility object
def _uvdata_shape(E, attr):
    """Any array attribute with any length other than the declared one is rejected; the correct one is accepted."""
    from pyuvdata.uvbase import UVBase

    uv, D = objs.make_uvdata(E)
    axes, kind = {**objs.UVDATA_AXES, **objs.TEL_AXES}[attr]
    axes = axes.split()
    obj = uv if attr in objs.UVDATA_AXES else uv.telescope
    uv.telescope.instrument = "i"
    m = [E.dim(f"m{q}", 1, 6) for q in range(len(axes))]
    setattr(obj, attr, E.array("bad", tuple(m), kind))
    uv.telescope.check = lambda **k: None if obj is uv else UVBase.check(uv.telescope, run_check_acceptability=False)
    bad = E.raises(ValueError, lambda: UVBase.check(uv, check_extra=True, run_check_acceptability=False))
    E.ensure("accepted exactly when the shape is the declared one", E.Iff(bad, E.Not(E.And(*[a == D[x] for a, x in zip(m, axes)]))))


for _a in {**objs.UVDATA_AXES, **objs.TEL_AXES}:
    contract("C16", funcs=[UB + "check", PM + "expected_shape", "pyuvdata.uvdata.uvdata:UVData.__init__"], name=f"uvdata_{_a}", cases=0, sym_only=True, timeout=60)(lambda E, a=_a: _uvdata_shape(E, a))


@loop("pyuvdata/uvdata/uvdata.py", "UVData.check", 0)
def _pc_inv(E, k, st, env):
    return E.forall([k], lambda i: E.Or(*[env.elems.at(i) == w for w in env.self.phase_center_catalog]))


@contract("C16", funcs=["pyuvdata.uvdata.uvdata:UVData.check", "pyuvdata.uvdata.uvdata:UVData._calc_nants_data"], cases=0, sym_only=True)
def counts_and_labels(E):
    """Counts and labels of a visibility object: rejected exactly when some count or label is wrong."""
    from pyuvdata.uvbase import UVBase

    uv, D = objs.make_uvdata(E, npc=2, eq_coeffs=False, diam=False, scan=False, rect=False)
    uv.time_axis_faster_than_bls = False
    uv.blts_are_rectangular = False
    uv.extra_keywords = {}
    uv.flex_spw_polarization_array = None
    which = E.choice("which", ["counts", "spw", "phase", "ants", "pols"])
    n, nf = D["blt"], D["freq"]
    ok = True
    if which == "spw":
        uv.flex_spw_id_array = E.array("fs", (nf,), "i")
        ok = E.forall([nf], lambda i: E.member(uv.spw_array, E.at(uv.flex_spw_id_array, i)))
    if which == "phase":
        uv.phase_center_id_array = E.array("pc", (n,), "i")
        ok = E.forall([n], lambda i: E.Or(E.at(uv.phase_center_id_array, i) == 0, E.at(uv.phase_center_id_array, i) == 1))
    if which == "ants":
        uv.ant_1_array, uv.ant_2_array = E.array("x1", (n,), "i"), E.array("x2", (n,), "i")
        ok = E.forall([n], lambda i: E.And(E.member(uv.telescope.antenna_numbers, E.at(uv.ant_1_array, i)), E.member(uv.telescope.antenna_numbers, E.at(uv.ant_2_array, i))))
    if which == "pols":
        ok = E.forall([D["pol"]], lambda i: E.at(uv.polarization_array, i) != 0)
    else:
        E.assume(E.forall([D["pol"]], lambda i: E.at(uv.polarization_array, i) != 0))
    nb, nt = np.unique(uv.baseline_array).size, np.unique(uv.time_array).size
    na = uv._calc_nants_data()
    if which == "counts":
        ok = E.And(uv.Nbls == nb, uv.Ntimes == nt, uv.Nants_data == na)
    else:
        uv.Nbls, uv.Ntimes, uv.Nants_data = nb, nt, na
    E.stub("UVBase.check and Telescope.check on an object whose single attributes are well formed return normally (contracts shape_*, kind_*, uvdata_*)")
    real, UVBase.check = UVBase.check, lambda self, **k: True
    uv.telescope.check = lambda **k: True
    try:
        bad = E.raises(ValueError, lambda: uv.check(run_check_acceptability=False))
    finally:
        UVBase.check = real
    E.ensure("accepted exactly when counts and labels agree", E.Iff(bad, E.Not(ok)))


# ------------------------------------------------------------------ bounded: every class, every attribute
def well_formed(E):
    k = E.choice("class", ["uvdata", "uvcal", "uvbeam", "uvflag", "telescope"])
    o = dict(uvdata=gen.uvdata, uvcal=gen.uvcal, uvbeam=gen.uvbeam, uvflag=gen.uvflag, telescope=lambda E: gen.uvdata(E).telescope)[k](E)
    return k, o


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def rejected(E, o, **kw):
    try:
        quiet(lambda: o.check(**kw))
    except ValueError:
        return True
    return False


CHECK = [UB + "check", PM + "check_acceptability", PM + "expected_shape", "pyuvdata.uvdata.uvdata:UVData.check", "pyuvdata.uvcal.uvcal:UVCal.check",
         "pyuvdata.uvbeam.uvbeam:UVBeam.check", "pyuvdata.uvflag.uvflag:UVFlag.check", "pyuvdata.telescopes:Telescope.check"]


@contract("C16", funcs=CHECK, mode="bounded", cases=300)
def accepts(E):
    """Well-formed objects are accepted and not modified."""
    k, o = well_formed(E)
    old = gen.snap(o)
    E.ensure("accepted", quiet(lambda: o.check(check_extra=E.choice("x", [True, False]), run_check_acceptability=E.choice("acc", [True, False]))) is True)
    gen.unchanged(E, "checked object", old, o)


def corrupt(E, par, how):
    """-> corrupted value or raises a rejected case"""
    r = E.np_rng
    v = par.value
    if how == "missing":
        E.assume(par.required)
        return None
    if how == "shape":
        if isinstance(v, np.ndarray) and v.dtype.kind != "V":
            w = E.choice("w", ["longer", "shorter", "more", "fewer"])
            ax = int(r.integers(v.ndim))
            if w == "longer":
                return np.concatenate([v, np.take(v, [0], axis=ax)], axis=ax)
            if w == "shorter":
                E.assume(v.shape[ax] > 1)
                return np.take(v, np.arange(v.shape[ax] - 1), axis=ax)
            if w == "more":
                return v[..., None]
            E.assume(v.ndim > 1)
            return np.take(v, 0, axis=ax)
        if isinstance(v, list):
            return v + [v[0]]
        E.assume(isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool))
        return [v, v] if r.random() < 0.5 else np.array([v, v])
    if how == "type":
        if isinstance(v, np.ndarray) and v.dtype.kind != "V":
            E.assume(v.size > 0)
            alt = [k for k in "ficbU" if k != ("i" if v.dtype.kind == "u" else v.dtype.kind)]
            return np.ones(v.shape).astype({"f": float, "i": int, "c": complex, "b": bool, "U": str}[alt[r.integers(len(alt))]])
        if isinstance(v, bool):
            return "yes"
        if isinstance(v, (int, np.integer)):
            return E.choice("alt", [float(v) + 0.5, "three"])
        if isinstance(v, (float, np.floating)):
            return E.choice("alt", [complex(1, 1), "three"])
        if isinstance(v, str):
            return 3
        if isinstance(v, dict):
            return "notadict"
        E.assume(False)
    if how == "value":
        E.assume(par.acceptable_vals is not None or par.acceptable_range is not None)
        if par.acceptable_vals is not None:
            if isinstance(v, np.ndarray):
                E.assume(v.size > 0)
                w = v.copy() if v.dtype.kind not in "US" else v.astype("U30")
                w.flat[r.integers(w.size)] = 77 if v.dtype.kind not in "US" else "nonsense"
                return w
            return "nonsense" if isinstance(v, str) else type(v)(77) if not isinstance(v, (list, bool)) else None
        f = 1e30 if E.choice("dir", [True, False]) or par.acceptable_range[0] <= 0 else 1e-30
        E.assume(f < 1 or np.isfinite(par.acceptable_range[1]))
        m = np.mean(np.abs(v)) * f
        E.assume(not par.acceptable_range[0] <= m <= par.acceptable_range[1])
        return v * f if isinstance(v, np.ndarray) else type(v)(v * f)


@contract("C16", funcs=CHECK, mode="bounded", cases=1500, conc_tl=150)
def rejects(E):
    """One attribute corrupted: missing, wrong shape, wrong type or forbidden value."""
    r = E.np_rng
    k, o = well_formed(E)
    quiet(o.check)
    tgt = o if k in ("telescope", "uvbeam") or E.choice("tel", [False, False, False, True]) is False else o.telescope
    names = [p for p in tgt if getattr(tgt, p).value is not None and p not in ("_telescope", "_location", "_filename")]
    p = names[r.integers(len(names))]
    par = getattr(tgt, p)
    how = E.choice("how", ["missing", "shape", "type", "value"])
    E.assume(not (k == "uvflag" and p == "_polarization_array" and how == "type"))
    new = corrupt(E, par, how)
    E.assume(new is not None or how == "missing")
    par.value = new
    try:
        ok = rejected(E, o)
    except (TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError):
        ok = True  # rejected, if untidily: a malformed object does not pass
    E.ensure("a malformed attribute is rejected", ok, detail=(type(o).__name__, p, how, str(new)[:60]))


@contract("C16", funcs=CHECK, mode="bounded", cases=400)
def wrong_counts(E):
    """Declared counts or labels that do not match the contents."""
    r = E.np_rng
    k, o = well_formed(E)
    quiet(o.check)
    names = [p for p in o if p.startswith("_N") and isinstance(getattr(o, p).value, (int, np.integer)) and p not in ("_Nphase",)]
    labels = {"uvdata": ["ant_1_array", "ant_2_array", "flex_spw_id_array", "phase_center_id_array"], "uvcal": ["ant_array", "flex_spw_id_array"], "uvflag": ["flex_spw_id_array", "ant_1_array", "ant_array"]}.get(k, [])
    labels = [a for a in labels if getattr(o, a, None) is not None]
    if labels and E.choice("label", [False, True]):
        a = labels[r.integers(len(labels))]
        v = getattr(o, a).copy()
        v[r.integers(v.size)] = 123456
        setattr(o, a, v)
        what = a
    else:
        p = names[r.integers(len(names))]
        getattr(o, p).value += int(E.choice("by", [1, -1, 5]))
        what = p
    try:
        ok = rejected(E, o)
    except (TypeError, AttributeError, KeyError, IndexError):
        ok = True
    E.ensure("wrong counts and labels are rejected", ok, detail=(k, what))
