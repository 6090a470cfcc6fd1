"""C21 phase-center catalogs."""
import copy
import warnings

import numpy as np
from pvc.reg import contract
from contracts import gen, objs

PC = "pyuvdata.utils.phase_center_catalog:"
U = "pyuvdata.uvdata.uvdata:UVData."
KEYS = ["cat_type", "cat_lon", "cat_lat", "cat_frame", "cat_epoch", "cat_times", "cat_pm_ra", "cat_pm_dec", "cat_dist", "cat_vrad"]
EXACT = {"cat_type": ("sidereal", "ephem"), "cat_frame": ("icrs", "fk5"), "cat_epoch": (2000.0, 1950.0)}
ARCSEC_TOL = 1 * 2 * np.pi * 1e-3 / (60.0 * 60.0 * 360.0)


def _base(name="a"):
    return {"cat_name": name, "cat_type": "sidereal", "cat_lon": 0.5, "cat_lat": 0.25, "cat_frame": "icrs", "cat_epoch": 2000.0, "cat_times": None,
            "cat_pm_ra": 1.5, "cat_pm_dec": -2.5, "cat_vrad": 3.5, "cat_dist": 4.5, "info_source": "x"}


def _abs(E, x):
    return E.ite(x >= 0, x, -x)


def _bounds(E, key, a, b):
    """(surely different, surely the same) for two numbers; between the two both answers are within the documented tolerances."""
    d = _abs(E, a - b)
    if key in ("cat_lon", "cat_lat"):
        # one milliarcsecond; the last bits of the constant are not part of the promise
        return d > ARCSEC_TOL * 1.0001, d < ARCSEC_TOL * 0.9999
    if key == "cat_times":
        # Julian dates: a millisecond, as for every other time in the package
        return d > 1.0001e-3 / 86400, d < 0.9999e-3 / 86400
    ma, mb = _abs(E, a), _abs(E, b)
    return d > 1e-8 + 1e-5 * E.ite(ma >= mb, ma, mb), d <= 1e-8 + 1e-5 * E.ite(ma >= mb, mb, ma)


@contract("C21", funcs=[PC + "look_in_catalog"], cases=200)
def lookup_counts(E):
    """The number of differing attributes reported is exact, attribute by attribute (value against value, value against none)."""
    from pyuvdata.utils.phase_center_catalog import look_in_catalog

    key = E.choice("key", KEYS)
    pa, pb = E.choice("have", [(1, 1), (1, 0), (0, 1), (0, 0)])
    cat, ref = _base(), _base()
    how = E.choice("how", ["target", "search", "ignore", "kw"])
    sure = same = None
    if key in EXACT:
        va = E.choice("va", [0, 1])
        ref[key] = EXACT[key][va] if pa else None
        cat[key] = EXACT[key][0] if pb else None
        differs = (pa != pb) or (pa and va)
    else:
        a, b = E.real("a"), E.real("b")
        if E.mode == "conc":
            sc = E.rng.choice([1, 1e-5, 1e-8, 1e-9, 5e-9])
            b = E.lit(0.5)
            a = b + sc * a / 1000
        ref[key] = a if pa else None
        cat[key] = b if pb else None
        differs = None
        if pa and pb:
            sure, same = _bounds(E, key, a, b)
        else:
            differs = pa != pb
    if how == "kw" and key == "cat_type" and pa == 0:
        how = "search"
    other = _base("other")
    other["cat_lon"] = 1.25
    catalog = {7: other, 3: cat}
    if how == "target":
        mid, n = look_in_catalog(catalog, phase_dict=ref, target_cat_id=3)
    elif how == "search":
        mid, n = look_in_catalog(catalog, phase_dict=ref)
    elif how == "ignore":
        ref["cat_name"] = "whatever"
        mid, n = look_in_catalog(catalog, phase_dict=ref, ignore_name=True, target_cat_id=3)
    else:
        kw = {k: v for k, v in ref.items() if k != "info_source"}
        mid, n = look_in_catalog(catalog, **kw)
    zero = E.And(n == 0, mid == 3) if mid is not None else False
    one = (mid is None) if how == "ignore" else E.And(n == 1, mid == 3)
    if differs is not None:
        E.ensure("exact count", one if differs else zero)
    else:
        E.ensure("a difference beyond tolerance is counted", E.Implies(sure, one))
        E.ensure("a difference within tolerance is not counted", E.Implies(same, zero))
        E.ensure("either way", E.Or(one, zero))


NUM = ["cat_lon", "cat_lat", "cat_pm_ra", "cat_pm_dec", "cat_dist", "cat_vrad"]


@contract("C21", funcs=[PC + "look_in_catalog"], cases=100)
def lookup_sums(E):
    """With every numeric attribute arbitrary, the report is the sum over the attributes."""
    from pyuvdata.utils.phase_center_catalog import look_in_catalog

    cat, ref = _base(), _base()
    lo = hi = 0
    n0 = E.choice("exact", [0, 3])
    if n0:
        for k in EXACT:
            ref[k] = EXACT[k][1]
    for k in NUM:
        a = E.real("a" + k)
        b = E.real("b" + k)
        if E.mode == "conc" and E.rng.random() < 0.5:
            a = b
        ref[k], cat[k] = a, b
        sure, same = _bounds(E, k, a, b)
        lo = lo + E.ite(sure, 1, 0)
        hi = hi + E.ite(same, 0, 1)
    mid, n = look_in_catalog({3: cat}, phase_dict=ref)
    E.ensure("entry of that name found", mid == 3)
    E.ensure("count", E.And(n - n0 >= lo, n - n0 <= hi))


@contract("C21", funcs=[PC + "look_in_catalog"], cases=400)
def lookup_ephem(E):
    """Tabulated positions are compared element by element; tables of different length differ."""
    from pyuvdata.utils.phase_center_catalog import look_in_catalog

    n, m = E.dim("n", 1, 4), E.dim("m", 1, 4)
    key = E.choice("key", ["cat_lon", "cat_lat", "cat_times", "cat_dist", "cat_vrad"])
    a = E.array("a", (n,), "f")
    b = E.array("b", (m,), "f")
    if E.mode == "conc" and n == m:
        b = a + E.rng.choice([0, 1e-9, 1e-7, 1e-6, 1e-4, 1]) * (E.np_rng.random(n) < 0.4)
    cat, ref = _base(), _base()
    ref[key], cat[key] = a, b
    mid, cnt = look_in_catalog({3: cat}, phase_dict=ref)
    bd = lambda i: _bounds(E, key, E.at(a, i), E.at(b, i))
    E.ensure("found", mid == 3)
    E.ensure("0 or 1", E.Or(cnt == 0, cnt == 1))
    E.ensure("different length differs", E.Implies(E.Not(n == m), cnt == 1))
    E.ensure("equal count only if every element within tolerance", E.Implies(E.And(n == m, cnt == 0), E.forall((n,), lambda i: E.Not(bd(i)[0]))))
    E.ensure("all within tolerance is equal", E.Implies(E.And(n == m, E.forall((n,), lambda i: bd(i)[1])), cnt == 0))


@contract("C21", funcs=[PC + "look_in_catalog"], cases=100)
def lookup_choice(E):
    """Among several entries the first one equal in every attribute is found; otherwise one of the same name with the fewest differences;
    entries of another name only when names are ignored and only if equal."""
    from pyuvdata.utils.phase_center_catalog import look_in_catalog

    ref = _base("q")
    catalog, nd = {}, {}
    for i in (4, 2, 9):
        e = _base(E.choice(f"name{i}", ["q", "r"]))
        d = E.choice(f"diff{i}", [0, 1, 2])
        if d >= 1:
            e["cat_lon"] = 1.0
        if d >= 2:
            e["cat_frame"] = None
        catalog[i], nd[i] = e, d
    ign = E.choice("ignore", [False, True])
    mid, cnt = look_in_catalog(catalog, phase_dict=ref, ignore_name=ign)
    named = [i for i in catalog if catalog[i]["cat_name"] == "q"]
    cand = [i for i in (catalog if ign else named) if nd[i] == 0]
    if cand:
        E.ensure("equal entry found", mid in cand and cnt == 0)
    elif named and not ign:
        best = min(nd[i] for i in named)
        E.ensure("closest of that name", mid in [i for i in named if nd[i] == best] and cnt == best)
    else:
        E.ensure("nothing found", mid is None and cnt != 0)
    E.ensure("catalog not modified", list(catalog) == [4, 2, 9])


# ------------------------------------------------------------------ ids
class _Cat(dict):
    """A catalog that may be subscripted with a symbolic id (equal keys share a hash, so dict semantics are those of ==)."""

    def __getitem__(self, k):
        if type(k) not in (int, np.int64, np.int32):
            for q in self.keys():
                if k == q:
                    return dict.__getitem__(self, q)
            raise KeyError(k)
        return dict.__getitem__(self, k)


@contract("C21", funcs=[PC + "generate_new_phase_center_id"], cases=300)
def new_ids(E):
    """A requested id is granted exactly when no other entry uses it and it is not reserved; an id made up is always free."""
    from pyuvdata.utils.phase_center_catalog import generate_new_phase_center_id as g

    keys = E.choice("keys", [[], [0], [1], [0, 1], [0, 2, 5], [3, 1, 0]])
    res = E.choice("reserved", [None, [], [0], [2, 0], [1, 4]])
    old = E.choice("old", [None] + keys)
    cat = _Cat({k: _base(f"s{k}") for k in keys})
    req = E.int("req") if E.choice("ask", [True, False]) else None
    if E.mode == "conc" and req is not None:
        req = E.rng.randrange(-1, 7)
    taken = [k for k in keys if k != old] + list(res or [])
    free = lambda v: E.And(True, *[E.Not(v == k) for k in taken])
    kw = dict(cat_id=req, old_id=old, reserved_ids=res)
    if req is None:
        out = g(cat, **kw)
        E.ensure("an id that is free", free(out))
        E.ensure("an entry keeps its id if it can", (out == old) if old is not None and old not in taken else True)
    else:
        out = []
        bad = E.raises(ValueError, lambda: out.append(g(cat, **kw)))
        E.ensure("refused exactly if taken", E.Iff(bad, E.Not(free(req))))
        if out:
            E.ensure("granted id is the one asked for", out[0] == req)
    E.ensure("catalog unchanged", sorted(cat) == sorted(keys))


# ------------------------------------------------------------------ records
def _small(E, ids=(0, 1, 5), names=None):
    from pyuvdata import UVData

    n = E.dim("Nblts", 1, 6)
    uv = UVData()
    uv.Nblts = n
    uv.phase_center_id_array = E.array("ids", (n,), "i", pool=list(ids))
    if E.mode == "sym":
        E.assume(E.forall((n,), lambda i: E.Or(*[E.at(uv.phase_center_id_array, i) == k for k in ids])))
    uv.phase_center_catalog = {}
    for j, k in enumerate(ids):
        e = _base((names or {}).get(k, f"s{k}"))
        e["cat_lon"] = 0.5 + 0.1 * j
        uv.phase_center_catalog[k] = e
    uv.Nphase = len(ids)
    return uv, n


def _wf(E, uv, n, what=""):
    ks = list(uv.phase_center_catalog)
    E.ensure(what + "every record points at an entry", E.forall((n,), lambda i: E.Or(*[E.at(uv.phase_center_id_array, i) == k for k in ks])))
    E.ensure(what + "Nphase counts the entries", uv.Nphase == len(ks))


def _same_dir(E, uv, n, old_ids, old_cat, what="", skip=("cat_name", "info_source")):
    """Each record's entry describes what it described before."""
    desc = lambda e: {k: v for k, v in e.items() if k not in skip}
    new = uv.phase_center_catalog
    ok = lambda i: E.And(True, *[E.Implies(E.And(E.at(old_ids, i) == a, E.at(uv.phase_center_id_array, i) == b), desc(old_cat[a]) == desc(new[b]))
                                for a in old_cat for b in new])
    E.ensure(what + "each record keeps its sky direction", E.forall((n,), ok))


@contract("C21", funcs=[U + "_update_phase_center_id", PC + "generate_new_phase_center_id"], cases=100)
def update_id(E):
    """Renumbering an entry moves exactly its records."""
    uv, n = _small(E)
    src = E.choice("src", [0, 1, 5])
    new = E.choice("new", [None, 2, 7])
    res = E.choice("res", [None, [0, 1], [3, 5]])
    if new is not None:
        res = None
    old, oldc = E.old(uv.phase_center_id_array), copy.deepcopy(uv.phase_center_catalog)
    uv._update_phase_center_id(src, new_id=new, reserved_ids=res)
    moved = [k for k in uv.phase_center_catalog if k not in (set(oldc) - {src})]
    E.ensure("one entry renumbered", len(moved) == 1 and len(uv.phase_center_catalog) == 3)
    t = moved[0]
    E.ensure("to the requested or a free id", t == new if new is not None else (t == src if src not in (res or []) else t not in (res or [])))
    E.ensure("exactly its records follow", E.forall((n,), lambda i: E.at(uv.phase_center_id_array, i) == E.ite(E.at(old, i) == src, t, E.at(old, i))))
    _wf(E, uv, n)
    _same_dir(E, uv, n, old, oldc, skip=())


@contract("C21", funcs=[U + "merge_phase_centers", U + "_remove_phase_center", PC + "look_in_catalog"], cases=150)
def merge(E):
    """Merging moves exactly the records of the merged entries to the first one and keeps that entry; nothing happens when refused."""
    uv, n = _small(E, names={0: "x", 1: "x"})
    same = E.choice("same", [True, False])
    if same:
        for k in (1, 5):
            uv.phase_center_catalog[k]["cat_lon"] = 0.5
    which = E.choice("which", [[0, 1], [1, 0], "x", [0, 1, 5], [5, "x"], ["x", "s5"], [0, 0], [1, "x"], 5])
    force, ign = E.choice("force", [False, True]), E.choice("ign", [False, True])
    old, oldc = E.old(uv.phase_center_id_array), copy.deepcopy(uv.phase_center_catalog)
    L = []
    for w in which if isinstance(which, list) else [which]:
        for k in ([k for k in oldc if oldc[k]["cat_name"] == w] if isinstance(w, str) else [w]):
            if k not in L:
                L.append(k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bad = E.raises(ValueError, lambda: uv.merge_phase_centers(which, force_merge=force, ignore_name=ign))
    clash = any(oldc[k]["cat_lon"] != oldc[L[0]]["cat_lon"] or (not ign and oldc[k]["cat_name"] != oldc[L[0]]["cat_name"]) for k in L)
    E.ensure("refused exactly if they differ", bad == (clash and not force))
    if bad:
        E.ensure("refusal changes nothing", uv.phase_center_catalog == oldc and E.same_array(uv.phase_center_id_array, old) is not False)
        E.ensure("refusal changes no record", E.forall((n,), lambda i: E.at(uv.phase_center_id_array, i) == E.at(old, i)))
        return
    E.ensure("exactly the merged records move", E.forall((n,), lambda i: E.at(uv.phase_center_id_array, i) == E.ite(E.Or(*[E.at(old, i) == k for k in L]), L[0], E.at(old, i))))
    E.ensure("first entry and the unrelated ones are kept as they were", uv.phase_center_catalog == {k: v for k, v in oldc.items() if k == L[0] or k not in L})
    _wf(E, uv, n)
    if not force:
        _same_dir(E, uv, n, old, oldc)


@contract("C21", funcs=[U + "split_phase_center", U + "_update_phase_center_id", U + "_add_phase_center", U + "rename_phase_center", PC + "generate_phase_center_cat_entry"], cases=150)
def split(E):
    """Splitting moves exactly the selected records of the entry to a new id with the same description."""
    uv, n = _small(E)
    mask = E.array("mask", (n,), "b")
    down = E.choice("down", [False, True])
    ident = E.choice("ident", [1, "s1"])
    new = E.choice("new", [None, 7])
    name = E.choice("name", ["fresh", None])
    old, oldc = E.old(uv.phase_center_id_array), copy.deepcopy(uv.phase_center_catalog)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bad = E.raises(ValueError, lambda: uv.split_phase_center(ident, new_name=name, select_mask=mask, new_id=new, downselect=down))
    stray = E.exists((n,), lambda i: E.And(E.at(mask, i), E.Not(E.at(old, i) == 1)))
    E.ensure("refused exactly if records of another entry are selected", E.Iff(bad, E.And(stray, not down)))
    if bad:
        E.ensure("refusal changes nothing", uv.phase_center_catalog == oldc)
        E.ensure("refusal changes no record", E.forall((n,), lambda i: E.at(uv.phase_center_id_array, i) == E.at(old, i)))
        return
    _wf(E, uv, n)
    _same_dir(E, uv, n, old, oldc)
    E.ensure("other entries stay", all(uv.phase_center_catalog.get(k) == oldc[k] for k in (0, 5)))
    sel = lambda i: E.And(E.at(mask, i), E.at(old, i) == 1)
    E.ensure("no other record moves", E.forall((n,), lambda i: E.Implies(E.Not(sel(i)), E.Or(E.at(uv.phase_center_id_array, i) == E.at(old, i)))))
    added = [k for k in uv.phase_center_catalog if k not in oldc]
    E.ensure("at most one new entry", len(added) <= 1)
    if new is not None and added:
        E.ensure("with the id asked for", added == [new])
    if name is not None:
        E.ensure("the selected records get it", E.forall((n,), lambda i: E.Implies(sel(i), E.Or(False, *[E.at(uv.phase_center_id_array, i) == k for k in added]))))
        if added:
            E.ensure("with the new name", uv.phase_center_catalog[added[0]]["cat_name"] == "fresh")


@contract("C21", funcs=[U + "_clear_unused_phase_centers", U + "_remove_phase_center"], cases=100)
def clear_unused(E):
    """Exactly the entries no record points at are removed."""
    uv, n = _small(E)
    old, oldc = E.old(uv.phase_center_id_array), copy.deepcopy(uv.phase_center_catalog)
    uv._clear_unused_phase_centers()
    for k in oldc:
        E.ensure("kept exactly if used", E.Iff(k in uv.phase_center_catalog, E.exists((n,), lambda i: E.at(old, i) == k)))
    E.ensure("kept entries unchanged", all(oldc[k] == v for k, v in uv.phase_center_catalog.items()))
    E.ensure("no record changes", E.forall((n,), lambda i: E.at(uv.phase_center_id_array, i) == E.at(old, i)))
    _wf(E, uv, n)


@contract("C21", funcs=[U + "_check_for_cat_type"], cases=60)
def cat_type_mask(E):
    """The mask marks exactly the records whose entry is of the given type(s)."""
    uv, n = _small(E)
    types = {k: E.choice(f"t{k}", ["sidereal", "unprojected", "driftscan"]) for k in (0, 1, 5)}
    for k, t in types.items():
        uv.phase_center_catalog[k]["cat_type"] = t
    q = E.choice("q", ["unprojected", ["sidereal"], ["unprojected", "driftscan"]])
    m = uv._check_for_cat_type(q)
    ks = [k for k in types if types[k] in ([q] if isinstance(q, str) else q)]
    E.ensure("mask", E.forall((n,), lambda i: E.Iff(E.at(m, i), E.Or(False, *[E.at(uv.phase_center_id_array, i) == k for k in ks]))))


@contract("C21", funcs=[U + "_consolidate_phase_center_catalogs", U + "_update_phase_center_id", U + "_add_phase_center", PC + "look_in_catalog", PC + "generate_new_phase_center_id"], cases=200)
def consolidate(E):
    """Bringing two objects to a common catalog: no record changes its description, equal descriptions get one id, different ones never share one."""
    uv, n = _small(E, ids=(0, 1))
    ref = {}
    for k, c in zip((1, 0), E.choice("ref", [["s0", "s1"], ["s1", "s0"], ["s0", "new"], ["moved s0", "s0"], ["new", "moved s1"], ["dup", "s0"]])):
        e = copy.deepcopy(uv.phase_center_catalog[0])
        if c == "s1":
            e = copy.deepcopy(uv.phase_center_catalog[1])
        elif c == "new":
            e["cat_name"], e["cat_lat"] = "new", 0.125
        elif c.startswith("moved"):
            e["cat_name"], e["cat_lat"] = c[-2:], 0.125
        elif c == "dup":
            e["cat_name"] = "dup"
        e["info_source"] = "ref"
        ref[k] = e
    ign = E.choice("ign", [False, True])
    refc = copy.deepcopy(ref)
    old, oldc = E.old(uv.phase_center_id_array), copy.deepcopy(uv.phase_center_catalog)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uv._consolidate_phase_center_catalogs(reference_catalog=ref, ignore_name=ign)
    E.ensure("reference catalog unchanged", ref == refc)
    _wf(E, uv, n)
    _same_dir(E, uv, n, old, oldc)
    if not ign:
        _same_dir(E, uv, n, old, oldc, what="and name: ", skip=("info_source",))
    strip = lambda e: {k: v for k, v in e.items() if k not in ("info_source",) + (("cat_name",) if ign else ())}
    for k, e in uv.phase_center_catalog.items():
        if k in ref:
            E.ensure("ids in common mean the same entry", strip(e) == strip(ref[k]))
        else:
            E.ensure("an entry equal to one of the reference uses its id", strip(e) not in [strip(x) for x in ref.values()])


# ------------------------------------------------------------------ bounded: histories
def _desc(e):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in e.items() if k not in ("cat_name", "info_source")}


@contract("C21", funcs=[U + "_add_phase_center", U + "_remove_phase_center", U + "_clear_unused_phase_centers", U + "rename_phase_center", U + "split_phase_center", U + "merge_phase_centers",
                        U + "_update_phase_center_id", U + "_consolidate_phase_center_catalogs", PC + "look_for_name"], mode="bounded", cases=250)
def histories(E):
    """Random sequences of up to eight catalog operations, against a list of each record's description kept outside."""
    from pyuvdata import UVData
    from pyuvdata.utils import phase_center_catalog as pcc

    r = E.rng

    def entry():
        t = r.choice(["sidereal", "sidereal", "ephem", "unprojected", "driftscan"])
        nm = r.choice(["a", "b", "c"])
        if t == "sidereal":
            pm = r.choice([None, 1.0])
            return dict(cat_name=nm, cat_type=t, cat_lon=r.choice([0.1, 0.2]), cat_lat=r.choice([0.1, -0.3]), cat_frame=r.choice(["icrs", "fk5"]), cat_epoch=2000.0, cat_pm_ra=pm, cat_pm_dec=pm, cat_dist=r.choice([None, 3.0]))
        if t == "ephem":
            k = r.choice([1, 2])
            return dict(cat_name=nm, cat_type=t, cat_lon=[0.1, 0.3][:k], cat_lat=[0.2, 0.25][:k], cat_times=[2455000.0, 2455001.0][:k], cat_frame="icrs", cat_epoch=2000.0)
        return dict(cat_name=nm, cat_type=t, **({"cat_lon": 0.4} if t == "driftscan" and r.random() < 0.5 else {}))

    def build(n):
        uv = UVData()
        uv.Nblts = n
        ids = [uv._add_phase_center(**entry(), cat_id=None) for _ in range(r.randint(1, 3))]
        uv.phase_center_id_array = np.array([r.choice(ids) for _ in range(n)])
        return uv

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uv = build(5)
        model = [(copy.deepcopy(_desc(uv.phase_center_catalog[i])), uv.phase_center_catalog[i]["cat_name"]) for i in uv.phase_center_id_array]
        log = []
        for _ in range(r.randint(1, 8)):
            op = r.choice(["add", "rename", "split", "merge", "clear", "update", "consolidate"])
            cat = uv.phase_center_catalog
            ids = list(cat)
            log.append(op)
            before, bids = copy.deepcopy(cat), uv.phase_center_id_array.copy()
            try:
                if op == "add":
                    e = entry()
                    want = r.choice([None, None, r.randrange(6)])
                    got = uv._add_phase_center(**e, cat_id=want)
                    E.ensure("an added entry is where the returned id says", uv.phase_center_catalog[got]["cat_name"] == e["cat_name"] and uv.phase_center_catalog[got]["cat_type"] == e["cat_type"])
                    E.ensure("adding changes no existing entry", all(gen.val_eq(uv.phase_center_catalog[k], before[k]) for k in before))
                    E.ensure("equal entries are not duplicated", len(uv.phase_center_catalog) == len(before) + (got not in before))
                    E.ensure("looking it up finds it", pcc.look_in_catalog(uv.phase_center_catalog, phase_dict=uv.phase_center_catalog[got])[1] == 0)
                    nm = e["cat_name"]
                    E.ensure("looking for the name finds all of that name", sorted(pcc.look_for_name(cat, nm)) == sorted(k for k in cat if cat[k]["cat_name"] == nm))
                elif op == "rename":
                    i = r.choice(ids)
                    ident = r.choice([i, cat[i]["cat_name"], [i]])
                    hit = {k for k in ids if cat[k]["cat_name"] == ident} if isinstance(ident, str) else {i}
                    nm = r.choice(["a", "b", "z"])
                    uv.rename_phase_center(ident, nm)
                    model = [(d, nm if k in hit else m) for (d, m), k in zip(model, bids)]
                elif op == "split":
                    i = r.choice(ids)
                    mine = np.nonzero(bids == i)[0]
                    m = np.array([x for x in mine if r.random() < 0.6] + ([r.randrange(5)] if r.random() < 0.2 else []), dtype=int)
                    nm = r.choice(["y", "a"])
                    down = r.random() < 0.5
                    uv.split_phase_center(i, new_name=nm, select_mask=m, downselect=down)
                    model = [(d, nm if q in m and bids[q] == i else o) for q, (d, o) in enumerate(model)]
                elif op == "merge":
                    ident = r.choice([r.choice(["a", "b"]), [r.choice(ids), r.choice(ids)]])
                    ign = r.random() < 0.5
                    uv.merge_phase_centers(ident, ignore_name=ign)
                    L = [k for k in ids if cat.get(k, before[k])["cat_name"] == ident] if isinstance(ident, str) else ident
                    if ign and len(set(L)) > 1:
                        model = [(d, before[L[0]]["cat_name"] if k in L else m) for (d, m), k in zip(model, bids)]
                elif op == "clear":
                    uv._clear_unused_phase_centers()
                    E.ensure("exactly the used entries stay", set(uv.phase_center_catalog) == set(bids.tolist()))
                elif op == "update":
                    uv._update_phase_center_id(r.choice(ids), new_id=r.choice([None, r.randrange(7)]), reserved_ids=r.choice([None, [0, 1], [2]]))
                else:
                    o = build(2)
                    oc = copy.deepcopy(o.phase_center_catalog)
                    uv._consolidate_phase_center_catalogs(other=o)
                    E.ensure("other untouched", gen.val_eq(o.phase_center_catalog, oc))
                    E.ensure("common ids mean equal entries", all(_desc(oc[k]) == _desc(uv.phase_center_catalog[k]) and oc[k]["cat_name"] == uv.phase_center_catalog[k]["cat_name"] for k in oc if k in uv.phase_center_catalog))
            except (ValueError, IndexError) as exc:
                log.append(str(exc)[:30])
                E.ensure(f"a refused operation changes nothing {log}", gen.val_eq(uv.phase_center_catalog, before) and np.array_equal(uv.phase_center_id_array, bids))
            cat = uv.phase_center_catalog
            E.ensure(f"every record points at an entry {log}", all(int(k) in cat for k in uv.phase_center_id_array))
            E.ensure(f"Nphase {log}", uv.Nphase == len(cat))
            E.ensure(f"descriptions {log}", all(gen.val_eq(_desc(cat[int(k)]), d) and cat[int(k)]["cat_name"] == m for k, (d, m) in zip(uv.phase_center_id_array, model)))


@contract("C21", funcs=[PC + "look_for_name", U + "rename_phase_center", U + "split_phase_center", U + "merge_phase_centers", U + "_update_phase_center_id"], mode="bounded", cases=800)
def identifiers(E):
    """A name or an id given by the user stands for exactly the entries that carry it: a call that names existing entries
    is carried out on those and on no others, and a call is refused exactly when it names none (or, for a split, several)
    or asks for an id that is taken."""
    from pyuvdata.utils.phase_center_catalog import look_for_name

    uv, n = _small(E)
    r = E.np_rng
    cat = uv.phase_center_catalog
    if E.choice("duplicates", [False, True]):
        for k in cat:
            cat[k]["cat_lon"] = 0.5
    for k in cat:
        cat[k]["cat_name"] = ["a", "b", "aa"][int(r.integers(0, 3))]
    before, bids = copy.deepcopy(cat), np.array(uv.phase_center_id_array)
    q = ["a", "b", "aa", "c"]
    name = E.choice("name", q)
    ids = list(cat)
    E.ensure("a name finds its entries", look_for_name(cat, name) == [k for k in ids if cat[k]["cat_name"] == name])
    L = [x for x in q if r.random() < 0.5]
    E.ensure("a list of names finds the entries of all", look_for_name(cat, L) == [k for k in ids if cat[k]["cat_name"] in L])
    op = E.choice("op", ["rename", "rename", "split", "merge", "update"])
    new = E.choice("new name", ["a", "z"])
    one = E.choice("one", ids + [99])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op == "rename":
            ident = E.choice("ident", ["name", "id", "list"])
            arg = dict(name=name, id=one, list=[ids[i] for i in r.permutation(len(ids))[: int(r.integers(1, len(ids) + 1))]] + ([99] if one == 99 else []))[ident]
            hit = [k for k in ids if before[k]["cat_name"] == arg] if ident == "name" else [arg] if ident == "id" else arg
            bad = E.raises(ValueError, lambda: uv.rename_phase_center(arg, new))
            E.ensure("refused exactly if something named does not exist", bad == (not hit or 99 in hit), detail=(arg, ids))
            want = {k: (new if k in hit and not bad else before[k]["cat_name"]) for k in ids}
            E.ensure("exactly the named entries are renamed", {k: v["cat_name"] for k, v in uv.phase_center_catalog.items()} == want)
            E.ensure("and nothing else changes", all(_desc(v) == _desc(before[k]) for k, v in uv.phase_center_catalog.items()) and np.array_equal(uv.phase_center_id_array, bids))
        elif op == "update":
            want = E.choice("wanted", [None, 0, 1, 5, 7])
            E.assume(one != 99)
            bad = E.raises(ValueError, lambda: uv._update_phase_center_id(one, new_id=want))
            E.ensure("refused exactly if the id belongs to another entry", bad == (want in ids and want != one), detail=(one, want, ids))
        elif op == "merge":
            arg = E.choice("arg", [name, [0, 1], [0, 99], [5, 1, 0]])
            hit = [k for k in ids if before[k]["cat_name"] == arg] if isinstance(arg, str) else arg
            same = len({repr(sorted((a, repr(b)) for a, b in _desc(before[k]).items())) for k in hit if k in before}) <= 1
            ign = E.choice("ignore_name", [True, False])
            names = {before[k]["cat_name"] for k in hit if k in before}
            bad = E.raises(ValueError, lambda: uv.merge_phase_centers(arg, ignore_name=ign))
            E.ensure("refused if something named does not exist or the entries differ", E.Implies(not hit or 99 in hit or not same or (len(names) > 1 and not ign), bad), detail=(arg, ids))
            if not bad:
                left = set(uv.phase_center_catalog)
                E.ensure("the entries merged become the first one", left == set(ids) - set(hit[1:]), detail=(arg, left))
                E.ensure("with the records of all", np.array_equal(uv.phase_center_id_array, np.where(np.isin(bids, hit), hit[0], bids)))
        else:
            use = E.choice("by", [name, one])
            hit = [k for k in ids if before[k]["cat_name"] == use] if isinstance(use, str) else [k for k in ids if k == use]
            want = E.choice("wanted", [None, 0, 7])
            mask = r.random(len(bids)) < 0.5
            bad = E.raises(ValueError, lambda: uv.split_phase_center(use, new_name=new, select_mask=mask, new_id=want, downselect=True))
            E.ensure("refused exactly if it names no entry, several, or a taken id", bad == (len(hit) != 1 or want in ids), detail=(use, want, ids))
            if not bad:
                moved = mask & (bids == hit[0])
                # an entry with this name and description is there already: the records join it (documented)
                joins = any(before[k]["cat_name"] == new and _desc(before[k]) == _desc(before[hit[0]]) for k in ids)
                to = uv.phase_center_id_array[moved]
                E.ensure("the selected records of it carry the new name and nothing else moves",
                         np.array_equal(np.asarray(uv.phase_center_id_array)[~moved], bids[~moved]) and all(uv.phase_center_catalog[int(k)]["cat_name"] == new for k in to) and (want is None or joins or all(to == want)), detail=(use, want, new, mask.tolist(), bids.tolist(), np.asarray(uv.phase_center_id_array).tolist(), {k: v["cat_name"] for k, v in before.items()}, {k: v["cat_name"] for k, v in uv.phase_center_catalog.items()}))
                if not joins and moved.any() and moved.sum() < (bids == hit[0]).sum():
                    E.ensure("and they get an entry of their own", set(uv.phase_center_catalog) > set(ids) and not np.isin(to, ids).any())
        if bad:
            E.ensure("a refused call changes nothing", gen.val_eq(uv.phase_center_catalog, before) and np.array_equal(uv.phase_center_id_array, bids))
