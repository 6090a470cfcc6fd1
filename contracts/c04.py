"""C04 reorderings are lossless permutations of whole entries, in the requested order."""
import numpy as np
from pvc.reg import contract
from contracts import gen
from contracts.objs import make_uvdata, snap_uvdata, UVDATA_AXES, TEL_AXES

UV = "pyuvdata.uvdata.uvdata:UVData."
UC = "pyuvdata.uvcal.uvcal:UVCal."


def moved(E, uv, old, D, axis, p, skip=()):
    """every attribute is the old one moved along `axis` by p (and untouched along all other axes)"""
    for a, (ax, _) in UVDATA_AXES.items():
        if a not in old or a in skip:
            continue
        axes = ax.split()
        got = getattr(uv, a)
        dims = [D[x] for x in axes]
        E.ensure(f"{a} keeps its shape", E.And(*[s == d for s, d in zip(E.shape(got), dims)]))
        if axis in axes:
            q = axes.index(axis)
            E.ensure_all(f"{a} moves with its entry", dims, lambda *ix: E.same(E.at(got, *ix), E.at(old[a], *[E.at(p, i) if z == q else i for z, i in enumerate(ix)])))
        else:
            E.ensure(f"{a} unchanged", E.same_array(got, old[a]))
    for a in TEL_AXES:
        if "tel." + a in old:
            E.ensure(f"telescope {a} unchanged", E.same_array(getattr(uv.telescope, a), old["tel." + a]))


def explicit(E, n):
    """an explicit order: in proofs any integer array (the code accepts it only if it is a permutation)"""
    if E.mode != "sym":
        return E.perm("p", n)
    return E.array("p", (n,), "i")


def reordered(E, f, valid):
    """run f; an order that is not a permutation may be rejected"""
    try:
        f()
    except ValueError:
        E.ensure("a permutation is accepted", not valid)
        return False
    return True


def is_perm(E, p, n):
    E.ensure("as many entries as before", E.length(p) == n)
    E.ensure_all("every entry is one of the old ones", [n], lambda i: E.And(E.at(p, i) >= 0, E.at(p, i) < n))
    E.ensure_all("no entry appears twice", [n, n], lambda i, j: E.Implies(i < j, E.at(p, i) != E.at(p, j)))


KEYS = {"time": "time_array", "ant1": "ant_1_array", "ant2": "ant_2_array", "baseline": "baseline_array"}
DEFAULT = {"time": "baseline", "ant1": "ant2", "ant2": "ant1", "baseline": "time"}


def sorted_by(E, keys, n):
    """lexicographically non-decreasing (adjacent records)"""
    def le(i):
        r = True
        for k in reversed(keys):
            a, b = E.at(k, i), E.at(k, i + 1)
            r = E.Or(a < b, E.And(a == b, r)) if r is not True else a <= b
        return r
    E.ensure_all("records are in the requested order", [n - 1], le)


def _blts(E, how):
    uv, D = make_uvdata(E, eq_coeffs=False, diam=False)
    n = D["blt"]
    uv.scan_number_array = E.arange(n)
    old = snap_uvdata(E, uv)
    if how == "explicit":
        p = explicit(E, n)
        if not reordered(E, lambda: uv.reorder_blts(p, run_check=False), E.mode != "sym"):
            return
        E.ensure_all("explicit order followed", [n], lambda i: E.at(uv.scan_number_array, i) == E.at(p, i))
        E.ensure("no order is claimed", uv.blt_order is None)
    elif how == "bda":
        uv.reorder_blts("bda", run_check=False)
        sorted_by(E, [uv.integration_time, uv.baseline_array, uv.time_array], n)
    else:
        minors = {"time": [None, "ant1", "ant2", "baseline"], "ant1": [None, "time", "ant2", "baseline"], "ant2": [None, "time", "ant1", "baseline"], "baseline": [None, "time"]}
        minor = E.choice("minor", minors[how])
        uv.reorder_blts(how, minor_order=minor, run_check=False)
        mm = minor or DEFAULT[how]
        sorted_by(E, [getattr(uv, KEYS[how]), getattr(uv, KEYS[mm])], n)
        E.ensure("reported order", tuple(uv.blt_order) == (how, mm))
    p = uv.scan_number_array
    is_perm(E, p, n)
    moved(E, uv, old, D, "blt", p)


def _mk(how):
    @contract("C04", funcs=[UV + "reorder_blts"], cases=60, timeout=150, name=f"reorder_blts_{how}")
    def f(E):
        _blts(E, how)


for _h in ("explicit", "bda", "time", "ant1", "ant2", "baseline"):
    _mk(_h)


@contract("C04", funcs=[UV + "reorder_pols", "pyuvdata.utils.pol:determine_pol_order"], cases=120, timeout=120)
def reorder_pols(E):
    uv, D = make_uvdata(E, eq_coeffs=False, diam=False, scan=False)
    old = snap_uvdata(E, uv)
    n = D["pol"]
    how = E.choice("how", ["explicit", "AIPS", "CASA"] if E.mode != "sym" else ["explicit", "AIPS"])
    order = explicit(E, n) if how == "explicit" else how
    if not reordered(E, lambda: uv.reorder_pols(order, run_check=False), E.mode != "sym" or how != "explicit"):
        return
    new, lab = uv.polarization_array, old["polarization_array"]
    E.ensure("as many polarizations", E.length(new) == n)
    if how == "explicit":
        p = order
    else:
        a = lambda i: E.ite(E.at(new, i) < 0, -E.at(new, i), E.at(new, i))
        if how == "AIPS":
            E.ensure_all("AIPS order", [n - 1], lambda i: a(i) <= a(i + 1))
        else:
            from contracts.c09 import NUM
            rank = {**{k: i for i, k in enumerate((1, 2, 3, 4))}, **{k: 10 + i for i, k in enumerate((-1, -3, -4, -2))}, **{k: 20 + i for i, k in enumerate((-5, -7, -8, -6))}}
            E.ensure("CASA order", all(rank[int(x)] < rank[int(y)] for x, y in zip(new, new[1:])), detail=new.tolist())
        # the permutation is determined by the labels, which are distinct
        E.ensure_all("every label is an old one", [n], lambda i: E.member(lab, E.at(new, i)))
        E.ensure_all("no label twice", [n, n], lambda i, j: E.Implies(i < j, E.at(new, i) != E.at(new, j)))
        for a_, (ax, _) in UVDATA_AXES.items():
            if a_ in old and "pol" in ax.split():
                if a_ == "polarization_array":
                    continue
                got = getattr(uv, a_)
                E.ensure_all(f"{a_} moves with its label", [D["blt"], D["freq"], n, n], lambda b, c, i, k: E.Implies(E.at(new, i) == E.at(lab, k), E.same(E.at(got, b, c, i), E.at(old[a_], b, c, k))))
            elif a_ in old:
                E.ensure(f"{a_} unchanged", E.same_array(getattr(uv, a_), old[a_]))
        return
    is_perm(E, p, n)
    moved(E, uv, old, D, "pol", p)


def _freqs(E, how):
    uv, D = make_uvdata(E, diam=False, scan=False, dims={"spw": E.choice("nspw", [1, 2] if E.mode != "sym" or how == "explicit" else [1])})
    n = D["freq"]
    if E.mode == "sym":
        uv.spw_array = np.array([5, 2][: D["spw"]])
        uv.flex_spw_id_array = E.array("ids", (n,), "i", pool=[5, 2]) if D["spw"] == 2 else E.full(n, 5)
    E.assume(E.forall([D["spw"]], lambda s: E.member(uv.flex_spw_id_array, E.at(uv.spw_array, s))))
    uv.channel_width = E.arange(n) + 0.0
    old = snap_uvdata(E, uv)
    if how == "explicit":
        p = explicit(E, n)
        w0 = uv.channel_width
        if not reordered(E, lambda: uv.reorder_freqs(channel_order=p, run_check=False), E.mode != "sym"):
            return
        if E.mode == "sym" and uv.channel_width is w0:
            # returned early: a strictly increasing order of 0..n-1 is the identity
            E.induct("increasing order, from below", n, lambda k: E.at(p, k) >= k)
            E.induct("increasing order, from above", n, lambda k: E.at(p, n - 1 - k) <= n - 1 - k)
    else:
        w0 = uv.channel_width
        uv.reorder_freqs(channel_order=how, spw_order=E.choice("so", [None, "number", "-number"]), run_check=False)
        if E.mode == "sym" and uv.channel_width is w0:
            E.stub("when the sorting permutation is increasing nothing is moved: that it is then the identity (an increasing permutation of 0..n-1) is used, and checked on the executions")
        elif E.mode == "sym":
            s = -1 if how == "-freq" else 1
            E.ensure_all("channels of a window are in the requested order", [n, n], lambda i, j: E.Implies(E.And(i < j, E.at(uv.flex_spw_id_array, i) == E.at(uv.flex_spw_id_array, j)), s * E.at(uv.freq_array, i) <= s * E.at(uv.freq_array, j)))
        else:
            for w in old["spw_array"]:
                f = uv.freq_array[uv.flex_spw_id_array == w] * (-1 if how == "-freq" else 1)
                E.ensure("channels are in the requested order", bool(np.all(np.diff(f) > 0)))
    q = uv.channel_width
    E.ensure("as many channels", E.length(q) == n)
    E.ensure_all("every channel is one of the old ones", [n], lambda i: E.And(E.at(q, i) >= 0, E.at(q, i) < n))
    E.ensure_all("no channel appears twice", [n, n], lambda i, j: E.Implies(i < j, E.at(q, i) != E.at(q, j)))
    if E.mode == "sym":
        if how == "explicit":
            E.ensure_all("explicit order followed", [n], lambda i: E.at(q, i) == E.at(p, i) if uv.channel_width is not w0 else E.And(E.at(p, n - 1 - (n - 1 - i)) == i))
        for a in ("data_array", "flag_array", "nsample_array", "freq_array", "flex_spw_id_array", "eq_coeffs"):
            axes = UVDATA_AXES[a][0].split()
            z = axes.index("freq")
            got = getattr(uv, a)
            dims = [D[x] for x in axes]
            E.ensure_all(f"{a} moves with its channel", dims + [n], lambda *ix, z=z, a=a, got=got: E.Implies(E.at(q, ix[z]) == ix[-1], E.same(E.at(got, *ix[:-1]), E.at(old[a], *[ix[-1] if w == z else i for w, i in enumerate(ix[:-1])]))))
        for a in ("time_array", "ant_1_array", "polarization_array", "uvw_array", "baseline_array"):
            E.ensure(f"{a} unchanged", E.same_array(getattr(uv, a), old[a]))
    else:
        p = q.astype(int)
        moved(E, uv, old, D, "freq", p, skip=("spw_array",))
    E.ensure("windows kept", E.mode == "sym" or sorted(uv.spw_array.tolist()) == sorted(set(old["flex_spw_id_array"].tolist())))


def _mkf(how):
    @contract("C04", funcs=[UV + "reorder_freqs", "pyuvdata.utils.frequency:_sort_freq_helper"], cases=60, timeout=150, name=f"reorder_freqs_{how.replace('-', 'minus_')}")
    def f(E):
        _freqs(E, how)


for _h in ("explicit", "freq", "-freq"):
    _mkf(_h)


# ------------------------------------------------------------------ public API on valid objects (bounded)
def recover(E, old_tag, new_tag, what):
    """the permutation, read off distinct tags"""
    o = list(old_tag)
    n = list(new_tag)
    E.ensure(f"{what}: same entries, once each", sorted(map(str, o)) == sorted(map(str, n)), detail=(str(o), str(n)))
    return np.array([o.index(x) for x in n], dtype=int)


def _blt_tag(s):
    return list(zip(s["time_array"].tolist(), s["ant_1_array"].tolist(), s["ant_2_array"].tolist()))


@contract("C04", funcs=[UV + "reorder_blts", UV + "reorder_freqs", UV + "reorder_pols"], mode="bounded", cases=150, conc_tl=90)
def uvdata_reorders(E):
    uv = gen.uvdata(E, phys=False)
    old = gen.snap(uv)
    n, nf, npol = uv.Nblts, uv.Nfreqs, uv.Npols
    # tags that identify every entry
    bi, fi, pi = np.arange(n), np.arange(nf), np.arange(npol)
    which = E.choice("which", ["blt", "freq", "pol"])
    rc = E.choice("run_check", [True, False])
    r = E.np_rng
    if which == "blt":
        order = E.choice("order", ["time", "baseline", "ant1", "ant2", "bda", "explicit"])
        if order == "explicit":
            p = r.permutation(n)
            uv.reorder_blts(E.choice("form", [p, p.tolist(), tuple(p.tolist())]), run_check=rc)
            bi = p
        else:
            minor = E.choice("minor", [None, "time", "baseline", "ant1", "ant2"])
            if order == "bda" or (order == "baseline" and minor in ("ant1", "ant2")):
                minor = None
            af = E.choice("af", [False, False, True])
            uv.reorder_blts(order, minor_order=minor, autos_first=af, run_check=rc)
            bi = recover(E, _blt_tag(old), _blt_tag(gen.snap(uv)), "records")
            if order == "bda":
                keys = [old["integration_time"], old["baseline_array"], old["time_array"]]
            else:
                m = minor if minor not in (None, order) else DEFAULT[order]
                keys = [old[KEYS[order]], old[KEYS[m]]]
            auto = old["ant_1_array"] != old["ant_2_array"]
            rec = [((bool(auto[i]),) if af else ()) + tuple(k[i] for k in keys) for i in bi]
            E.ensure("requested order", all(a <= b for a, b in zip(rec, rec[1:])), detail=rec)
    elif which == "pol":
        order = E.choice("order", ["AIPS", "CASA", "explicit"])
        if order == "explicit":
            pi = r.permutation(npol)
            uv.reorder_pols(pi, run_check=rc)
        else:
            uv.reorder_pols(order, run_check=rc)
            pi = recover(E, old["polarization_array"], uv.polarization_array, "pols")
            rank = {**{k: k for k in (1, 2, 3, 4)}, **{k: 10 + i for i, k in enumerate((-1, -3, -4, -2))}, **{k: 20 + i for i, k in enumerate((-5, -7, -8, -6))}}
            key = (lambda x: abs(x)) if order == "AIPS" else rank.get
            E.ensure("requested polarization order", [key(int(x)) for x in uv.polarization_array] == sorted(key(int(x)) for x in uv.polarization_array))
    else:
        ids, spws, fr = old["flex_spw_id_array"], old["spw_array"], old["freq_array"]
        so = E.choice("so", [None, "number", "-number", "freq", "-freq", "explicit"])
        co = E.choice("co", [None, "freq", "-freq", "explicit"])
        sel = E.choice("selspw", [None, None, int(r.choice(spws))])
        if co == "explicit":
            blocks = [np.nonzero(ids == s)[0] for s in spws]
            p = np.concatenate([r.permutation(b) for b in [blocks[i] for i in r.permutation(len(blocks))]])
            uv.reorder_freqs(channel_order=p, run_check=False)
            fi = p
        else:
            kw = dict(spw_order=so, channel_order=co)
            perm = r.permutation(len(spws))
            if so == "explicit":
                kw["spw_order"] = perm
            if sel is not None:
                kw["select_spw"] = sel
            uv.reorder_freqs(run_check=False, **kw)
            sp = list(range(len(spws)))
            if sel is None and so is not None:
                if so == "explicit":
                    sp = perm.tolist()
                else:
                    key = (lambda i: spws[i]) if "number" in so else (lambda i: np.median(fr[ids == spws[i]]))
                    sp = sorted(sp, key=key, reverse=so[0] == "-")
            out = []
            for i in sp:
                b = np.nonzero(ids == spws[i])[0].tolist()
                if co is not None and (sel is None or spws[i] == sel):
                    b = sorted(b, key=lambda c: fr[c], reverse=co[0] == "-")
                out += b
            fi = np.array(out)
    spw = old["spw_array"]
    new_spw = [s for i, s in enumerate(old["flex_spw_id_array"][fi]) if s not in set(old["flex_spw_id_array"][fi][:i])]
    gen.expect_uvdata(E, uv, old, bi, fi, pi, spw=new_spw if which == "freq" else None)
    if which == "freq":
        E.ensure("windows listed in channel order, once", uv.spw_array.tolist() == list(new_spw), detail=(uv.spw_array.tolist(), list(new_spw)))
    gen.fixed(E, uv, old)
    if which == "blt":
        g = gen.is_grid(uv.ant_1_array, uv.ant_2_array, uv.time_array)
        E.ensure("layout report true", not uv.blts_are_rectangular or bool(uv.time_axis_faster_than_bls) in g)


@contract("C04", funcs=[UC + "reorder_antennas", UC + "reorder_freqs", UC + "reorder_times", UC + "reorder_jones"], mode="bounded", cases=200, conc_tl=90)
def uvcal_reorders(E):
    c = gen.uvcal(E, decreasing=True)
    old, axes = gen.snap(c), gen.cal_axes(c)
    r = E.np_rng
    which = E.choice("which", ["ant", "time", "jones", "freq"])
    idx = {}
    rc = E.choice("run_check", [True, False])
    if which == "ant":
        n = c.Nants_data
        how = E.choice("how", ["number", "-number", "name", "-name", "explicit"])
        if how == "explicit":
            p = r.permutation(n)
            c.reorder_antennas(p, run_check=rc)
        else:
            names = {a: nm for a, nm in zip(old["tel.antenna_numbers"].tolist(), list(old["tel.antenna_names"]))}
            key = (lambda i: old["ant_array"][i]) if "number" in how else (lambda i: names[old["ant_array"][i]])
            p = np.array(sorted(range(n), key=key, reverse=how[0] == "-"))
            c.reorder_antennas(how, run_check=rc)
        idx = {"ant": p}
    elif which == "time":
        n = c.Ntimes
        how = E.choice("how", ["time", "-time", "explicit"])
        if how == "explicit":
            p = r.permutation(n)
            c.reorder_times(p, run_check=rc)
        else:
            t = old["time_array"] if old["time_array"] is not None else old["time_range"][:, 0]
            p = np.array(sorted(range(n), key=lambda i: t[i], reverse=how[0] == "-"))
            c.reorder_times(how, run_check=rc)
        idx = {"time": p}
    elif which == "jones":
        n = c.Njones
        how = E.choice("how", ["number", "-number", "name", "-name", "explicit"])
        if how == "explicit":
            p = r.permutation(n)
            c.reorder_jones(p, run_check=rc)
        else:
            from pyuvdata.utils import jnum2str

            if "number" in how:
                key = lambda i: old["jones_array"][i]
            else:
                nm = jnum2str(old["jones_array"].tolist(), x_orientation=c.telescope.x_orientation)
                key = lambda i: nm[i]
            p = np.array(sorted(range(n), key=key, reverse=how[0] == "-"))
            c.reorder_jones(how, run_check=rc)
        idx = {"jones": p}
    else:
        so = E.choice("so", [None, "number", "-number", "freq", "-freq", "explicit"])
        co = E.choice("co", [None, "freq", "-freq", "explicit"])
        spws = old["spw_array"]
        perm = r.permutation(len(spws))
        if c.wide_band or c.cal_type == "delay":
            c.reorder_freqs(spw_order=perm if so == "explicit" else so, run_check=rc)
            if c.Nspws == 1:
                p = np.arange(1)
            elif so == "explicit":
                p = perm
            else:
                s = so or "number"
                key = (lambda i: spws[i]) if "number" in s else (lambda i: np.mean(old["freq_range"][i]))
                p = np.array(sorted(range(len(spws)), key=key, reverse=s[0] == "-"))
            idx = {"spw": p}
        else:
            ids, fr = old["flex_spw_id_array"], old["freq_array"]
            if co == "explicit":
                blocks = [np.nonzero(ids == s)[0] for s in spws]
                p = np.concatenate([r.permutation(b) for b in [blocks[i] for i in perm]])
                c.reorder_freqs(channel_order=p, run_check=False)
            else:
                c.reorder_freqs(spw_order=perm if so == "explicit" else so, channel_order=co, run_check=False)
                sp = list(range(len(spws)))
                if so == "explicit":
                    sp = perm.tolist()
                elif so is not None:
                    key = (lambda i: spws[i]) if "number" in so else (lambda i: np.median(fr[ids == spws[i]]))
                    sp = sorted(sp, key=key, reverse=so[0] == "-")
                out = []
                for i in sp:
                    b = np.nonzero(ids == spws[i])[0].tolist()
                    if co is not None:
                        b = sorted(b, key=lambda q: fr[q], reverse=co[0] == "-")
                    out += b
                p = np.array(out)
            sp = []
            for s in ids[p]:
                if s not in sp:
                    sp.append(s)
            if len(p) == 1 and len(spws) == 1:
                p = np.arange(1)
            idx = {"freq": p, "spw": np.array([spws.tolist().index(s) for s in sp])}
    gen.expect_axes(E, c, old, axes, idx)
    for k, v in gen.snap(c).items():
        if k not in axes:
            E.ensure(f"{k} unchanged", gen.val_eq(old[k], v), detail=(str(old[k])[:200], str(v)[:200]))


@contract("C04", funcs=[UV + "reorder_blts", UV + "reorder_freqs", UV + "reorder_pols", UC + "reorder_antennas", UC + "reorder_times", UC + "reorder_jones"], mode="bounded", cases=80)
def bad_orders_rejected(E):
    """explicit orders that are not permutations are rejected and change nothing"""
    r = E.np_rng
    cls = E.choice("cls", ["uv", "cal"])
    o = gen.uvdata(E, phys=False) if cls == "uv" else gen.uvcal(E)
    old = gen.snap(o)
    m, n = E.choice("m", [("reorder_blts", "Nblts"), ("reorder_pols", "Npols"), ("reorder_freqs", "Nfreqs")] if cls == "uv" else [("reorder_antennas", "Nants_data"), ("reorder_times", "Ntimes"), ("reorder_jones", "Njones")])
    n = getattr(o, n)
    kind = E.choice("bad", ["short", "dup", "range", "long"])
    p = r.permutation(n)
    p = {"short": p[:-1], "dup": np.r_[p[:-1], p[0]], "range": p + 1, "long": np.r_[p, n]}[kind]
    E.assume(not (kind == "dup" and n == 1))
    f = (lambda: o.reorder_freqs(channel_order=p)) if m == "reorder_freqs" else (lambda: getattr(o, m)(p))
    E.ensure("rejected", E.raises(ValueError, f), detail=(m, kind, n))
    gen.unchanged(E, "rejected reorder", old, o)
