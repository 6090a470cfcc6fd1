"""C22 beam conversions."""
import warnings

import numpy as np
from pvc.reg import contract
from pvc.loops import loop
from contracts import gen

B = "pyuvdata.uvbeam.uvbeam:UVBeam."
P = "pyuvdata/uvbeam/uvbeam.py"
PAULI = [np.array([[1, 0], [0, 1]]), np.array([[1, 0], [0, -1]]), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])]


def polnum(E, a, b, xo):
    """number of the polarization of feeds a, b (independent of the code's tables)"""
    m = {"x": "x", "y": "y", "r": "r", "l": "l"}
    if xo is not None:
        m.update({"e": "x" if xo == "east" else "y", "n": "y" if xo == "east" else "x"})
    return {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4}[m[a] + m[b]]


# ------------------------------------------------------------------ bounded: public API
@contract("C22", funcs=[B + "efield_to_power", B + "_check_auto_power", B + "_fix_auto_power"], mode="bounded", cases=250)
def to_power(E):
    b = gen.uvbeam(E, beam_type="efield")
    E.assume(b.antenna_type == "simple")
    old = gen.snap(b)
    e, bas = old["data_array"], old["basis_vector_array"]
    cross, keep, inp = E.choice("cross", [True, False]), E.choice("keep", [False, True]), E.choice("inplace", [True, False])
    feeds = list(old["feed_array"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = b.efield_to_power(calc_cross_pols=cross, keep_basis_vector=keep, inplace=inp)
    if inp:
        out = b
    else:
        gen.unchanged(E, "efield beam", old, b)
    pairs = [(i, i) for i in range(len(feeds))] + ([(0, 1), (1, 0)] if cross and len(feeds) > 1 else [])
    E.ensure("labels: exactly the feed pairs", sorted(out.polarization_array.tolist()) == sorted(polnum(E, feeds[i], feeds[j], old["x_orientation"]) for i, j in pairs))
    for i, j in pairs:
        k = out.polarization_array.tolist().index(polnum(E, feeds[i], feeds[j], old["x_orientation"]))
        if keep:
            w = e[:, i] * np.conj(e[:, j])
            if cross and len(feeds) > 1:
                E.ensure("power of each vector component", np.allclose(out.data_array[:, k], np.abs(w) if i == j else w), detail=(i, j))
            else:
                E.ensure("power of each vector component", np.allclose(out.data_array[:, k], w.real), detail=(i, j))
        else:
            v = [np.einsum("v...,vc...->c...", e[:, q], np.broadcast_to(bas[:, :, None], (2, 2) + e[:, q].shape[1:])) for q in (i, j)]
            w = np.sum(v[0] * np.conj(v[1]), axis=0)
            E.ensure("power is the product of the two feeds' fields summed over directions", np.allclose(out.data_array[0, k], w.real if i == j else w), detail=(i, j, cross))
    E.ensure("type", out.beam_type == "power" and out.Npols == len(pairs) and out.Nfeeds is None)
    gen.unchanged(E, "other", old, out, skip=("data_array", "polarization_array", "Npols", "Nfeeds", "feed_array", "beam_type", "Naxes_vec", "Ncomponents_vec", "basis_vector_array", "history"))


@contract("C22", funcs=[B + "efield_to_pstokes", B + "_construct_mueller", B + "_stokes_matrix"], mode="bounded", cases=150)
def to_pstokes(E):
    b = gen.uvbeam(E, beam_type="efield", feeds=E.choice("fd", [["x", "y"], ["y", "x"], ["r", "l"], ["n", "e"]]))
    E.assume(b.antenna_type == "simple")
    old = gen.snap(b)
    e = old["data_array"]
    inp = E.choice("inplace", [True, False])
    out = b.efield_to_pstokes(inplace=inp)
    if inp:
        out = b
    else:
        gen.unchanged(E, "efield beam", old, b)
    E.ensure("labels", sorted(out.polarization_array.tolist()) == [1, 2, 3, 4])
    J = np.moveaxis(e, (0, 1), (-2, -1))
    for p in (1, 2, 3, 4):
        s = PAULI[p - 1]
        w = 0.5 * np.abs(np.einsum("ab,...bc,cd,...ad->...", s, J, s, np.conj(J)))
        k = out.polarization_array.tolist().index(p)
        E.ensure(f"pseudo-Stokes {p} is the diagonal Mueller element of each pixel's Jones matrix", np.allclose(out.data_array[0, k], w))
    E.ensure("type", out.beam_type == "power" and out.Npols == 4)
    gen.unchanged(E, "other", old, out, skip=("data_array", "polarization_array", "Npols", "Nfeeds", "feed_array", "beam_type", "Naxes_vec", "Ncomponents_vec", "basis_vector_array", "history"))


@contract("C22", funcs=[B + "peak_normalize"], mode="bounded", cases=150)
def normalize(E):
    b = gen.uvbeam(E)
    for f in range(b.Nfreqs):
        b.data_array[:, :, f] *= E.np_rng.uniform(0.1, 9)
    old = gen.snap(b)
    b.peak_normalize()
    for f in range(b.Nfreqs):
        m = np.abs(old["data_array"][:, :, f]).max()
        E.ensure("each frequency is divided by its own maximum", np.allclose(b.data_array[:, :, f], old["data_array"][:, :, f] / m))
        E.ensure("the maximum becomes one", abs(np.abs(b.data_array[:, :, f]).max() - 1) < 1e-12)
        E.ensure("the factor is recorded in the bandpass", np.isclose(b.bandpass_array[f], old["bandpass_array"][f] * m))
    E.ensure("normalization label", b.data_normalization == "peak")
    gen.unchanged(E, "other", old, b, skip=("data_array", "bandpass_array", "data_normalization"))
    E.ensure("already normalized beams are unchanged", (lambda d: (b.peak_normalize(), np.allclose(d, b.data_array, rtol=1e-13))[1])(b.data_array.copy()))


@contract("C22", funcs=[B + "get_beam_area", B + "get_beam_sq_area", B + "_get_beam"], mode="bounded", cases=120)
def areas(E):
    b = gen.uvbeam(E, beam_type="power", coords="healpix", norm="peak")
    pix = 4 * np.pi / (12 * b.nside**2)
    names = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
    for k, p in enumerate(b.polarization_array.tolist()):
        q = names[p] if E.choice(f"s{p}", [True, False]) else p
        E.ensure("area: sum over pixels of that polarization times pixel area", np.allclose(b.get_beam_area(q), b.data_array[0, k].sum(axis=-1) * pix), detail=q)
        E.ensure("squared area", np.allclose(b.get_beam_sq_area(q), (b.data_array[0, k] ** 2).sum(axis=-1) * pix), detail=q)
    missing = next(p for p in (-5, -1, 1) if p not in b.polarization_array.tolist())
    if missing != 1 or True:
        E.ensure("absent polarizations are rejected", E.raises(ValueError, lambda: b.get_beam_area(missing)))


@contract("C22", funcs=[B + "interp", B + "_interp_freq", B + "_interp_az_za_rect_spline", B + "_interp_healpix_bilinear"], mode="bounded", cases=250, conc_tl=120)
def interp_nodes(E):
    r = E.np_rng
    b = gen.uvbeam(E, naz=E.dim("naz", 5, 9), nza=E.dim("nza", 5, 7), extras=False, maxfreqs=5)
    if b.beam_type == "efield":
        b.basis_vector_array[:] = 0
        b.basis_vector_array[0, 0] = b.basis_vector_array[1, 1] = 1
    old = gen.snap(b)
    hp = b.pixel_coordinate_system == "healpix"
    if hp:
        E.assume(b.Npixels == 12)
        how = E.choice("pixel_order", ["ring", "ring", "reversed", "shuffled"])
        if how != "ring":
            q = np.arange(12)[::-1] if how == "reversed" else r.permutation(12)
            E.assume(not np.array_equal(q, np.arange(12)))
            b.pixel_array, b.data_array = b.pixel_array[q], b.data_array[..., q]
            if b.beam_type == "efield":
                b.basis_vector_array = b.basis_vector_array[..., q]
            from astropy_healpix import HEALPix

            k = int(r.integers(12))
            lon, lat = HEALPix(nside=1, order=b.ordering).healpix_to_lonlat(b.pixel_array[k])
            try:
                got = b.interp(az_array=np.array([lon.radian]), za_array=np.array([np.pi / 2 - lat.radian]))[0][..., 0]
            except ValueError:
                return
            E.ensure("pixels stored in another order: rejected or correct", np.allclose(got, b.data_array[..., k], atol=1e-8), detail=how)
            return
    # which points
    what = E.choice("what", ["points", "grid", "freq", "healpix"] if not hp else ["points", "freq", "healpix"])
    fi = None
    if what == "freq" or E.choice("freqs", [True, False]):
        fi = r.integers(b.Nfreqs, size=r.integers(1, b.Nfreqs + 1))
        if what in ("freq", "grid") or hp:
            fi = np.sort(np.unique(fi))
    kw = {}
    if fi is not None:
        kw["freq_array"] = b.freq_array[fi] + r.uniform(-0.3, 0.3, len(fi))
        if b.Nfreqs > 3 and E.choice("exactmix", [False, True]) and (b.antenna_type == "simple"):
            kw["freq_array"] = b.freq_array[fi].copy()
    fsel = np.arange(b.Nfreqs) if fi is None else fi
    D = old["data_array"][:, :, fsel]
    pols = None
    if b.beam_type == "power" and E.choice("polsub", [False, True]):
        names = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
        pi = r.permutation(b.Npols)[: r.integers(1, b.Npols + 1)]
        pols = [names[b.polarization_array[i]] for i in pi]
        if what != "freq":
            kw["polarizations"] = pols
            D = D[:, pi]
        else:
            pols = None
    new = what in ("grid", "freq", "healpix") and E.choice("new", [True, False])
    if what == "points":
        if hp:
            from astropy_healpix import HEALPix

            ip = r.integers(12, size=4)
            lon, lat = HEALPix(nside=1, order=b.ordering).healpix_to_lonlat(b.pixel_array[ip])
            kw.update(az_array=lon.radian, za_array=np.pi / 2 - lat.radian)
            want = D[..., ip]
        else:
            ia, iz = r.integers(b.Naxes1, size=4), r.integers(b.Naxes2, size=4)
            kw.update(az_array=b.axis1_array[ia], za_array=b.axis2_array[iz])
            want = D[..., iz, ia]
        kw["reuse_spline"] = E.choice("reuse", [False, True])
    elif what == "grid":
        ia, iz = np.sort(r.permutation(b.Naxes1)[: r.integers(2, b.Naxes1 + 1)]), np.sort(r.permutation(b.Naxes2)[: r.integers(2, b.Naxes2 + 1)])
        if new:
            ia, iz = np.arange(0, b.Naxes1 - 1), np.arange(1, b.Naxes2)
        kw.update(az_array=b.axis1_array[ia], za_array=b.axis2_array[iz], az_za_grid=True)
        want = D[..., iz[:, None], ia[None, :]]
        if not new:
            want = want.reshape(want.shape[:-2] + (-1,))
    elif what == "freq":
        want = D
    else:
        from astropy_healpix import HEALPix

        E.assume(hp)
        inds = np.arange(12)
        kw.update(healpix_nside=1)
        if E.choice("inds", [False, True]):
            inds = np.sort(r.permutation(12)[:5])
            kw.update(healpix_inds=inds)
        src = inds if b.ordering == "ring" else np.array([int(HEALPix(nside=1, order="nested").lonlat_to_healpix(*HEALPix(nside=1).healpix_to_lonlat(i))) for i in inds])
        want = D[..., src]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = b.interp(new_object=new, return_bandpass=not new, **kw)
    got = out.data_array if new else out[0]
    E.ensure("stored points give the stored values", got.shape == want.shape and np.allclose(got, want, atol=1e-8), detail=(what, got.shape, want.shape, new))
    bp = out.bandpass_array if new else out[2]
    E.ensure("stored frequencies give the stored bandpass", np.shape(bp) == (len(fsel),) and np.allclose(bp, old["bandpass_array"][fsel]), detail=(bp, fsel))
    if new:
        E.ensure("frequency labels", np.allclose(out.freq_array, old["freq_array"][fsel], atol=1.0) and out.Nfreqs == len(fsel))
        if b.beam_type == "power":
            E.ensure("polarization labels follow the values", np.array_equal(out.polarization_array, old["polarization_array"][pi] if pols else old["polarization_array"]) and out.Npols == len(out.polarization_array))
        if what == "healpix":
            E.ensure("pixel labels", np.array_equal(out.pixel_array, inds))
        if what == "grid":
            E.ensure("grid labels", np.array_equal(out.axis1_array, kw["az_array"]) and np.array_equal(out.axis2_array, kw["za_array"]))
    gen.unchanged(E, "source beam", old, b)


# ------------------------------------------------------------------ proofs: every pixel, frequency and feed pair
def _efield(E, nfeeds, feeds, hp=False):
    from pyuvdata import UVBeam

    b = UVBeam()
    nf = E.dim("Nfreqs", 1, 3)
    pix = (E.dim("Npix", 1, 4),) if hp else (E.dim("Nax2", 1, 3), E.dim("Nax1", 1, 3))
    b.pixel_coordinate_system = "healpix" if hp else "az_za"
    b._set_cs_params()
    b._set_efield()
    b._set_simple()
    b.antenna_type = "simple"
    b.Naxes_vec, b.Ncomponents_vec, b.Nfeeds, b.Nfreqs = 2, 2, nfeeds, nf
    if hp:
        b.Npixels = pix[0]
    else:
        b.Naxes2, b.Naxes1 = pix
    b.feed_array = np.array(feeds)
    b.x_orientation = E.choice("xo", ["east", "north"])
    b.data_array = E.array("efield", (2, nfeeds, nf) + pix, "c")
    b.basis_vector_array = E.array("basis", (2, 2) + pix, "f")
    b.history = "h"
    return b, nf, pix


def _power(E, nfeeds, cross, keep, hp):
    feeds = E.choice("feeds", [["x", "y"], ["y", "x"], ["r", "l"], ["e", "n"]])[:nfeeds]
    b, nf, pix = _efield(E, nfeeds, feeds, hp)
    e, bas = E.old(b.data_array), E.old(b.basis_vector_array)
    if E.mode == "sym":
        b._check_auto_power = lambda **k: E.note("after the product, auto polarizations are replaced by their absolute value (bounded contract to_power)")
    b.efield_to_power(calc_cross_pols=cross, keep_basis_vector=keep, run_check=False)
    pairs = [(i, i) for i in range(nfeeds)] + ([(0, 1), (1, 0)] if cross and nfeeds > 1 else [])
    E.ensure("number of polarizations", E.shape(b.polarization_array)[0] == len(pairs))
    real = not (cross and nfeeds > 1)
    for k, (i, j) in enumerate(pairs):
        E.ensure(f"label {k}", E.at(b.polarization_array, k) == polnum(E, feeds[i], feeds[j], b.x_orientation))

        def val(v, f, *px, i=i, j=j):
            if keep:
                w = E.at(e, v, i, f, *px) * E.at(e, v, j, f, *px).conjugate()
            else:
                def comp(feed, c):
                    return E.at(e, 0, feed, f, *px) * E.at(bas, 0, c, *px) + E.at(e, 1, feed, f, *px) * E.at(bas, 1, c, *px)
                w = comp(i, 0) * comp(j, 0).conjugate() + comp(i, 1) * comp(j, 1).conjugate()
            return w.real if real else w

        for v in range(2 if keep else 1):
            E.ensure_all(f"feeds {i},{j} component {v}: product of the fields", (nf,) + pix, lambda f, *px, v=v, k=k, val=val: E.eq(E.at(b.data_array, v, k, f, *px), val(v, f, *px)))
    E.ensure("power beam", b.beam_type == "power")


for _nf, _cr, _ke, _hp in [(2, True, False, False), (2, False, False, True), (1, True, False, False), (2, True, True, True), (2, False, True, False)]:
    contract("C22", funcs=[B + "efield_to_power"], name=f"power_{_nf}feeds_{'cross' if _cr else 'auto'}_{'vector' if _ke else 'scalar'}_{'healpix' if _hp else 'azza'}", cases=0)(
        lambda E, a=(_nf, _cr, _ke, _hp): _power(E, *a))


@contract("C22", funcs=[B + "_construct_mueller", B + "_stokes_matrix"], cases=40)
def mueller(E):
    from pyuvdata import UVBeam

    n = E.dim("n", 1, 4)
    J = E.array("jones", (n, 2, 2), "c")
    p, q = E.choice("p", [0, 1, 2, 3]), E.choice("q", [0, 1, 2, 3])
    out = UVBeam()._construct_mueller(jones=J, pol_index1=p, pol_index2=q)
    s, t = PAULI[p].astype(complex), PAULI[q].astype(complex)

    def want(i):
        w = 0
        for a in range(2):
            for bb in range(2):
                for c in range(2):
                    for d in range(2):
                        if s[a, bb] and t[c, d]:
                            w = w + E.at(J, i, bb, c) * E.at(J, i, a, d).conjugate() * complex(s[a, bb] * t[c, d])
        return abs(w * 0.5)

    E.ensure_all("half the absolute trace of sigma J sigma J^dagger", (n,), lambda i: E.eq(E.at(out, i), want(i)))


# peak_normalize: one loop over frequencies that updates two arrays in place
def _norm_state(E, k, init, env):
    b = env.self
    sh, (nf,) = E.shape(b.data_array), E.shape(b.bandpass_array)
    n = E.c.fresh("norm").decl().name().replace("!", "_")
    b.data_array = E.array("data_" + n, sh, "f")
    b.bandpass_array = E.array("bandpass_" + n, (nf,), "f")
    return {"self": b}


@loop(P, "UVBeam.peak_normalize", 0, state=_norm_state)
def _norm_inv(E, k, st, env):
    b = env.self
    old, bp, sh, mx = b._pv_old
    return E.And(
        E.forall(sh, lambda v, p, f, i: E.eq(E.at(b.data_array, v, p, f, i), E.ite(f < k, E.at(old, v, p, f, i) / mx(f), E.at(old, v, p, f, i)))),
        E.forall([sh[2]], lambda f: E.at(b.bandpass_array, f) == E.ite(f < k, E.at(bp, f) * mx(f), E.at(bp, f))))


@contract("C22", funcs=[B + "peak_normalize"], cases=0, sym_only=True)
def normalize_all(E):
    """Every frequency is divided by its own maximum, which multiplies its bandpass."""
    from pyuvdata import UVBeam

    b = UVBeam()
    E.opaque()
    sh = (1, 1, E.dim("Nfreqs", 1, 4), E.dim("Npix", 1, 4))
    b.Nfreqs = sh[2]
    b.data_array = E.array("data", sh, "f")
    b.bandpass_array = E.array("bandpass", (sh[2],), "f")
    b.data_normalization = "physical"
    old, bp = E.old(b.data_array), E.old(b.bandpass_array)
    # m is the peak of each frequency: an upper bound that is attained
    m, wi = E.array("peak", (sh[2],), "f"), E.array("peak_pixel", (sh[2],), "i")
    mag = lambda f, i: abs(E.at(old, 0, 0, f, i))
    E.assume(E.forall([sh[2]], lambda f: E.And(E.at(wi, f) >= 0, E.at(wi, f) < sh[3], E.at(m, f) == mag(f, E.at(wi, f)), E.at(m, f) > 0)))
    E.assume(E.forall([sh[2], sh[3]], lambda f, i: mag(f, i) <= E.at(m, f)))
    b._pv_old = (old, bp, sh, lambda f: E.at(m, f))
    b.peak_normalize()
    E.ensure("label", b.data_normalization == "peak")
    E.ensure_all("divided by the frequency's own maximum", sh, lambda v, p, f, i: E.eq(E.at(b.data_array, v, p, f, i), E.at(old, v, p, f, i) / E.at(m, f)))
    E.ensure_all("bandpass multiplied by it", (sh[2],), lambda f: E.at(b.bandpass_array, f) == E.at(bp, f) * E.at(m, f))


@contract("C22", funcs=[B + "_interp_freq"], mode="bounded", cases=250)
def interp_frequencies(E):
    """Between two frequencies every array (values, bandpass, coupling matrix) is the linear interpolation of its own two
    neighbours; the nearest kind takes the closest one; frequencies outside are rejected."""
    b = gen.uvbeam(E)
    r = E.np_rng
    n = b.Nfreqs
    if n > 1:
        b.freq_array = 1e8 + np.cumsum(r.uniform(0.5e6, 2e6, n))
        if r.random() < 0.3:
            b.freq_array = b.freq_array[::-1].copy()
    if b.antenna_type == "phased_array":
        b.coupling_matrix = b.coupling_matrix + 1j * r.normal(size=b.coupling_matrix.shape)
    b.bandpass_array = r.uniform(1, 2, n)
    k = int(r.integers(1, 5))
    f = r.uniform(b.freq_array.min(), b.freq_array.max(), k)
    if r.random() < 0.3:
        f[0] = b.freq_array[r.integers(0, n)]
    kind = E.choice("kind", ["linear", "nearest"])
    before = [b.data_array.copy(), b.bandpass_array.copy()]
    if kind == "linear" and (n == 1 or E.choice("outside", [False] * 4 + [True])):
        f[-1] = b.freq_array.max() + 1e6
        E.ensure("outside is rejected", E.raises(ValueError, lambda: b._interp_freq(f, kind=kind, tol=0.0)))
        return
    got = b._interp_freq(f, kind=kind, tol=0.0)
    w = np.zeros((k, n))
    for q, x in enumerate(f):
        if kind == "nearest":
            w[q, np.argmin(abs(b.freq_array - x))] = 1
        else:
            o = np.argsort(b.freq_array)
            g = b.freq_array[o]
            j = min(int(np.searchsorted(g, x, side="right")) - 1, n - 2)
            t = (x - g[j]) / (g[j + 1] - g[j])
            w[q, o[j]], w[q, o[j + 1]] = 1 - t, t
    want = [np.moveaxis(np.tensordot(w, b.data_array, (1, 2)), 0, 2), w @ b.bandpass_array]
    names = ["values", "bandpass"]
    if b.antenna_type == "phased_array":
        want.append(np.moveaxis(np.tensordot(w, b.coupling_matrix, (1, 4)), 0, 4))
        names.append("coupling matrix")
    E.ensure("arrays returned", len(got) == len(want), detail=(len(got), names))
    for nm, x, y in zip(names, got, want):
        E.ensure(nm, x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9), detail=kind)
    E.ensure("beam unchanged", np.array_equal(before[0], b.data_array) and np.array_equal(before[1], b.bandpass_array))


@contract("C22", funcs=[B + "_fix_auto_power", B + "_check_auto_power"], mode="bounded", cases=150)
def auto_power(E):
    """Only auto polarizations of power beams are made real, by their magnitude; cross polarizations keep their phase."""
    b = gen.uvbeam(E, beam_type="power")
    r = E.np_rng
    auto = np.array([p > 0 or p in (-1, -2, -5, -6) for p in b.polarization_array])
    imag = E.bool("imag")
    if imag:
        b.data_array = b.data_array + 1j * r.normal(size=b.data_array.shape)
    elif not auto.all():
        b.data_array = b.data_array.astype(complex)
        b.data_array[:, auto] = b.data_array[:, auto].real
    old = b.data_array.copy()
    fix = E.choice("fix", ["check", "fix", "direct"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if fix == "direct":
            b._fix_auto_power()
        elif fix == "fix":
            b._check_auto_power(fix_auto_power=True)
        else:
            bad = bool(imag and auto.any())
            raised = E.raises(ValueError, lambda: b._check_auto_power())
            E.ensure("complex autos are rejected, and only these", bool(raised) == bad)
            E.ensure("unchanged by a check", np.array_equal(old, b.data_array))
            return
    want = old.copy()
    if fix == "direct" or imag:
        want[:, auto] = np.abs(want[:, auto])
    E.ensure("autos real, crosses kept", np.allclose(b.data_array, want, rtol=1e-12, atol=0))
    if auto.all() and (fix == "direct" or imag):
        E.ensure("real array when all are autos", not np.iscomplexobj(b.data_array))
