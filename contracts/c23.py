"""C23 reported record order and regularity; axis-value tests."""
import numpy as np
from pvc.loops import loop
from pvc.reg import contract
from contracts import gen

B = "pyuvdata.utils.bltaxis:"
T = "pyuvdata.utils.tools:"
F = "pyuvdata.utils.frequency:"


# ------------------------------------------------------------------ determine_blt_order
def _adj(E, env, keys):
    """records i, i+1 are in (non-decreasing) lexicographic order of the keys"""
    arrs = {"time": env["time_array"], "baseline": env["baseline_array"], "ant1": env["ant_1_array"], "ant2": env["ant_2_array"]}

    def at(i):
        out = None
        for k in reversed(keys):
            x, y = E.at(arrs[k], i), E.at(arrs[k], i + 1)
            out = (x <= y) if out is None else E.Or(x < y, E.And(x == y, out))
        return out

    return at


FLAGS = [("time_bl", ("time", "baseline")), ("bl_time", ("baseline", "time")), ("time_a", ("time", "ant1")), ("a_time", ("ant1", "time")),
         ("time_b", ("time", "ant2")), ("b_time", ("ant2", "time")), ("bl_order", ("baseline",)), ("a_order", ("ant1",)), ("b_order", ("ant2",)), ("time_order", ("time",))]


@loop("pyuvdata/utils/bltaxis.py", "determine_blt_order", 0)
def _blt_inv(E, k, st, env):
    """every still-true flag describes the first k+1 records"""
    return E.And(*[E.Implies(getattr(st, f), E.forall([k], _adj(E, env, keys))) for f, keys in FLAGS])


@contract("C23", funcs=[B + "determine_blt_order"], cases=400, timeout=200)
def blt_order_true(E):
    from pyuvdata.utils.bltaxis import determine_blt_order

    n = E.dim("n", 1, 6)
    nb, nt = E.int("Nbls", lo=1, hi=None if E.mode == "sym" else 3), E.int("Ntimes", lo=1, hi=None if E.mode == "sym" else 3)
    hi = None if E.mode == "sym" else 3
    kw = dict(time_array=E.array("t", (n,), "f", lo=0, hi=hi), ant_1_array=E.array("a1", (n,), "i", lo=0, hi=hi),
              ant_2_array=E.array("a2", (n,), "i", lo=0, hi=hi))
    if E.mode == "sym":
        kw["baseline_array"] = E.array("bl", (n,), "i", lo=0)
        E.assume(E.Implies(E.And(nb == 1, nt == 1), n == 1))
        E.stub("Nbls and Ntimes count the distinct baselines and times, so Nbls == Ntimes == 1 only for one record")
    else:
        t, a, b = kw["time_array"], kw["ant_1_array"], kw["ant_2_array"]
        if E.choice("layout", ["any", "sorted", "grid"]) != "any":
            keys = E.choice("keys", [k for _, k in FLAGS])
            m = {"time": t, "ant1": a, "ant2": b, "baseline": 10 * a + b}
            o = np.lexsort([m[k] for k in reversed(keys)])
            kw.update(time_array=t[o], ant_1_array=a[o], ant_2_array=b[o])
        kw["baseline_array"] = 10 * kw["ant_1_array"] + kw["ant_2_array"]
        nb, nt = len(set(kw["baseline_array"])), len(set(kw["time_array"]))
        if nb == nt == 1:
            E.assume(n == 1)
    r = determine_blt_order(Nbls=nb, Ntimes=nt, **kw)
    E.ensure("a known order or none", r is None or r in [k for _, k in FLAGS])
    if r is not None:
        E.ensure_all("records are in the reported order", [n - 1], _adj(E, kw, r))


# ------------------------------------------------------------------ determine_rectangularity
@contract("C23", funcs=[B + "determine_rectangularity"], cases=900, timeout=120)
def rectangular_true(E):
    """A reported grid is a grid: flat index i*fast+j has the slow label of i and the fast label of j."""
    from pyuvdata.utils.bltaxis import determine_rectangularity

    nb, nt = E.dim("nbls", 1, 4), E.dim("ntimes", 1, 4)
    if E.mode == "sym":
        n = E.dim("n")
    else:
        n = nb * nt if E.choice("full", [True, True, False]) else E.dim("n", 1, 9)
    t = E.array("t", (n,), "f", lo=0, hi=None if E.mode == "sym" else nt - 1)
    bl = E.array("bl", (n,), "i", lo=0, hi=None if E.mode == "sym" else nb - 1)
    if E.mode != "sym":
        k = E.choice("layout", ["any", "tfast", "blfast"])
        if k != "any" and n == nb * nt:
            i = np.arange(n)
            tp, bp = E.np_rng.permutation(nt), E.np_rng.permutation(nb)
            t, bl = (tp[i % nt] * 1.0, bp[i // nt]) if k == "tfast" else (tp[i // nb] * 1.0, bp[i % nb])
            # nearly a grid: the labels of one row, or two single records, are exchanged
            pert = E.choice("pert", ["none", "row", "swap t", "swap bl"])
            f = nt if k == "tfast" else nb
            t, bl = t.copy(), bl.copy()
            if pert == "row":
                r = int(E.np_rng.integers(0, n // f)) * f
                q = r + E.np_rng.permutation(f)
                t[r : r + f], bl[r : r + f] = t[q], bl[q]
            elif pert != "none":
                x = t if pert == "swap t" else bl
                a, b = E.np_rng.integers(0, n, 2)
                x[[a, b]] = x[[b, a]]
        nb, nt = len(set(bl)), len(set(t))
    order = E.choice("order", [None, ("time", "baseline"), ("baseline", "time"), ("ant1", "time")])
    if E.mode == "sym":
        E.assume(E.Implies(nb == 1, E.forall([n], lambda i: E.at(bl, i) == E.at(bl, 0))))
        E.assume(E.Implies(nt == 1, E.forall([n], lambda i: E.at(t, i) == E.at(t, 0))))
        E.stub("nbls and ntimes count the distinct baselines and times (a count of 1 means constant)")
    rect, tfast = determine_rectangularity(time_array=t, baseline_array=bl, nbls=nb, ntimes=nt, blt_order=order)
    rect, tfast = bool(rect), bool(tfast)
    if rect:
        E.ensure("size", n == nb * nt)
        if tfast:
            E.induct("rows repeat the times", nb, lambda i, j: E.at(t, i * nt + j) == E.at(t, j), [nt])
            E.induct("rows keep the baseline", nt, lambda j, i: E.at(bl, i * nt + j) == E.at(bl, i * nt), [nb])
        else:
            E.induct("rows keep the time", nb, lambda j, i: E.at(t, i * nb + j) == E.at(t, i * nb), [nt])
            E.induct("rows repeat the baselines", nt, lambda i, j: E.at(bl, i * nb + j) == E.at(bl, j), [nb])
    else:
        E.ensure("no fast axis without a grid", not tfast)


@contract("C23", funcs=[B + "determine_rectangularity"], cases=300, mode="bounded")
def rectangular_found(E):
    """Every grid is reported, with its fast axis."""
    from pyuvdata.utils.bltaxis import determine_rectangularity

    nb, nt = E.dim("nbls", 1, 4), E.dim("ntimes", 1, 4)
    n = nb * nt
    T_ = E.array("T", (nt,), "f", lo=0, hi=None if E.mode == "sym" else 9, distinct=True)
    B_ = E.array("B", (nb,), "i", lo=0, hi=None if E.mode == "sym" else 9, distinct=True)
    tf = E.choice("fast", ["time", "baseline"])
    if E.mode == "sym":
        t, bl = E.array("t", (n,), "f"), E.array("bl", (n,), "i")
        f, s = (nt, nb) if tf == "time" else (nb, nt)
        lt = (lambda i, j: E.at(T_, j)) if tf == "time" else (lambda i, j: E.at(T_, i))
        lb = (lambda i, j: E.at(B_, i)) if tf == "time" else (lambda i, j: E.at(B_, j))
        E.assume(E.forall([s, f], lambda i, j: E.And(E.at(t, i * f + j) == lt(i, j), E.at(bl, i * f + j) == lb(i, j))))
        E.assume(E.forall([s, f], lambda i, j: E.Implies(i + 1 < s, E.And(E.at(t, i * f + f + j) == lt(i + 1, j), E.at(bl, i * f + f + j) == lb(i + 1, j)))))
        E.assume(E.forall([s, f], lambda i, j: E.Implies(j + 1 < f, E.And(E.at(t, i * f + j + 1) == lt(i, j + 1), E.at(bl, i * f + j + 1) == lb(i, j + 1)))))
        # instances for the two records the function inspects first
        for i, j in ((0, 0), (0, 1), (1, 0)):
            E.assume(E.Implies(E.And(s > i, f > j), E.And(E.at(t, i * f + j) == lt(i, j), E.at(bl, i * f + j) == lb(i, j))))
    else:
        i = np.arange(n)
        t, bl = (T_[i % nt], B_[i // nt]) if tf == "time" else (T_[i // nb], B_[i % nb])
    rect, tfast = determine_rectangularity(time_array=t, baseline_array=bl, nbls=nb, ntimes=nt, blt_order=None)
    E.ensure("grid is reported", rect)
    if tf == "time":
        E.ensure("time is the fast axis", E.Or(tfast, nt == 1))
    else:
        E.ensure("baseline is the fast axis", E.Or(E.Not(tfast), nb == 1))


# ------------------------------------------------------------------ tests on axis values
@contract("C23", funcs=[T + "_test_array_constant", T + "_test_array_constant_spacing"], cases=400)
def constant_tests(E):
    from pyuvdata.utils.tools import _test_array_constant, _test_array_constant_spacing

    n = E.dim("n", 1, 6)
    hi = None if E.mode == "sym" else 3
    a = E.array("a", (n,), "f", lo=0, hi=hi)
    rtol, atol = E.choice("tol", [(0, 0), (0, 1e-3), (1e-3, 0), (1e-5, 2.0)])
    which = E.choice("which", ["value", "spacing"])
    if which == "value":
        r = _test_array_constant(a, tols=(rtol, atol))
        m, lab = n, lambda i: E.at(a, i)
    else:
        r = _test_array_constant_spacing(a, tols=(rtol, atol))
        m, lab = n - 1, lambda i: E.at(a, i + 1) - E.at(a, i)
    r = bool(r)
    if rtol == 0:
        # exactly: all pairs within atol
        if r:
            E.ensure_all("constant: all pairs agree", [m, m], lambda i, j: E.And(lab(i) - lab(j) <= atol, lab(j) - lab(i) <= atol))
        else:
            E.ensure("not constant: some pair differs", E.exists([m, m], lambda i, j: lab(i) - lab(j) > atol))
    else:
        # numpy's relative criterion |min - max| <= atol + rtol |max|
        mx = lambda q: E.forall([m], lambda i: lab(i) <= lab(q))
        mn = lambda q: E.forall([m], lambda i: lab(i) >= lab(q))
        ab = lambda x: E.ite(x < 0, -x, x)
        ok = E.exists([m, m], lambda p, q: E.And(mn(p), mx(q), lab(q) - lab(p) <= atol + rtol * ab(lab(q))))
        if E.mode == "sym":
            if r:
                E.ensure_all("constant: every pair within tolerance of the largest", [m, m, m], lambda i, j, q: E.Implies(mx(q), lab(i) - lab(j) <= atol + rtol * ab(lab(q))))
            else:
                E.ensure("not constant", E.exists([m, m], lambda p, q: lab(q) - lab(p) > atol + rtol * ab(lab(q))))
        else:
            E.ensure("tolerance criterion", r == bool(ok) or m <= 1)


@loop("pyuvdata/utils/tools.py", "_check_range_overlap", 0)
def _overlap_inv(E, k, st, env):
    s = env["sorted_ranges"]
    return E.forall([k], lambda i: E.at(s, i + 1, 0) >= E.at(s, i, 1))


@contract("C23", funcs=[T + "_check_range_overlap"], cases=300)
def range_overlap(E):
    from pyuvdata.utils.tools import _check_range_overlap

    n = E.dim("n", 1, 4)
    r = E.array("r", (n, 2), "f", lo=0, hi=None if E.mode == "sym" else 9)
    if E.mode != "sym" and E.choice("well", [True, True, False]):
        r = np.sort(r, axis=1)
    bad = E.exists([n], lambda i: E.at(r, i, 1) < E.at(r, i, 0))
    ov = lambda i, j: E.And(E.at(r, i, 0) < E.at(r, j, 1), E.at(r, j, 0) < E.at(r, i, 1))
    E.assume(E.forall([n], lambda i: E.at(r, i, 1) != E.at(r, i, 0)))
    try:
        res = _check_range_overlap(r)
    except ValueError:
        E.ensure("rejected only when a range is reversed", bad)
        return
    E.ensure("reversed ranges are rejected", E.Not(bad))
    if res:
        E.ensure("reported overlap exists", E.exists([n, n], lambda i, j: E.And(i != j, ov(i, j))))
    else:
        E.ensure_all("no overlap missed", [n, n], lambda i, j: E.Implies(i != j, E.Not(ov(i, j))))


@contract("C23", funcs=[F + "_check_flex_spw_contiguous", F + "_check_freq_spacing"], mode="bounded", cases=400)
def freq_spacing(E):
    """Verdicts equal a direct evaluation of the definition, window by window."""
    from pyuvdata.utils import frequency

    r = E.np_rng
    nspw = E.dim("nspw", 1, 3)
    spws = r.choice(np.arange(9), nspw, replace=False)
    f, w, ids = [], [], []
    for s in spws:
        m = E.dim(f"n{s}", 1, 4)
        cw = float(r.integers(1, 4))
        d = -1 if r.random() < 0.4 else 1
        x = 100.0 * s + d * cw * np.arange(m)
        wi = np.full(m, cw)
        k = E.choice(f"how{s}", ["ok", "ok", "ok", "gap", "width", "sep", "near"])
        if k == "gap" and m > 2:
            x[-1] += d * 2.0
        elif k == "width" and m > 1:
            wi[r.integers(m)] += 1.0
        elif k == "sep":
            x = 100.0 * s + d * 2 * cw * np.arange(m)
        elif k == "near":
            x = x + r.uniform(-1e-4, 1e-4, m)
        f.append(x), w.append(wi), ids.append(np.full(m, s))
    f, w, ids = map(np.concatenate, (f, w, ids))
    mix = E.choice("mix", [False, False, True])
    if mix:
        ids = r.permutation(ids)
    ft, ct = (0, 1e-3), (0, 1e-3)
    inter = 1 + np.count_nonzero(np.diff(ids)) != nspw
    kw = dict(freq_array=f, freq_tols=ft, channel_width=w, channel_width_tols=ct, spw_array=r.permutation(spws), flex_spw_id_array=ids)
    before = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    E.ensure("interleaved windows rejected exactly", E.raises(ValueError, lambda: frequency._check_freq_spacing(raise_errors=False, **kw)) == inter)
    if inter:
        return
    sp = cwe = False
    for s in spws:
        x, wi = f[ids == s], w[ids == s]
        if len(x) > 1:
            d = np.diff(x)
            close = [abs(abs(v) - max(d) + min(d)) for v in (0,)]
            E.assume(all(abs(abs(q) - 1e-3) > 1e-9 for q in (max(d) - min(d), max(wi) - min(wi))))
            if max(d) - min(d) > 1e-3 or max(wi) - min(wi) > 1e-3:
                sp = True
            sgn = -1 if all(d < 0) else 1
            dev = np.abs(d - sgn * np.mean(wi))
            E.assume(np.all(np.abs(dev - 1e-3) > 1e-9))
            if max(wi) - min(wi) <= 1e-3 and np.any(dev > 1e-3):
                cwe = True
    got = frequency._check_freq_spacing(raise_errors=False, **kw)
    E.ensure("verdicts follow the definition", tuple(bool(x) for x in got) == (sp, cwe), detail=(got, sp, cwe, f.tolist(), w.tolist(), ids.tolist()))
    E.ensure("errors raised exactly when bad", E.raises(ValueError, lambda: frequency._check_freq_spacing(raise_errors=True, **kw)) == (sp or cwe))
    for k, v in before.items():
        E.ensure(f"{k} unmodified", np.array_equal(v, kw[k]))


# ------------------------------------------------------------------ object level
@contract("C23", funcs=["pyuvdata.uvdata.uvdata:UVData.determine_blt_order", "pyuvdata.uvdata.uvdata:UVData.set_rectangularity", "pyuvdata.uvdata.uvdata:UVData.reorder_blts",
                        "pyuvdata.uvdata.uvdata:UVData.select", "pyuvdata.uvdata.uvdata:UVData.conjugate_bls"], mode="bounded", cases=250, conc_tl=100)
def reports_after_edits(E):
    """After any history of operations, blt_order and rectangularity (where reported) are true."""
    uv = gen.uvdata(E, both=True, phys=True, maxbl=4)
    gen.true_reports(E, uv, "fresh: ")
    g = gen.is_grid(uv.ant_1_array, uv.ant_2_array, uv.time_array)
    E.ensure("set_rectangularity finds every grid", bool(uv.blts_are_rectangular) == bool(g))
    r = E.np_rng
    for k in range(E.dim("steps", 1, 3)):
        op = E.choice(f"op{k}", ["reorder", "reorder-array", "select", "conj", "order?", "add", "setrect", "bda"])
        if op == "reorder":
            order = E.choice(f"o{k}", ["time", "baseline", "ant1", "ant2"])
            minor = E.choice(f"m{k}", [None] + [x for x in ("time", "baseline", "ant1", "ant2") if x != order])
            if {order, minor} in ({"baseline", "ant1"}, {"baseline", "ant2"}):
                continue  # documented as conflicting
            uv.reorder_blts(order, minor_order=minor, run_check=False)
            E.ensure("requested order reported and true", gen.is_sorted_by(uv, (order,) + ((minor,) if minor else ())), detail=(order, minor))
        elif op == "bda":
            uv.reorder_blts("bda", run_check=False)
        elif op == "reorder-array":
            uv.reorder_blts(r.permutation(uv.Nblts), run_check=False)
        elif op == "select":
            m = r.random(uv.Nblts) < 0.7
            if m.any():
                uv.select(blt_inds=np.nonzero(m)[0], run_check=False)
        elif op == "conj":
            if uv.Npols in (2, 3):
                continue
            uv.conjugate_bls(E.choice(f"c{k}", ["ant1<ant2", "ant2<ant1"]), use_enu=False)
        elif op == "order?":
            o = uv.determine_blt_order()
            E.ensure("determined order is true", o is None or gen.is_sorted_by(uv, o), detail=(o, uv.time_array.tolist(), uv.baseline_array.tolist()))
        elif op == "add":
            m = r.random(uv.Nblts) < 0.5
            if m.any() and not m.all():
                a = uv.select(blt_inds=np.nonzero(m)[0], inplace=False, run_check=False)
                b = uv.select(blt_inds=np.nonzero(~m)[0], inplace=False, run_check=False)
                uv = b.fast_concat(a, "blt", run_check=False)
        else:
            uv.set_rectangularity(force=True)
            g = gen.is_grid(uv.ant_1_array, uv.ant_2_array, uv.time_array)
            E.ensure("set_rectangularity finds every grid", bool(uv.blts_are_rectangular) == bool(g))
        gen.true_reports(E, uv, f"after {op}: ")
