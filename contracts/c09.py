"""C09 polarization naming algebra.  The domain of names/numbers is finite: E.choice enumerates
it completely in proof mode (one path per case), so the scalar contracts are complete case analyses."""
import itertools

import numpy as np
from pvc.reg import contract

# specification tables (AIPS memo 117 numbering)
NUM = {"pI": 1, "pQ": 2, "pU": 3, "pV": 4, "rr": -1, "ll": -2, "rl": -3, "lr": -4, "xx": -5, "yy": -6, "xy": -7, "yx": -8}
ALIAS = {"I": 1, "Q": 2, "U": 3, "V": 4, "hh": -5, "vv": -6, "hv": -7, "vh": -8}
JNUM = {"Jrr": -1, "Jll": -2, "Jrl": -3, "Jlr": -4, "Jxx": -5, "Jyy": -6, "Jxy": -7, "Jyx": -8}
JALIAS = {"xx": -5, "x": -5, "yy": -6, "y": -6, "xy": -7, "yx": -8, "rr": -1, "r": -1, "ll": -2, "l": -2, "rl": -3, "lr": -4}
CONJ = {1: 1, 2: 2, 3: 3, 4: 4, -1: -1, -2: -2, -3: -4, -4: -3, -5: -5, -6: -6, -7: -8, -8: -7}
ORI = [None, "east", "north", "e", "n", "ew", "ns", "EAST", "North", "E", "NS"]
P = "pyuvdata.utils.pol:"


def is_east(o):
    return o.lower() in ("east", "e", "ew")


def rot(name, o):
    """physical (e/n) spelling of an x/y name for an orientation"""
    if o is None:
        return name
    m = {"x": "e", "y": "n"} if is_east(o) else {"x": "n", "y": "e"}
    return "".join(m.get(ch, ch) for ch in name)


@contract("C09", funcs=[P + "polstr2num", P + "polnum2str", P + "parse_polstr"], cases=200, max_paths=4000)
def pol_roundtrip(E):
    from pyuvdata.utils import pol as up

    o = E.choice("ori", ORI)
    num = E.choice("num", sorted(NUM.values()))
    name = {v: k for k, v in NUM.items()}[num]
    s = up.polnum2str(num, x_orientation=o)
    E.ensure("name", s == rot(name, o))
    E.ensure("inverse", up.polstr2num(s, x_orientation=o) == num)
    E.ensure("x/y names accepted", up.polstr2num(name, x_orientation=o) == num)
    E.ensure("numpy ints", up.polnum2str(np.int64(num), x_orientation=o) == s)
    for v in (s.upper(), s.lower(), s.capitalize(), s.swapcase()):
        E.ensure("case-insensitive", up.polstr2num(v, x_orientation=o) == num)
        E.ensure("parse", up.parse_polstr(v, x_orientation=o) == s)


@contract("C09", funcs=[P + "polstr2num", P + "parse_polstr"], cases=100)
def pol_alias(E):
    from pyuvdata.utils import pol as up

    o = E.choice("ori", ORI)
    a = E.choice("alias", sorted(ALIAS))
    E.ensure("alias number", up.polstr2num(a, x_orientation=o) == ALIAS[a])
    E.ensure("alias upper", up.polstr2num(a.upper(), x_orientation=o) == ALIAS[a])
    E.ensure("canonical", up.parse_polstr(a, x_orientation=o) == up.polnum2str(ALIAS[a], x_orientation=o))


@contract("C09", funcs=[P + "jstr2num", P + "jnum2str", P + "parse_jpolstr"], cases=150)
def jones_roundtrip(E):
    from pyuvdata.utils import pol as up

    o = E.choice("ori", ORI)
    num = E.choice("num", sorted(JNUM.values()))
    name = {v: k for k, v in JNUM.items()}[num]
    s = up.jnum2str(num, x_orientation=o)
    E.ensure("name", s == "J" + rot(name[1:], o))
    E.ensure("inverse", up.jstr2num(s, x_orientation=o) == num)
    for v in (s.upper(), s.lower(), s.swapcase()):
        E.ensure("case-insensitive", up.jstr2num(v, x_orientation=o) == num)
        E.ensure("parse", up.parse_jpolstr(v, x_orientation=o) == s)
    for a, q in JALIAS.items():
        if q == num:
            E.ensure("alias", up.jstr2num(a, x_orientation=o) == num)
            if o is not None:
                E.ensure("physical alias", up.jstr2num(rot(a, o), x_orientation=o) == num)


@contract("C09", funcs=[P + "polstr2num", P + "polnum2str", P + "jstr2num", P + "jnum2str", P + "conj_pol", P + "x_orientation_pol_map"], cases=200)
def rejects_unknown(E):
    from pyuvdata.utils import pol as up

    good_n = set(NUM.values())
    bad = E.choice("badnum", [0, 5, 6, 10, -9, -10, 100, -100])
    bads = E.choice("badstr", ["", "foo", "xz", "x y", "xxx", "pi2", "ee", "nn", "en", "xx "])
    o = E.choice("ori", [None, "east", "north"])
    E.ensure("polnum2str", E.raises((KeyError, ValueError), lambda: up.polnum2str(bad, x_orientation=o)))
    if bad > 0 or bad < -8 or bad == 0:
        E.ensure("jnum2str", E.raises((KeyError, ValueError), lambda: up.jnum2str(bad, x_orientation=o)))
    if o is None or bads not in ("ee", "nn", "en"):
        E.ensure("polstr2num", E.raises((KeyError, ValueError), lambda: up.polstr2num(bads, x_orientation=o)))
        E.ensure("jstr2num", E.raises((KeyError, ValueError), lambda: up.jstr2num(bads, x_orientation=o)))
        E.ensure("list", E.raises((KeyError, ValueError), lambda: up.polstr2num(["xx", bads], x_orientation=o)))
    E.ensure("orientation map", E.raises(ValueError, lambda: up.x_orientation_pol_map("up")))
    E.ensure("not a pol", E.raises((ValueError, TypeError), lambda: up.polstr2num(5)) and E.raises((ValueError, TypeError), lambda: up.conj_pol(1.5)))
    E.ensure("conj", E.raises((KeyError, ValueError), lambda: up.conj_pol("zz")))


@contract("C09", funcs=[P + "conj_pol"], cases=80)
def conjugation(E):
    from pyuvdata.utils import pol as up

    num = E.choice("num", sorted(NUM.values()))
    name = {v: k for k, v in NUM.items()}[num]
    cname = {v: k for k, v in NUM.items()}[CONJ[num]]
    E.ensure("number", up.conj_pol(num) == CONJ[num])
    E.ensure("numpy number", up.conj_pol(np.int64(num)) == CONJ[num] and up.conj_pol(np.int32(num)) == CONJ[num])
    E.ensure("name", up.conj_pol(name) == cname)
    E.ensure("involution", up.conj_pol(up.conj_pol(num)) == num and up.conj_pol(up.conj_pol(name)) == name)
    E.ensure("case", up.conj_pol(name.upper()) == cname)
    for o in ("east", "north"):
        phys = rot(name, o)
        if num < -4 or num > 0 or num > -5:
            E.ensure("physical names", up.conj_pol(phys) == rot(cname, o))
    if num > 0:
        E.ensure("stokes short", up.conj_pol(name[1]) == name[1])


FAM = [(-5, -6, -7, -8), (-1, -2, -3, -4), (1, 2, 3, 4)]
SEQS = [p for f in FAM for L in (1, 2, 3, 4) for p in itertools.permutations(f, L)]


@contract("C09", funcs=[P + "polstr2num", P + "polnum2str", P + "conj_pol", P + "jnum2str", P + "jstr2num"], cases=200)
def sequences(E):
    """lists, tuples and arrays are translated element by element."""
    from pyuvdata.utils import pol as up

    seq = E.choice("seq", SEQS)
    o = E.choice("ori", [None, "east", "north"])
    inv = {v: k for k, v in NUM.items()}
    names = [rot(inv[n], o) for n in seq]
    for form in (list, tuple, np.array):
        r = up.polnum2str(form(seq), x_orientation=o)
        E.ensure("numbers to names", list(r) == names)
        r.append("junk")  # a result must be the caller's own
        E.ensure("results are independent", list(up.polnum2str(form(seq), x_orientation=o)) == names)
        r = up.polstr2num(form(names), x_orientation=o)
        E.ensure("names to numbers", list(r) == list(seq))
        r[0] = 99
        E.ensure("results are independent (numbers)", list(up.polstr2num(form(names), x_orientation=o)) == list(seq))
        E.ensure("conj", [int(x) for x in up.conj_pol(form(seq))] == [CONJ[n] for n in seq])
        if seq[0] < 0:
            j = up.jnum2str(form(seq), x_orientation=o)
            E.ensure("jones", list(j) == ["J" + x for x in names] and list(up.jstr2num(form(j), x_orientation=o)) == list(seq))


@contract("C09", funcs=[P + "reorder_conj_pols", P + "determine_pol_order"], cases=200)
def orders(E):
    from pyuvdata.utils import pol as up

    seq = E.choice("seq", SEQS)
    form = E.choice("form", [list, np.array])
    n = len(seq)
    if all(CONJ[x] in seq for x in seq):
        r = up.reorder_conj_pols(form(seq))
        E.ensure("permutation", sorted(int(i) for i in r) == list(range(n)))
        E.ensure("pairs conjugates", all(CONJ[seq[int(r[i])]] == seq[i] for i in range(n)))
    else:
        E.ensure("missing conjugate rejected", E.raises(ValueError, lambda: up.reorder_conj_pols(form(seq))))
    for order in ("AIPS", "CASA"):
        ix = [int(i) for i in up.determine_pol_order(form(seq), order=order)]
        E.ensure("order is a permutation", sorted(ix) == list(range(n)))
        got = [seq[i] for i in ix]
        if order == "AIPS":
            E.ensure("AIPS", got == sorted(seq, key=abs))
        else:
            casa = [1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6]
            E.ensure("CASA", got == sorted(seq, key=casa.index))
    E.ensure("bad order", E.raises(ValueError, lambda: up.determine_pol_order(form(seq), order="foo")))


@contract("C09", funcs=[P + "x_orientation_pol_map", P + "_x_orientation_rep_dict"], cases=40)
def orientation(E):
    from pyuvdata.utils import pol as up

    o = E.choice("ori", ORI[1:])
    E.ensure("map", up.x_orientation_pol_map(o) == ({"x": "e", "y": "n"} if is_east(o) else {"x": "n", "y": "e"}))
    E.ensure("bijection", len(set(up.x_orientation_pol_map(o).values())) == 2)


@contract("C09", funcs=[P + "conj_pol", P + "POL_TO_FEED_DICT"], cases=40)
def feed_table(E):
    """feeds of a polarization are the letters of its name; the conjugate has them exchanged."""
    from pyuvdata.utils import pol as up

    names = ["xx", "yy", "xy", "yx", "ee", "nn", "en", "ne", "rr", "ll", "rl", "lr"]
    p = E.choice("p", names)
    E.ensure("feeds", list(up.POL_TO_FEED_DICT[p]) == [p[0], p[1]])
    E.ensure("conjugate feeds", list(up.POL_TO_FEED_DICT[up.conj_pol(p)]) == [p[1], p[0]])


@contract("C09", funcs=["pyuvdata.uvdata.initializers:new_uvdata", "pyuvdata.uvcal.initializers:new_uvcal", "pyuvdata.uvbeam.initializers:new_uvbeam"], mode="bounded", cases=60)
def named_objects(E):
    """objects constructed from polarization names carry the same integer arrays as from numbers"""
    import warnings

    from astropy.coordinates import EarthLocation
    from pyuvdata import Telescope, UVBeam, UVCal, UVData

    warnings.simplefilter("ignore")
    circ = E.bool("circ")
    ori = E.choice("ori", [None, "east", "north"])
    nums = [-1, -2, -3, -4] if circ else [-5, -6, -7, -8]
    n = E.int("n", 1, 4)
    nums = [nums[i] for i in E.perm("pn", 4)][:n]
    full = {v: k for k, v in NUM.items()}
    jfull = {v: k for k, v in JNUM.items()}
    phys = E.bool("phys")
    box = E.choice("box", [list, tuple, np.array])
    case = E.choice("case", [str, str.upper])
    names = box([case(rot(full[i], ori) if phys else full[i]) for i in nums])
    jnames = box([case(rot(jfull[i], ori) if phys else jfull[i]) for i in nums])
    tel = Telescope.new(name="t", location=EarthLocation.from_geodetic(10, 20, 30), instrument="t", x_orientation=ori,
                        antenna_positions={0: np.zeros(3), 1: np.array([1.0, 2.0, 3.0])}, antenna_names=["a", "b"])
    t = np.array([2457000.5])
    f = np.linspace(1e8, 1.1e8, 3)

    given = E.bool("given")

    def uvd(p):
        return UVData.new(freq_array=f, polarization_array=p, x_orientation=ori if given else None, antpairs=[(0, 1)], times=t, telescope=tel, empty=True, integration_time=2.0, do_blt_outer=True)

    def uvc(p):
        return UVCal.new(gain_convention="divide", cal_style="redundant", time_array=t, freq_array=f, integration_time=2.0, telescope=tel, jones_array=p, cal_type="gain", empty=True)

    def uvb(p):
        return UVBeam.new(telescope_name="t", data_normalization="physical", freq_array=f, polarization_array=p, x_orientation=ori, axis1_array=np.deg2rad(np.linspace(0, 330, 12)), axis2_array=np.deg2rad(np.linspace(0, 90, 4)), data_array=np.ones((1, len(nums), 3, 4, 12), dtype=complex if set(nums) & {-3, -4, -7, -8} else float))

    for lab, mk, nm, attr in [("UVData", uvd, names, "polarization_array"), ("UVCal", uvc, jnames, "jones_array"), ("UVBeam", uvb, names, "polarization_array")]:
        if lab == "UVCal" and ori is None:  # a UVCal object needs an orientation
            continue
        by_name, by_num = getattr(mk(nm), attr), getattr(mk(np.array(nums)), attr)
        E.ensure(f"{lab}: an integer array", isinstance(by_name, np.ndarray) and by_name.dtype.kind == "i", f"{type(by_name)}")
        E.ensure(f"{lab}: named like numbered", list(by_name) == list(by_num) == nums, f"{by_name} {nums}")
