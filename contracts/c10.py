"""C10: loading a demodulator reads each matrix element from its own file."""
from engine.spec import contract
from contracts.common import *

PR = "processing.demodulation."
FNS = [PR + "Demodulator.__init__", PR + "Demodulator._get_demodulation_tensor"]
IJ = [(i, j) for i in range(3) for j in range(4)]
DIRS = ["tensor", "run_11/cal.v2_20"]
STYLES = ["M%d%d.fits", "m%d%d.fits", "mat_%d%d_new.fits"]


def fill(B, where, style, skip=(), dt="f8"):
    """the element files in folder `where`; their contents"""
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    B.mkdir(where)
    out = {}
    for i, j in IJ:
        a = B.array("m%d%d" % (i, j), (h, w), dt)
        out[i, j] = B.snap(a)
        if (i, j) not in skip:
            B.put_fits("%s/%s" % (where, style % (i, j)), a)
    return h, w, out


OTHERS = ["efficiences.fits", "phases.fits", "zz_chisq.fits", "Aa.fits", "fit_found_flag_old.fits", "old_fit_found_flag.fits", "fit_found.fits", "fit_found_flag.1.fits"]


def extras(B, where, h, w):
    """other files of a calibration folder"""
    for n in OTHERS:
        B.put_fits("%s/%s" % (where, n), B.array("x_" + n[:-5], (h, w), "f8"))
    B.put_text("%s/M_notes_33.txt" % where)
    B.mkdir("%s/covariance_tensor" % where)
    B.put_fits("%s/covariance_tensor/C00.fits" % where, B.array("cov", (h, w), "f8"))


def check(B, where, h, w, el, flag):
    D = B.call(PR + "Demodulator", B.path(where))
    m = B.attr(D, "mij")
    B.ensure_shape(m, (3, 4, h, w), "tensor")
    for i, j in IJ:
        B.ensure_forall((h, w), lambda y, x: (B.at(m, i, j, y, x), B.at(el[i, j], y, x)), "element (%d, %d) is the content of its file" % (i, j))
    f = B.attr(D, "fit_found_flags")
    B.ensure(B.isnone(f) == (flag is None), "fit marks only where a file of them is")
    if flag is not None:
        B.ensure_same(f, flag, "fit marks are the content of their file")


def put_flags(B, where, h, w):
    if not B.choice("flags", [True, False]):
        return None
    f = B.array("fit", (h, w), "f8", lo=0, hi=1, edges=(0.0, 1.0, 1.0))
    s = B.snap(f)
    B.put_fits(where + "/fit_found_flag.fits", f)
    return s


@contract("C10", FNS, battery=100)
def complete(B):
    where, style = B.choice("dir", DIRS), B.choice("style", STYLES)
    h, w, el = fill(B, where, style, dt="f8")
    flag = put_flags(B, where, h, w)
    if B.choice("extras", [False, True]):
        extras(B, where, h, w)
    B.listing_order()
    check(B, where, h, w, el, flag)


@contract("C10", FNS, battery=60)
def any_first_or_last(B):
    """every file listed first, and last"""
    where = "tensor"
    h, w, el = fill(B, where, "M%d%d.fits", dt="f8")
    flag = put_flags(B, where, h, w)
    extras(B, where, h, w)
    pins = ["M%d%d.fits" % ij for ij in IJ] + ["fit_found_flag.fits"] + OTHERS
    B.listing_order(pin=B.choice("pin", pins))
    check(B, where, h, w, el, flag)


@contract("C10", FNS, battery=60)
def other_pixel_types(B):
    dt = B.choice("dtype", ["f4", "i2", "i4"])
    where = "tensor"
    h, w, el = fill(B, where, "M%d%d.fits", dt=dt)
    flag = put_flags(B, where, h, w)
    check(B, where, h, w, el, flag)


@contract("C10", FNS, battery=100)
def element_missing(B):
    lost = B.choice("lost", IJ)
    where, style = DIRS[sum(lost) % 2], STYLES[sum(lost) % 3]
    h, w, el = fill(B, where, style, skip=(lost,))
    B.put_fits(where + "/fit_found_flag.fits", B.array("fit", (h, w), "f8", lo=0, hi=1))
    other = B.choice("other", ["none", "extras", "duplicate"])
    if other == "extras":
        extras(B, where, h, w)
    elif other == "duplicate":
        i, j = IJ[(IJ.index(lost) + 1) % 12]
        B.put_fits("%s/copy_%d%d.fits" % (where, i, j), B.array("dup", (h, w), "f8"))
    B.listing_order()
    B.raises("Exception", PR + "Demodulator", B.path(where))


@contract("C10", FNS, battery=60)
def subset_missing(B):
    """only some of the elements are there"""
    kept = B.choice("kept", [IJ[:1], IJ[:4], IJ[4:], IJ[:8], IJ[:11], IJ[1:], IJ[::2], [(0, 0), (2, 3)]])
    fill(B, "tensor", "M%d%d.fits", skip=[x for x in IJ if x not in kept])
    B.listing_order()
    B.raises("Exception", PR + "Demodulator", B.path("tensor"))


@contract("C10", FNS, battery=60)
def nothing_there(B):
    what = B.choice("what", ["no folder", "empty", "no fits", "no elements"])
    if what != "no folder":
        B.mkdir("tensor")
    if what == "no fits":
        B.put_text("tensor/M00.txt")
    if what == "no elements":
        extras(B, "tensor", B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4)))
    B.raises("Exception", PR + "Demodulator", B.path("tensor"))
