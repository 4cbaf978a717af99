"""C21: the field-of-view and Chen-Wan-Liang corrections act on the right superpixels."""
from engine.spec import contract
from contracts.common import *

M = "processing.chen_wan_liang_calibration."
IFOV = M + "_ifov_jitcorrect"
CORR = "micropol_image.MicropolImage.correct_ifov"
CWL = M + "chen_wan_liang_calibration"


def ensure_ifov(B, out, src, h, w, what):
    """out (2h x 2w) is the field-of-view correction of src(y, x)"""
    B.ensure_shape(out, (2 * h, 2 * w), what)
    for p, q in POS:
        def val(y, x):
            Y, X = 2 * y + p, 2 * x + q
            inner = B.and_(y > 0, x > 0)
            if B.symbolic or inner:
                m = (src(Y, X) + src(Y - 2, X) + src(Y, X - 2) + src(Y - 2, X - 2)) / 4
            else:
                m = 0
            return B.at(out, Y, X), B.ite(inner, m, 0)
        B.ensure_forall((h, w), val, "%s: pixel (%d,%d) of every superpixel" % (what, p, q))


@contract("C21", [IFOV], battery=100)
def ifov_function(B):
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (2 * h, 2 * w), B.choice("dtype", ["f8", "i4", "i2"]))
    s = B.snap(d)
    out = B.call(IFOV, d, 2 * h, 2 * w)
    ensure_ifov(B, out, lambda y, x: B.real_of(B.at(s, y, x)), h, w, "correction")
    B.ensure_same(d, s, "input unchanged")
    B.ensure_unshared(out, d, "result is a new array")


@contract("C21", [IFOV], battery=60)
def ifov_unsigned(B):
    """unsigned data (sums of four camera counts do not overflow)"""
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (2 * h, 2 * w), B.choice("dtype", ["u1", "u2"]))
    s = B.snap(d)
    out = B.call(IFOV, d, 2 * h, 2 * w)
    ensure_ifov(B, out, lambda y, x: B.real_of(B.at(s, y, x)), h, w, "correction")


@contract("C21", [CORR, IFOV], battery=80)
def correct_ifov(B):
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (2 * h, 2 * w), B.choice("dtype", ["f8", "u2"]))
    s = B.snap(d)
    img = mimg(B, d)
    r = B.method(img, "correct_ifov")
    for im, what in ((r, "returned image"), (img, "the image itself")):
        ensure_ifov(B, data_of(B, im), lambda y, x: B.real_of(B.at(s, y, x)), h, w, what)
    ensure_current(B, img, "fresh", MAP, h, w, "Stokes components")


@contract("C21", [CWL, IFOV], battery=80)
def chen_wan_liang(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    d = B.array("d", (2 * h, 2 * w), B.choice("dtype", ["f8", "u2", "i4"]))
    s = B.snap(d)
    C = {}
    for i in range(4):
        for j in range(4):
            C[i, j] = B.array("C%d%d" % (i, j), (2 * h, 2 * w), "f8", hint=(-3, 3))
            B.put_fits("cal/C%d%d.fits" % (i, j), C[i, j])
    off = B.array("off", (2 * h, 2 * w), "f8")
    B.put_fits("cal/d_ij.fits", off)
    out = B.call(CWL, d, B.path("cal") if B.choice("form", [0, 1]) else "cal")

    def cal(Y, X, y, x, p, q):
        """pixel (p, q) of superpixel (y, x) after the calibration; (Y, X) its own position"""
        k = 2 * p + q
        t = 0
        for j, (a, b) in enumerate(POS):
            t = t + B.at(C[k, j], 2 * y, 2 * x) * (B.real_of(B.at(s, 2 * y + a, 2 * x + b)) - B.at(off, 2 * y + a, 2 * x + b))
        return t
    B.ensure_shape(out, (2 * h, 2 * w), "size")
    for p, q in POS:
        def val(y, x):
            inner = B.and_(y > 0, x > 0)
            g = lambda a, b: cal(None, None, y - a, x - b, p, q)
            m = (g(0, 0) + g(1, 0) + g(0, 1) + g(1, 1)) / 4 if B.symbolic or inner else 0
            return B.at(out, 2 * y + p, 2 * x + q), B.ite(inner, m, 0)
        B.ensure_forall((h, w), val, "pixel (%d,%d) of every superpixel" % (p, q))
    B.ensure_same(d, s, "input unchanged")
