"""C22: hot-pixel detection and cleaning act on the flagged pixels, within their family."""
from engine.spec import contract
from contracts.common import *

G = "processing.image_cleaning.get_hot_pixels"
K = "micropol_image.MicropolImage.clean_hot_pixels"
U = "micropol_image.MicropolImage.single_pol_subimages"
MG = "processing.demosaic.merge_polarizations"


def median_of(B, s, h, w, f, y, x):
    """median of the 2x2 neighbourhood of the sample (y, x) of family f, borders reflected"""
    j, i = POS[f]
    y0, x0 = B.max(y - 1, 0), B.max(x - 1, 0)
    g = lambda a, b: B.at(s, 2 * a + j, 2 * b + i)
    return B.median4(g(y0, x0), g(y0, x), g(y, x0), g(y, x))


def image(B, name, dtype, **kw):
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    return h, w, B.array(name, (2 * h, 2 * w), dtype, **kw)


@contract("C22", [G, U, MG], battery=120)
def detection(B):
    dt = B.choice("dtype", ["f8", "u2", "i4", "u1"])
    h, w, d = image(B, "d", dt, edges=(0, 1, 3, 40, 200))
    t = B.real("threshold", hint=(-1, 2), edges=(0.5, 0.0, 0.99, 100.0))
    s = B.snap(d)
    img = history(B, mimg(B, d), h, w)
    r = B.call(G, img, t) if B.choice("form", [0, 1]) else B.call(G, img, threshold=t)
    out = data_of(B, r)
    B.ensure_shape(out, (2 * h, 2 * w), "size of the map")
    for f in range(4):
        j, i = POS[f]

        def val(y, x):
            p, m = B.real_of(B.at(s, 2 * y + j, 2 * x + i)), B.real_of(median_of(B, s, h, w, f, y, x))
            ok = B.not_(p + m == 0)
            if not B.symbolic and not ok:
                return True if p != m else B.at(out, 2 * y + j, 2 * x + i) == 0
            c = (p - m) / B.ite(ok, p + m, 1)
            if not B.symbolic and abs(c - t) < 1e-9:
                return True
            return B.implies(ok, B.eq(B.at(out, 2 * y + j, 2 * x + i), B.ite(c > t, 1, 0)))
        B.ensure_forall((h, w), val, "map of family %d: 1 exactly where the contrast exceeds the threshold" % f)
    B.ensure_same(data_of(B, img), s, "image unchanged")
    B.ensure_same(d, s, "pixels unchanged")


@contract("C22", [K, U, MG], battery=120)
def cleaning(B):
    dt = B.choice("dtype", ["f8", "u2", "i4"])
    mt = B.choice("map dtype", ["f8", "i8"])
    h, w, d = image(B, "d", dt)
    f0 = B.array("map", (2 * h, 2 * w), mt, edges=(0, 1, 1, 2))
    s, m = B.snap(d), B.snap(f0)
    img = history(B, mimg(B, d), h, w)
    flags = mimg(B, f0)
    r = B.method(img, "clean_hot_pixels", flags)
    out = data_of(B, r)
    B.ensure_shape(out, (2 * h, 2 * w), "size")
    for f in range(4):
        j, i = POS[f]
        val = lambda y, x: B.ite(B.eq(B.at(m, 2 * y + j, 2 * x + i), 1), B.real_of(median_of(B, s, h, w, f, y, x)), B.real_of(B.at(s, 2 * y + j, 2 * x + i)))
        B.ensure_forall((h, w), lambda y, x: (B.at(out, 2 * y + j, 2 * x + i), val(y, x)), "family %d: flagged pixels replaced by the median, the others kept" % f)
    B.ensure_same(data_of(B, img), s, "image unchanged")
    B.ensure_same(data_of(B, flags), m, "map unchanged")


@contract("C22", [G, K, U, MG], battery=60)
def detection_then_cleaning(B):
    """the map of an image cleans that image"""
    h, w, d = image(B, "d", "f8", lo=1)
    t = B.real("threshold", 0, hint=(0, 1), edges=(0.2, 0.5))
    s = B.snap(d)
    img = history(B, mimg(B, d), h, w)
    out = data_of(B, B.method(img, "clean_hot_pixels", B.call(G, img, t)))
    for f in range(4):
        j, i = POS[f]

        def val(y, x):
            p, m = B.real_of(B.at(s, 2 * y + j, 2 * x + i)), B.real_of(median_of(B, s, h, w, f, y, x))
            if not B.symbolic and abs((p - m) / (p + m) - t) < 1e-9:
                return True
            return B.implies(p + m > 0, B.eq(B.at(out, 2 * y + j, 2 * x + i), B.ite((p - m) > t * (p + m), m, p)))
        B.ensure_forall((h, w), val, "family %d: hot pixels become the median, the others stay" % f)
