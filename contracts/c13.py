"""C13: dark subtraction and flat correction are exact for every pixel type."""
from engine.spec import contract
from contracts.common import *

K = "micropol_image.MicropolImage."


def arrs(B, *names):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    out = []
    for n, dts in names:
        out.append(B.array(n, (2 * h, 2 * w), B.choice("dt_" + n, dts)))
    return (h, w) + tuple(out)


def darked(B, s, k):
    return lambda y, x: B.max(B.real_of(B.at(s, y, x)) - B.real_of(B.at(k, y, x)), 0)


@contract("C13", [K + "subtract_dark"], battery=80)
def dark(B):
    h, w, d, k = arrs(B, ("d", ["f8", "u2", "i4"]), ("k", ["f8", "u2", "i4"]))
    s, ks = B.snap(d), B.snap(k)
    if B.choice("how", ["method", "constructor"]) == "method":
        img = history(B, mimg(B, d), h, w)
        B.method(img, "subtract_dark", mimg(B, k))
    else:
        img = mimg(B, d, dark=mimg(B, k))
    B.ensure_array(data_of(B, img), (2 * h, 2 * w), darked(B, s, ks), "max(data - dark, 0)")


def nonzero_mean(B, k, h, w):
    mean = B.red("mean", (2 * h, 2 * w), lambda y, x: B.at(k, y, x))
    B.assume(B.or_(mean > 1e-3, mean < -1e-3) if not B.symbolic else B.not_(mean == 0))
    return mean


def flatted(B, g, k, mean):
    def v(y, x):
        f = B.real_of(B.at(k, y, x))
        z = f == 0
        return B.ite(z, g(y, x), g(y, x) * mean / B.ite(z, 1, f))
    return v


@contract("C13", [K + "correct_flat"], battery=80)
def flat(B):
    h, w, d, k = arrs(B, ("d", ["f8", "u2", "i4"]), ("k", ["f8", "u2", "i4"]))
    s, ks = B.snap(d), B.snap(k)
    mean = nonzero_mean(B, ks, h, w)
    if B.choice("how", ["method", "constructor"]) == "method":
        img = history(B, mimg(B, d), h, w)
        B.method(img, "correct_flat", mimg(B, k))
    else:
        img = mimg(B, d, flat=mimg(B, k))
    B.ensure_array(data_of(B, img), (2 * h, 2 * w), flatted(B, lambda y, x: B.real_of(B.at(s, y, x)), ks, mean), "data/(flat/mean), unchanged where the flat is 0")


@contract("C13", [K + "correct_flat"], battery=40)
def flat_scale(B):
    """the flat multiplied by a constant gives the same result"""
    h, w, d, k = arrs(B, ("d", ["f8"]), ("k", ["f8"]))
    c = B.real("c", hint=(-5, 5))
    B.assume(B.or_(c > 1e-2, c < -1e-2) if not B.symbolic else B.not_(c == 0))
    ks = B.snap(k)
    nonzero_mean(B, ks, h, w)
    k2 = B.mk((2 * h, 2 * w), lambda y, x: c * B.at(ks, y, x))
    m1, m2 = [B.red("mean", (2 * h, 2 * w), lambda y, x: B.at(z, y, x)) for z in (ks, k2)]
    B.lemma(B.eq(m2, c * m1), "the mean is scaled too")
    a = mimg(B, d, flat=mimg(B, k))
    b = mimg(B, d, flat=mimg(B, k2))
    da, db = data_of(B, a), data_of(B, b)
    B.ensure_shape(da, (2 * h, 2 * w), "first")
    B.ensure_shape(db, (2 * h, 2 * w), "second")
    B.ensure_forall((2 * h, 2 * w), lambda y, x: (B.at(da, y, x), B.at(db, y, x)), "scale of the flat does not matter")


@contract("C13", [K + "__init__", K + "subtract_dark", K + "correct_flat"], battery=60)
def both(B):
    h, w, d, k, f = arrs(B, ("d", ["f8", "u2"]), ("k", ["f8", "u2"]), ("f", ["f8", "u2"]))
    s, ks, fs = B.snap(d), B.snap(k), B.snap(f)
    mean = nonzero_mean(B, fs, h, w)
    img = mimg(B, d, dark=mimg(B, k), flat=mimg(B, f))
    B.ensure_array(data_of(B, img), (2 * h, 2 * w), flatted(B, darked(B, s, ks), fs, mean), "dark first, then flat")
