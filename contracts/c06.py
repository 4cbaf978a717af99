"""C06: demosaicing places and interpolates every family correctly up to the border."""
from engine.spec import contract
from contracts.common import *

D = "processing.demosaic."


def fam_at(B, s, h, w, f):
    """sample of family f in superpixel (y, x), the last one again beyond the border"""
    j, i = POS[f]
    return lambda y, x: B.at(s, 2 * B.min(y, h - 1) + j, 2 * B.min(x, w - 1) + i)


def adjacent(B, s, h, w, f):
    g = fam_at(B, s, h, w, f)

    def v(y, x):
        Y, X = y // 2, x // 2
        a, b, c, d = g(Y, X), g(Y, X + 1), g(Y + 1, X), g(Y + 1, X + 1)
        return B.ite(y % 2 == 0, B.ite(x % 2 == 0, a, (a + b) / 2), B.ite(x % 2 == 0, (a + c) / 2, (a + b + c + d) / 4))
    return v


def size(B):
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    return h, w


def check(B, demo, s, h, w, mode):
    B.ensure_shape(demo, (4, 2 * h, 2 * w), "size")
    for f in range(4):
        j, i = POS[f]
        if mode == "mean":
            v = lambda y, x: B.at(s, 2 * (y // 2) + j, 2 * (x // 2) + i) / 4
            B.ensure_forall((2 * h, 2 * w), lambda y, x: (B.at(demo, f, y, x), v(y, x)), "family %d" % f)
        else:
            v = adjacent(B, s, h, w, f)
            for p, q in POS:
                B.ensure_forall((h, w), lambda Y, X: (B.at(demo, f, 2 * Y + p, 2 * X + q), v(2 * Y + p, 2 * X + q)), "family %d at (%d,%d)" % (f, p, q))


@contract("C06", [D + "demosaic", D + "demosaicmean"])
def mean(B):
    dt = B.choice("dtype", ["f8", "u2"])
    h, w = size(B)
    d = B.array("d", (2 * h, 2 * w), dt)
    s = B.snap(d)
    demo = B.call(D + "demosaic", d, "mean")
    check(B, demo, s, h, w, "mean")
    B.ensure_same(d, s, "input unchanged")


@contract("C06", [D + "demosaic", D + "demosaicadjacent"])
def adjacent_mode(B):
    dt = B.choice("dtype", ["f8", "u2"])
    h, w = size(B)
    d = B.array("d", (2 * h, 2 * w), dt)
    s = B.snap(d)
    demo = B.call(D + "demosaic", d, "adjacent") if B.choice("given", [True, False]) else B.call(D + "demosaic", d)
    check(B, demo, s, h, w, "adjacent")
    B.ensure_same(d, s, "input unchanged")


@contract("C06", ["micropol_image.MicropolImage.demosaic", D + "demosaic"])
def image(B):
    mode = B.choice("mode", ["mean", "adjacent"])
    h, w = size(B)
    d = B.array("d", (2 * h, 2 * w), "f8")
    s = B.snap(d)
    img = mimg(B, d)
    r = B.method(img, "demosaic", mode)
    check(B, B.attr(r, "demosaiced_images"), s, h, w, mode)
    B.ensure_same(data_of(B, r), s, "data kept")
    B.ensure_same(d, s, "input unchanged")


@contract("C06", [D + "demosaic", "micropol_image.MicropolImage.demosaic"])
def unknown_mode(B):
    h, w = size(B)
    d = B.array("d", (2 * h, 2 * w), "f8")
    m = B.choice("mode", ["nearest", "", "Mean", "adjacents"])
    B.raises("ValueError", D + "demosaic", d, m)
    B.method_raises("ValueError", mimg(B, d), "demosaic", m)
