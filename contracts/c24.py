"""C24: resizing interpolates linearly with fixed corners, family by family."""
from engine.spec import contract
from contracts.common import *


def bilinear(B, g, h, w, nh, nw):
    """bilinear interpolation of g (h x w) at nh x nw equally spaced positions"""
    def v(y, x):
        Y, X = y * B.real_of(h - 1) / (nh - 1), x * B.real_of(w - 1) / (nw - 1)
        j, i = B.min(B.max(B.trunc(Y), 0), h - 2), B.min(B.max(B.trunc(X), 0), w - 2)
        fy, fx = Y - j, X - i
        top = g(j, i) * (1 - fx) + g(j, i + 1) * fx
        bot = g(j + 1, i) * (1 - fx) + g(j + 1, i + 1) * fx
        return top * (1 - fy) + bot * fy
    return v


C = "processing.congrid.congrid"


@contract("C24", [C])
def corners(B):
    dt = B.choice("dtype", ["f8", "u2"])
    h, w = B.int("h", 2, hint=(2, 6)), B.int("w", 2, hint=(2, 6))
    nh, nw = B.int("nh", 2, hint=(2, 7)), B.int("nw", 2, hint=(2, 7))
    d = B.array("d", (h, w), dt)
    s = B.snap(d)
    r = B.call(C, d, [nh, nw] if B.choice("form", [0, 1]) else (nh, nw))
    B.ensure_shape(r, (nh, nw), "size")
    for a in (0, 1):
        for b in (0, 1):
            B.ensure_eq(B.at(r, a * (nh - 1), b * (nw - 1)), B.at(s, a * (h - 1), b * (w - 1)), "corner (%d,%d)" % (a, b))
    B.ensure_same(d, s, "input unchanged")


@contract("C24", [C])
def interpolation(B):
    h, w = B.int("h", 2, hint=(2, 6)), B.int("w", 2, hint=(2, 6))
    nh, nw = B.int("nh", 2, hint=(2, 7)), B.int("nw", 2, hint=(2, 7))
    d = B.array("d", (h, w), "f8")
    s = B.snap(d)
    r = B.call(C, d, [nh, nw])
    B.ensure_array(r, (nh, nw), bilinear(B, lambda y, x: B.at(s, y, x), h, w, nh, nw), "bilinear samples")


@contract("C24", [C])
def identity(B):
    h, w = B.int("h", 2, hint=(2, 6)), B.int("w", 2, hint=(2, 6))
    d = B.array("d", (h, w), "f8")
    s = B.snap(d)
    B.ensure_same(B.call(C, d, [h, w]), s, "same size: unchanged")


@contract("C24", ["micropol_image.MicropolImage.congrid", C])
def image(B):
    h, w = B.int("h", 2, hint=(2, 5)), B.int("w", 2, hint=(2, 5))
    nh, nw = B.int("nh", 2, hint=(2, 6)), B.int("nw", 2, hint=(2, 6))
    oy, ox = B.choice("oddy", [0, 1]), B.choice("oddx", [0, 1])
    d = B.array("d", (2 * h, 2 * w), "f8")
    s = B.snap(d)
    img = history(B, mimg(B, d), h, w)
    r = B.method(img, "congrid", 2 * nh + oy, 2 * nw + ox)
    out = data_of(B, r)
    B.ensure_shape(out, (2 * nh, 2 * nw), "size, odd dimensions reduced")
    for f in range(4):
        j, i = POS[f]
        v = bilinear(B, lambda y, x: B.at(s, 2 * y + j, 2 * x + i), h, w, nh, nw)
        B.ensure_forall((nh, nw), lambda y, x: (B.at(out, 2 * y + j, 2 * x + i), v(y, x)), "family %d interpolated on its own" % f)
    B.ensure_same(d, s, "input unchanged")
