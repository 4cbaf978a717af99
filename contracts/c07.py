"""C07: shifting moves every pixel by the requested amount and fills the rest."""
from engine.spec import contract
from contracts.common import *

S = "processing.shift."


def moved(B, s, h, w, y, x, fill):
    inb = lambda j, i: B.and_(j - y >= 0, j - y < h, i - x >= 0, i - x < w)
    return lambda j, i: B.ite(inb(j, i), B.at(s, j - y, i - x), fill)


def inputs(B, two=False):
    h, w = B.int("h", 1, hint=(1, 7)), B.int("w", 1, hint=(1, 7))
    y, x = B.int("y", hint=(-9, 9)), B.int("x", hint=(-9, 9))
    return h, w, y, x


@contract("C07", ["image.Image.shift", S + "shift"])
def plain_shift(B):
    dt = B.choice("dtype", ["f8", "u2", "i4"])
    h, w, y, x = inputs(B)
    fill = B.real("fill", hint=(-5, 5), edges=(0.0,))
    d = B.array("d", (h, w), dt)
    s = B.snap(d)
    r = B.method(plain(B, d), "shift", y, x, fill)
    B.ensure_array(data_of(B, r), (h, w), moved(B, s, h, w, y, x, fill), "shifted pixels")
    B.ensure_same(d, s, "input unchanged")


@contract("C07", ["image.Image.shift", S + "shift"])
def plain_default_fill(B):
    dt = B.choice("dtype", ["f8", "u2"])
    h, w, y, x = inputs(B)
    d = B.array("d", (h, w), dt)
    s = B.snap(d)
    r = B.method(plain(B, d), "shift", y, x)
    B.ensure_array(data_of(B, r), (h, w), moved(B, s, h, w, y, x, 0), "shifted pixels, zero fill")


@contract("C07", ["micropol_image.MicropolImage.shift", S + "shift_micropol", S + "shift"])
def micropol_shift(B):
    dt = B.choice("dtype", ["f8", "u2"])
    h, w, y, x = inputs(B)
    fill = B.real("fill", hint=(-5, 5), edges=(0.0,))
    d = B.array("d", (2 * h, 2 * w), dt)
    s = B.snap(d)
    r = B.method(history(B, mimg(B, d), h, w), "shift", y, x, fill)
    out = data_of(B, r)
    B.ensure_shape(out, (2 * h, 2 * w), "size")
    for f in range(4):
        j, i = POS[f]
        B.ensure_forall((h, w), lambda Y, X: (B.at(out, 2 * Y + j, 2 * X + i), B.ite(B.and_(Y - y >= 0, Y - y < h, X - x >= 0, X - x < w), B.at(s, 2 * (Y - y) + j, 2 * (X - x) + i), fill)), "family %d" % f)
    B.ensure_same(d, s, "input unchanged")


@contract("C07", [S + "shift_micropol", S + "shift"])
def functions(B):
    h, w, y, x = inputs(B)
    fill = B.real("fill", hint=(-5, 5), edges=(0.0,))
    k = B.choice("kind", [1, 2])
    d = B.array("d", (k * h, k * w), B.choice("dtype", ["f8", "i2"]))
    s = B.snap(d)
    if k == 1:
        B.ensure_array(B.call(S + "shift", d, y, x, fill), (h, w), moved(B, s, h, w, y, x, fill), "shifted pixels")
    else:
        m = lambda Y, X: B.ite(B.and_(Y // 2 - y >= 0, Y // 2 - y < h, X // 2 - x >= 0, X // 2 - x < w), B.at(s, Y - 2 * y, X - 2 * x), fill)
        B.ensure_array(B.call(S + "shift_micropol", d, y, x, fill), (2 * h, 2 * w), m, "shifted pixels per family")
    B.ensure_same(d, s, "input unchanged")
