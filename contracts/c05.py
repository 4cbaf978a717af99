"""C05: rebinning sums exactly the right pixels, trims trailing rows/columns only."""
from engine.spec import contract
from contracts.common import *

R = "processing.rebin."


@contract("C05", ["image.Image.rebin", R + "standard_rebin", R + "standard_jitrebin", R + "trim_to_match_binning"])
def plain_rebin(B):
    dt = B.choice("dtype", ["f8", "u2", "i4"])
    b = B.int("b", 1, hint=(1, 4))
    h, w = B.int("h", 1, hint=(1, 14)), B.int("w", 1, hint=(1, 14))
    d = B.array("d", (h, w), dt)
    s = B.snap(d)
    img = plain(B, d)
    r = B.method(img, "rebin", b)
    out = B.attr(r, "data")
    B.ensure_array(out, (h // b, w // b), lambda y, x: B.sum2(b, b, lambda i, j: B.at(s, b * y + i, b * x + j)), "block sums")
    B.ensure_same(d, s, "input unchanged")


MR = ["micropol_image.MicropolImage.rebin", R + "micropolarray_rebin", R + "micropolarray_jitrebin", R + "trim_to_match_2xbinning"]


def family_sums(B, dt, used):
    b = B.int("b", 1, hint=(1, 4))
    h, w = B.int("h", 1, hint=(1, 9)), B.int("w", 1, hint=(1, 9))
    d = B.array("d", (2 * h, 2 * w), dt)
    s = B.snap(d)
    img = mimg(B, d)
    if used:
        history(B, img, h, w, HISTORY[1:] if not B.symbolic else HISTORY[2:3])
    r = B.method(img, "rebin", b)
    out = B.attr(r, "data")
    B.ensure_shape(out, (2 * (h // b), 2 * (w // b)), "size")
    for f in range(4):
        j, i = POS[f]
        B.ensure_forall((h // b, w // b), lambda y, x: (B.at(out, 2 * y + j, 2 * x + i), B.sum2(b, b, lambda p, q: B.at(s, 2 * (b * y + p) + j, 2 * (b * x + q) + i))), "family %d sums" % f)


@contract("C05", MR)
def micropol_rebin(B):
    family_sums(B, B.choice("dtype", ["f8", "u2"]), False)


@contract("C05", MR)
def micropol_rebin_signed(B):
    family_sums(B, "i4", False)


@contract("C05", MR)
def micropol_rebin_used(B):
    """an image that has been demosaiced or demodulated before"""
    family_sums(B, "f8", True)


@contract("C05", ["image.Image.rebin", "micropol_image.MicropolImage.rebin"])
def bad_binning(B):
    b = B.int("b", None, 0, hint=(-5, 0))
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    d = B.array("d", (2 * h, 2 * w), "f8")
    B.method_raises("ValueError", plain(B, d), "rebin", b)
    B.method_raises("ValueError", mimg(B, d), "rebin", b)


@contract("C05", [R + "standard_rebin", R + "micropolarray_rebin"])
def functions(B):
    b = B.int("b", 1, hint=(1, 4))
    h, w = B.int("h", 1, hint=(1, 9)), B.int("w", 1, hint=(1, 9))
    d = B.array("d", (2 * h, 2 * w), "f8")
    s = B.snap(d)
    if B.choice("kind", ["plain", "micropol"]) == "plain":
        out = B.call(R + "standard_rebin", d, b)
        B.ensure_array(out, ((2 * h) // b, (2 * w) // b), lambda y, x: B.sum2(b, b, lambda i, j: B.at(s, b * y + i, b * x + j)), "block sums")
    else:
        out = B.call(R + "micropolarray_rebin", d, b)
        B.ensure_array(out, (2 * (h // b), 2 * (w // b)), lambda y, x: B.sum2(b, b, lambda p, q: B.at(s, 2 * (b * (y // 2) + p) + y % 2, 2 * (b * (x // 2) + q) + x % 2)), "family sums")
    B.ensure_same(d, s, "input unchanged")
