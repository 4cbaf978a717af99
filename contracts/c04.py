"""C04: polarization parameters always reflect the current pixel data."""
from engine.spec import contract
from contracts.common import *

K = "micropol_image.MicropolImage."
U = K + "_update_data_and_Stokes"
TH = K + "_get_theo_Stokes_vec_components"


def start(B, maxn=4, dtypes=("f8",)):
    h, w = B.int("h", 1, hint=(1, maxn)), B.int("w", 1, hint=(1, maxn))
    st = B.choice("state", STATES)
    d = B.array("d", (2 * h, 2 * w), B.choice("dtype", list(dtypes)))
    return h, w, st, in_state(B, mimg(B, d), st, h, w)


@contract("C04", [K + "__init__", K + "subtract_dark", K + "correct_flat", U, TH], battery=60)
def construction(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    d, k, f = [B.array(n, (2 * h, 2 * w), "f8", lo=0) for n in ("d", "k", "f")]
    B.assume(B.red("mean", (2 * h, 2 * w), lambda y, x: B.at(f, y, x)) > 0)
    kw = {}
    if B.choice("dark", [0, 1]):
        kw["dark"] = mimg(B, k)
    if B.choice("flat", [0, 1]):
        kw["flat"] = mimg(B, f)
    ensure_current(B, mimg(B, d, **kw), "fresh", MAP, h, w, "constructed with " + "+".join(sorted(kw)))


@contract("C04", [K + "subtract_dark", K + "correct_flat", U, TH], battery=60)
def corrections(B):
    h, w, st, img = start(B)
    k = B.array("k", (2 * h, 2 * w), "f8", lo=0)
    o = B.choice("op", ["subtract_dark", "correct_flat"])
    if o == "correct_flat":
        B.assume(B.red("mean", (2 * h, 2 * w), lambda y, x: B.at(k, y, x)) > 0)
    B.method(img, o, mimg(B, k))
    ensure_current(B, img, st, MAP, h, w, o + " of a %s image" % st)


@contract("C04", [K + "correct_ifov", "processing.chen_wan_liang_calibration._ifov_jitcorrect", U, TH], battery=40)
def ifov(B):
    h, w, st, img = start(B)
    B.method(img, "correct_ifov")
    ensure_current(B, img, st, MAP, h, w, "correct_ifov of a %s image" % st)


@contract("C04", [K + "rebin", "processing.rebin.micropolarray_rebin", U, TH], battery=60)
def rebin(B):
    h, w, st, img = start(B, 8)
    b = B.int("b", 1, hint=(1, 4))
    B.assume(B.and_(b <= h, b <= w))
    r = B.method(img, "rebin", b)
    ensure_current(B, r, st, MAP, h // b, w // b, "rebin of a %s image" % st)


@contract("C04", [K + "shift", "processing.shift.shift_micropol", U, TH], battery=60)
def shift(B):
    h, w, st, img = start(B)
    y, x = B.int("y", hint=(-5, 5)), B.int("x", hint=(-5, 5))
    r = B.method(img, "shift", 2 * y, 2 * x, B.real("fill", hint=(-2, 2))) if B.choice("given", [1, 0]) else B.method(img, "shift", y, x)
    ensure_current(B, r, st, MAP, h, w, "shift of a %s image" % st)


@contract("C04", [K + n for n in ("__add__", "__sub__", "__mul__", "__truediv__")] + [U, TH], battery=160)
def arithmetic(B):
    h, w, st, img = start(B)
    o = B.choice("op", ["+", "-", "*", "/"])
    if B.choice("with", ["image", "number"]) == "image":
        e = mimg(B, B.array("e", (2 * h, 2 * w), "f8", edges=(0.0,)))
        if B.choice("second", ["fresh", "demosaiced"]) == "demosaiced":
            B.method(e, "demosaic", "mean")
    else:
        e = B.real("c", hint=(-4, 4), edges=(0.0,))
    ensure_current(B, B.op(o, img, e), st, MAP, h, w, "%s of a %s image" % (o, st))


@contract("C04", [K + "clean_hot_pixels", U, TH], battery=60)
def hot_pixels(B):
    h, w, st, img = start(B)
    f = B.array("f", (2 * h, 2 * w), "f8", lo=0, hi=1, edges=(0.0, 1.0))
    r = B.method(img, "clean_hot_pixels", mimg(B, f))
    ensure_current(B, r, st, MAP, h, w, "hot-pixel cleaning of a %s image" % st)


@contract("C04", [K + "demosaic", TH], battery=40)
def demosaicing(B):
    """demosaicing twice, and demosaicing before a copy, use the data and mode asked for last"""
    h, w, st, img = start(B)
    m = B.choice("mode", ["mean", "adjacent"])
    B.method(img, "demosaic", m)
    ensure_current(B, img, "demosaiced " + m, MAP, h, w, "demosaic %s of a %s image" % (m, st))
    c = B.call("MicropolImage", img)
    ensure_current(B, c, "demosaiced " + m, MAP, h, w, "copy of it")
    B.method(c, "subtract_dark", mimg(B, B.array("k", (2 * h, 2 * w), "f8", lo=0)))
    ensure_current(B, c, "demosaiced " + m, MAP, h, w, "dark subtracted from the copy")
