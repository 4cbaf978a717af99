"""C12: operations that return a new image leave their operands untouched.

Every operation is followed by an in-place operation on its result; the original
(and the second operand) must be as before after each of the two.
"""
from engine.spec import contract
from contracts.common import *

MI = "micropol_image.MicropolImage."
MODS = ["subtract_dark", "correct_flat", "demosaic", "mask_occulter", "correct_ifov", "header"]
FLAGS = ["_is_demodulated", "_is_demosaiced", "_dark_subtracted", "_flat_subtracted", "_binning"]


class Snap:
    """all that an image holds, and the check that it still does"""

    def __init__(self, B, img, what, micropol=True):
        self.B, self.img, self.what, self.micropol = B, img, what, micropol
        hd = B.attr(img, "header")
        B.setitem(hd, "MYKEY", 7)
        B.setitem(hd, "OBJECT", "corona")
        self.data = B.snap(data_of(B, img))
        self.dtype = B.dtype(self.data)
        self.n = B.item(hd, "NAXIS1"), B.item(hd, "NAXIS2")
        if micropol:
            self.stokes = B.snap(stokes_of(B, img))
            dm = B.attr(img, "demosaiced_images")
            self.demo = None if B.isnone(dm) else B.snap(dm)
            self.flags = [B.attr(img, f) for f in FLAGS]
            self.map = {a: B.item(B.attr(img, "angle_dic"), a) for a in ANG}

    def check(self, when):
        B, img, what = self.B, self.img, "%s %s: " % (self.what, when)
        B.ensure_same(data_of(B, img), self.data, what + "pixel data unchanged")
        B.ensure(B.dtype(data_of(B, img)) == self.dtype, what + "pixel type unchanged")
        hd = B.attr(img, "header")
        B.ensure_eq(B.item(hd, "NAXIS1"), self.n[0], what + "header width unchanged")
        B.ensure_eq(B.item(hd, "NAXIS2"), self.n[1], what + "header height unchanged")
        B.ensure_eq(B.item(hd, "MYKEY"), 7, what + "header entry unchanged")
        B.ensure(B.text(B.item(hd, "OBJECT")) == "corona", what + "header text unchanged")
        if not self.micropol:
            return
        B.ensure_same(stokes_of(B, img), self.stokes, what + "Stokes components unchanged")
        dm = B.attr(img, "demosaiced_images")
        B.ensure(B.isnone(dm) == (self.demo is None), what + "demosaiced images kept")
        if self.demo is not None:
            B.ensure_same(dm, self.demo, what + "demosaiced images unchanged")
        for f, v in zip(FLAGS, self.flags):
            B.ensure_eq(B.attr(img, f), v, what + f + " unchanged")
        for a in ANG:
            B.ensure_eq(B.item(B.attr(img, "angle_dic"), a), self.map[a], what + "orientation map unchanged")


def alter(B, r, mods=MODS):
    """one in-place operation on the result"""
    mod = B.choice("then", mods)
    sh = B.shape(data_of(B, r))
    if mod == "subtract_dark":
        B.method(r, mod, dark=mimg(B, B.array("dark", sh, "f8")))
    elif mod == "correct_flat":
        B.method(r, mod, flat=mimg(B, B.array("flat", sh, "f8", lo=0.5, hi=3)))
    elif mod == "demosaic":
        B.method(r, mod, B.choice("dmode", ["adjacent", "mean"]))
    elif mod == "mask_occulter":
        B.method(r, mod, y=B.int("oy", 0, hint=(0, 4)), x=B.int("ox", 0, hint=(0, 4)), r=B.int("or", 0, hint=(0, 3)), fill=B.real("fill"))
    elif mod == "correct_ifov":
        B.method(r, mod)
    elif mod == "header":
        B.setitem(B.attr(r, "header"), "MYKEY", 99)
        B.setitem(B.attr(r, "header"), "OBJECT", "moon")
        B.setitem(B.attr(r, "header"), "NAXIS1", 1)
        B.setitem(B.attr(r, "angle_dic"), 0, 3)
    elif mod == "pixels":
        d = data_of(B, r)
        B.setitem(d, (0, 0), B.real("pix"))
        B.setitem(stokes_of(B, r), (0, 0, 0), B.real("spix"))
    return mod


def start(B, states=("fresh", "demosaiced adjacent", "stale"), dts=("f8", "u2"), least=1):
    h, w = B.int("h", least, hint=(least, least + 3)), B.int("w", least, hint=(least, least + 3))
    kw = dict(lo=0, hi=4095)
    dt = B.choice("dtype", list(dts))
    d = B.array("d", (2 * h, 2 * w), dt, **(kw if dt != "f8" else {}))
    img = mimg(B, d)
    in_state(B, img, B.choice("state", list(states)), h, w)
    return h, w, img, Snap(B, img, "original")


def finish(B, r, *snaps, **kw):
    for s in snaps:
        s.check("after the operation")
    mod = alter(B, r, **kw)
    for s in snaps:
        s.check("after %s on the result" % mod)


@contract("C12", [MI + "__init__", MI + "_import_image_parameters"], battery=100)
def copy_image(B):
    h, w, img, s = start(B)
    r = B.call("MicropolImage", img)
    finish(B, r, s)


@contract("C12", [MI + "__init__"], battery=80)
def copy_corrected(B):
    """the copy is corrected in the constructor; dark and flat are operands too"""
    h, w, img, s = start(B, states=("fresh", "demosaiced adjacent"), dts=("f8", "u2"))
    dark = mimg(B, B.array("dark0", (2 * h, 2 * w), "f8"))
    flat = mimg(B, B.array("flat0", (2 * h, 2 * w), "f8", lo=0.5, hi=3))
    sd, sf = Snap(B, dark, "dark"), Snap(B, flat, "flat")
    r = B.call("MicropolImage", img, dark=dark, flat=flat)
    finish(B, r, s, sd, sf)


@contract("C12", [MI + "rebin"], battery=60)
def rebinned(B):
    b = B.choice("binning", [2, 3])
    h, w, img, s = start(B, states=("fresh", "demosaiced adjacent"), least=b)
    r = B.method(img, "rebin", b)
    finish(B, r, s)


@contract("C12", [MI + "congrid"], battery=60)
def resized(B):
    h, w, img, s = start(B, dts=("f8",), least=2)
    r = B.method(img, "congrid", 2 * B.int("ny", 2, hint=(2, 4)), 2 * B.int("nx", 2, hint=(2, 4)))
    finish(B, r, s)


@contract("C12", [MI + "rotate"], battery=80)
def rotated(B):
    h, w, img, s = start(B)
    r = B.method(img, "rotate", B.choice("angle", [0, 90, 33.5]))
    finish(B, r, s)


@contract("C12", [MI + "shift"], battery=60)
def shifted(B):
    h, w, img, s = start(B, states=("fresh", "demosaiced adjacent"))
    r = B.method(img, "shift", B.int("sy", -9, 9, hint=(-3, 3)), B.int("sx", -9, 9, hint=(-3, 3)))
    finish(B, r, s)


@contract("C12", [MI + "demodulate", MI + "_get_Stokes_from_demodulator"], battery=100)
def demodulated(B):
    h, w, img, s = start(B, dts=("f8",))
    D, m, f = demodulator(B, h, w, B.choice("flags", [True, False]))
    sm, sf = B.snap(m), None if f is None else B.snap(f)
    r = B.method(img, "demodulate", D, demosaicing=B.choice("demosaicing", [False, True]))

    def dem(when):
        B.ensure_same(B.attr(D, "mij"), sm, "demodulator %s: tensor unchanged" % when)
        if f is not None:
            B.ensure_same(B.attr(D, "fit_found_flags"), sf, "demodulator %s: fit marks unchanged" % when)
    dem("after the operation")
    finish(B, r, s)
    dem("after altering the result")


@contract("C12", [MI + "clean_hot_pixels"], battery=60)
def cleaned(B):
    h, w, img, s = start(B)
    mp = mimg(B, B.array("map", (2 * h, 2 * w), "i8", lo=0, hi=1))
    sm = Snap(B, mp, "map")
    r = B.method(img, "clean_hot_pixels", mp)
    finish(B, r, s, sm)


NM = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}


@contract("C12", [MI + n for n in NM.values()], battery=100)
def arithmetic_images(B):
    h, w, img, s = start(B)
    sec = mimg(B, B.array("e", (2 * h, 2 * w), "f8", edges=(0.0,)), MAP2)
    se = Snap(B, sec, "second operand")
    r = B.op(B.choice("op", list(NM)), img, sec)
    finish(B, r, s, se)


@contract("C12", [MI + n for n in NM.values()], battery=80)
def arithmetic_number(B):
    h, w, img, s = start(B)
    r = B.op(B.choice("op", list(NM)), img, B.real("c", edges=(0.0, 1.0)))
    finish(B, r, s)


@contract("C12", ["image.Image." + n for n in NM.values()] + ["image.Image.__init__"], battery=100)
def plain_images(B):
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    a = plain(B, B.array("a", (h, w), "f8"))
    b = plain(B, B.array("b", (h, w), "f8", edges=(0.0,)))
    sa, sb = Snap(B, a, "left image", False), Snap(B, b, "right image", False)
    second = B.choice("second", ["image", "number"])
    r = B.op(B.choice("op", list(NM)), a, b if second == "image" else B.real("c", edges=(0.0, 1.0)))
    for s in (sa, sb):
        s.check("after the operation")
    B.setitem(B.attr(r, "header"), "MYKEY", 99)
    B.setitem(B.attr(r, "header"), "OBJECT", "moon")
    B.setattr(r, "data", B.array("new", (2, 3), "f8"))
    for s in (sa, sb):
        s.check("after altering the result")
