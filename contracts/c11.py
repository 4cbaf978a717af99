"""C11: image arithmetic is pixelwise, keeps identity data, and is defined at zero."""
from engine.spec import contract
from contracts.common import *

OPS = ["+", "-", "*", "/"]
NM = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}


def val(B, o, a, b):
    if o == "/":
        z = b == 0
        return B.ite(z, 0, B.real_of(a) / B.ite(z, 1, b))
    return a + b if o == "+" else a - b if o == "-" else a * b


def run(B, make, kind, past=False):
    o = B.choice("op", OPS)
    dt = B.choice("dtype", ["f8", "i4", "f4"] if not B.symbolic else ["f8", "i8"])
    kw = dict(lo=-1000, hi=1000, hint=(-50, 50), edges=(0.0,)) if dt != "f8" else dict(edges=(0.0,))
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    d = B.array("d", (2 * h, 2 * w), dt, **kw)
    s = B.snap(d)
    img = make(d)
    if past:
        history(B, img, h, w, light=True)
    B.setitem(B.attr(img, "header"), "MYKEY", 7)
    B.setitem(B.attr(img, "header"), "OBJECT", "corona")
    if kind == "image":
        e = B.array("e", (2 * h, 2 * w), dt, **kw)
        t = B.snap(e)
        second = make(e)
        g = lambda y, x: B.at(t, y, x)
    else:
        c = B.int("ci", -1000, 1000, hint=(-5, 5)) if B.choice("num", ["int", "float"]) == "int" else B.real("c", hint=(-9, 9), edges=(0.0,))
        second = c
        g = lambda y, x: c
    r = B.op(o, img, second)
    B.ensure_array(data_of(B, r), (2 * h, 2 * w), lambda y, x: val(B, o, B.at(s, y, x), g(y, x)), "pixelwise %s" % o, tol=1e-5 if dt == "f4" else None)
    hd = B.attr(r, "header")
    B.ensure_eq(B.item(hd, "MYKEY"), 7, "header kept")
    B.ensure(B.text(B.item(hd, "OBJECT")) == "corona", "header kept (text)")
    B.ensure_same(data_of(B, img), s, "left operand unchanged")
    if kind == "image":
        B.ensure_same(data_of(B, second), t, "right operand unchanged")
    return r


@contract("C11", ["image.Image." + n for n in NM.values()], battery=80)
def plain_image(B):
    run(B, lambda d: plain(B, d), "image")


@contract("C11", ["image.Image." + n for n in NM.values()], battery=80)
def plain_number(B):
    run(B, lambda d: plain(B, d), "number")


def check_map(B, r):
    m = B.attr(r, "angle_dic")
    for a in ANG:
        B.ensure_eq(B.item(m, a), MAP2[a], "orientation map kept")


@contract("C11", ["micropol_image.MicropolImage." + n for n in NM.values()], battery=80)
def micropol_image(B):
    B.call("set_default_angles", dict(MAP))
    check_map(B, run(B, lambda d: mimg(B, d, MAP2), "image", True))


@contract("C11", ["micropol_image.MicropolImage." + n for n in NM.values()], battery=80)
def micropol_number(B):
    B.call("set_default_angles", dict(MAP))
    check_map(B, run(B, lambda d: mimg(B, d, MAP2), "number", True))
