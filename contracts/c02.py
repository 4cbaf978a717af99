"""C02: Stokes components come from the right pixel family for every angle map."""
from engine.spec import contract
from contracts.common import *

M = ["micropol_image.MicropolImage._get_theo_Stokes_vec_components", "micropol_image.MicropolImage.single_pol_subimages", "processing.demosaic.split_polarizations"]


def check(B, img, s, m, h, w, what):
    ensure_theo(B, img, s, m, h, w, what)
    for c, n in enumerate("IQU"):
        p = B.attr(B.attr(img, n), "data")
        B.ensure_array(p, (h, w), lambda y, x: theo(B, s, m, c, y, x), "%s: property %s" % (what, n))
    for a, n in ((0, "pol0"), (45, "pol45"), (-45, "pol_45"), (90, "pol90")):
        p = B.attr(B.attr(img, n), "data")
        j, i = POS[m[a]]
        B.ensure_array(p, (h, w), lambda y, x: B.at(s, 2 * y + j, 2 * x + i), "%s: subimage %d" % (what, a))


@contract("C02", M + ["micropol_image.MicropolImage.__init__"], battery=60)
def explicit_map(B):
    dt = B.choice("dtype", ["f8", "u2"])
    m = B.choice("map", perms())
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (2 * h, 2 * w), dt)
    s = B.snap(d)
    B.call("set_default_angles", dict(MAP2))
    img = mimg(B, d, m)
    check(B, img, s, m, h, w, "explicit map")
    B.ensure_same(data_of(B, img), s, "pixels kept")


@contract("C02", M + ["micropol_image.MicropolImage.__init__"], battery=40)
def pixel_types(B):
    dt = B.choice("dtype", ["f4", "i2", "i4", "u1", "u4"])
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (2 * h, 2 * w), dt)
    s = B.snap(d)
    check(B, mimg(B, d, MAP2), s, MAP2, h, w, "explicit map")


@contract("C02", M + ["micropol_image.set_default_angles"], battery=60)
def default_map(B):
    m = B.choice("map", perms())
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (2 * h, 2 * w), "f8")
    s = B.snap(d)
    how = B.choice("how", ["user", "user after use", "built-in", "explicit then user"])
    if how in ("user after use", "built-in"):
        B.call("set_default_angles", None)
        img = B.call("MicropolImage", d)
        check(B, img, s, {0: 0, 45: 1, -45: 2, 90: 3}, h, w, "built-in camera map")
    if how == "explicit then user":
        mimg(B, d, MAP)
    if how != "built-in":
        B.call("set_default_angles", dict(m))
        check(B, B.call("MicropolImage", d), s, m, h, w, "user's default map")
