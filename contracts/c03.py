"""C03: pB, AoLP and DoLP follow their definitions; Malus light is recovered."""
from engine.spec import contract
from contracts.common import *

F = "polarization_functions."


def image_with(B, S, h, w):
    img = mimg(B, B.array("d", (2 * h, 2 * w), "f8"))
    B.setattr(img, "Stokes_vec", S)
    return img


@contract("C03", [F + "pB", F + "DoLP", F + "AoLP", "micropol_image.MicropolImage.pB", "micropol_image.MicropolImage.AoLP", "micropol_image.MicropolImage.DoLP"], battery=80)
def definitions(B):
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    S = B.array("S", (3, h, w), "f8", edges=(0.0, 1.0, -1.0))
    s = B.snap(S)
    via = B.choice("via", ["function", "image", "demodulated image"])
    if via == "function":
        pb, do, ao = B.call(F + "pB", S), B.call(F + "DoLP", S), B.call(F + "AoLP", S)
    else:
        img = image_with(B, S, h, w)
        if via != "image":
            B.setattr(img, "_is_demodulated", True)
        for c, n in enumerate("IQU"):
            B.ensure_array(B.attr(B.attr(img, n), "data"), (h, w), lambda y, x: B.at(s, c, y, x), "property " + n)
        pb, do, ao = [B.attr(B.attr(img, n), "data") for n in ("pB", "DoLP", "AoLP")]
    I, Q, U = [lambda y, x, c=c: B.at(s, c, y, x) for c in range(3)]
    P = lambda y, x: B.sqrt(Q(y, x) * Q(y, x) + U(y, x) * U(y, x))
    B.ensure_array(pb, (h, w), P, "pB = sqrt(Q^2+U^2)")
    B.ensure_array(do, (h, w), lambda y, x: B.ite(I(y, x) == 0, 0, P(y, x) / B.ite(I(y, x) == 0, 1, I(y, x))), "DoLP = pB/I, 0 where I is 0")
    B.ensure_array(ao, (h, w), lambda y, x: B.np1("arctan2", U(y, x), Q(y, x)) / 2, "AoLP = arctan2(U, Q)/2")
    B.ensure_forall((h, w), lambda y, x: B.and_(B.at(ao, y, x) >= -B.pi / 2 - B.slack, B.at(ao, y, x) <= B.pi / 2 + B.slack), "AoLP in [-pi/2, pi/2]")
    B.ensure_same(S, s, "input unchanged")


@contract("C03", ["processing.demodulation.Malus", F + "pB", F + "DoLP", F + "AoLP", "micropol_image.MicropolImage._get_theo_Stokes_vec_components"], battery=80)
def malus(B):
    m = B.choice("map", [MAP, MAP2])
    I = B.real("I", 0, hint=(0, 100))
    e = B.real("e", 0, 1, hint=(0, 1), edges=(0, 1))
    a = B.real("a", hint=(-7, 7))
    img = []
    d = B.np("zeros", (2, 2))
    for ang in ANG:
        j, i = POS[m[ang]]
        v = B.call("processing.demodulation.Malus", a, I, e, B.np1("deg2rad", ang))
        B.setitem(d, (j, i), v)
    img = mimg(B, d, m)
    S = stokes_of(B, img)
    B.ensure_shape(S, (3, 1, 1), "Stokes")
    B.ensure_eq(B.at(S, 0, 0, 0), I, "I recovered")
    B.ensure_eq(B.at(S, 1, 0, 0), I * e * B.np1("cos", 2 * a), "Q = I e cos 2a")
    B.ensure_eq(B.at(S, 2, 0, 0), I * e * B.np1("sin", 2 * a), "U = I e sin 2a")
    pb, do, ao = [B.at(B.attr(B.attr(img, n), "data"), 0, 0) for n in ("pB", "DoLP", "AoLP")]
    B.ensure_eq(pb, I * e, "pB = I e")
    B.ensure(B.implies(I > 0, B.eq(do, e)), "DoLP = e")
    B.ensure(B.implies(I * e > 1e-3 if not B.symbolic else I * e > 0, B.and_(B.eq(B.np1("cos", 2 * ao), B.np1("cos", 2 * a), 1e-6), B.eq(B.np1("sin", 2 * ao), B.np1("sin", 2 * a), 1e-6))), "2 AoLP = 2a modulo 2 pi")
