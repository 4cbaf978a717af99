"""C08: demodulation applies the tensor of each superpixel, and theory where no fit."""
from engine.spec import contract
from contracts.common import *

K = "micropol_image.MicropolImage."
FN = [K + "demodulate", K + "_get_Stokes_from_demodulator", K + "_get_theo_Stokes_vec_components", K + "__init__"]


def setup(B, flags, mi=None):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    kinds = [(MAP, "f8"), (MAP2, "u2")]
    m, dt = B.choice("map", kinds) if mi is None else kinds[mi]
    d = B.array("d", (2 * h, 2 * w), dt)
    st = B.choice("state", STATES)
    img = in_state(B, mimg(B, d, m), st, h, w)
    D, mij, f = demodulator(B, h, w, flags)
    return h, w, m, img, D, B.snap(d), B.snap(mij), (B.snap(f) if flags else None)


def keeps(B, img, s0, r, s, before):
    B.ensure_same(data_of(B, r), s, "demodulated image keeps the pixels")
    B.ensure_same(data_of(B, img), s, "source pixels unchanged")
    B.ensure_same(stokes_of(B, img), before, "source Stokes unchanged")


@contract("C08", FN, battery=80)
def plain_tensor(B):
    flags = B.choice("flags", [True, False])
    h, w, m, img, D, s, mij, f = setup(B, flags)
    before = B.snap(stokes_of(B, img))
    r = B.method(img, "demodulate", D) if B.choice("given", [0, 1]) else B.method(img, "demodulate", D, demosaicing=False)
    S = stokes_of(B, r)
    B.ensure_shape(S, (3, h, w), "Stokes")
    px = lambda y, x: lambda k: B.at(s, 2 * y + POS[k][0], 2 * x + POS[k][1])
    for c, n in enumerate("IQU"):
        def v(y, x):
            p = px(y, x)
            t = B.at(mij, c, 0, y, x) * p(0) + B.at(mij, c, 1, y, x) * p(1) + B.at(mij, c, 2, y, x) * p(2) + B.at(mij, c, 3, y, x) * p(3)
            return B.ite(B.at(f, y, x) == 1, t, theo_of(p, m, c)) if flags else t
        B.ensure_forall((h, w), lambda y, x: (B.at(S, c, y, x), v(y, x)), "%s from the matrix of the superpixel%s" % (n, ", theory where not fitted" if flags else ""))
    keeps(B, img, None, r, s, before)


def with_demosaicing(B, flags, mi):
    h, w, m, img, D, s, mij, f = setup(B, flags, mi)
    before = B.snap(stokes_of(B, img))
    r = B.method(img, "demodulate", D, demosaicing=True)
    S = stokes_of(B, r)
    B.ensure_shape(S, (3, 2 * h, 2 * w), "Stokes")
    for c, n in enumerate("IQU"):
        for j, i in POS:
            def v(y, x):
                p = lambda k: demo_at(B, s, h, w, k, "adjacent", y, x, j, i)
                t = B.at(mij, c, 0, y, x) * p(0) + B.at(mij, c, 1, y, x) * p(1) + B.at(mij, c, 2, y, x) * p(2) + B.at(mij, c, 3, y, x) * p(3)
                return B.ite(B.at(f, y, x) == 1, t, theo_of(p, m, c)) if flags else t
            B.ensure_forall((h, w), lambda y, x: (B.at(S, c, 2 * y + j, 2 * x + i), v(y, x)), "%s at (%d,%d) of a superpixel" % (n, j, i))
    keeps(B, img, None, r, s, before)


for _fl in (True, False):
    for _mi, _mn in enumerate(("sorted", "permuted")):
        contract("C08", FN + [K + "demosaic"], battery=25, name="with_demosaicing_%s_%s" % ("flags" if _fl else "no_flags", _mn))(
            lambda B, fl=_fl, mi=_mi: with_demosaicing(B, fl, mi))
