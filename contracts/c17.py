"""C17: errors propagate to first order through tensor, pB, DoLP and AoLP."""
from engine.spec import contract
from contracts.common import *

M = "processing.demodulation_errors."
ERR = M + "MicropolImageError.__init__"
SPLIT = "processing.demosaic.split_polarizations"


def hyp(B, *ts):
    """root of the sum of squares"""
    t = ts[0] * ts[0]
    for z in ts[1:]:
        t = t + z * z
    return B.sqrt(t)


def ensure_where(B, out, h, w, cond, f, msg):
    B.ensure_shape(out, (h, w), msg)
    B.ensure_forall((h, w), lambda y, x: B.implies(cond(y, x), B.eq(B.at(out, y, x), B.ite(cond(y, x), f(y, x), 0), 1e-6)), msg)


def stokes_errors(B, h, w):
    S = B.array("S", (3, h, w), "f8", edges=(0.0, 1.0, -2.0, 0.0))
    e = B.array("e", (3, h, w), "f8", lo=0, edges=(0.0, 1.0))
    return S, e


def ensure_derived(B, s, e, h, w, pb, do, ao, what):
    """the three errors from the partial derivatives of pB, DoLP and AoLP"""
    I, Q, U = [lambda y, x, c=c: B.at(s, c, y, x) for c in range(3)]
    sI, sQ, sU = [lambda y, x, c=c: B.at(e, c, y, x) for c in range(3)]
    P2 = lambda y, x: Q(y, x) * Q(y, x) + U(y, x) * U(y, x)
    P = lambda y, x: B.sqrt(P2(y, x))
    pos = lambda y, x: P2(y, x) > 0
    both = lambda y, x: B.and_(P2(y, x) > 0, B.not_(I(y, x) == 0))
    nz = lambda c, v: B.ite(c, v, 1)

    def one(y, x):
        p, i, q = nz(pos(y, x), P(y, x)), nz(B.not_(I(y, x) == 0), I(y, x)), nz(pos(y, x), P2(y, x))
        return p, i, q

    def f_pb(y, x):
        p, i, q = one(y, x)
        return hyp(B, Q(y, x) / p * sQ(y, x), U(y, x) / p * sU(y, x))

    def f_do(y, x):
        p, i, q = one(y, x)
        return hyp(B, Q(y, x) / (i * p) * sQ(y, x), U(y, x) / (i * p) * sU(y, x), P(y, x) / (i * i) * sI(y, x))

    def f_ao(y, x):
        p, i, q = one(y, x)
        return hyp(B, U(y, x) / (2 * q) * sQ(y, x), Q(y, x) / (2 * q) * sU(y, x))
    if pb is not None:
        ensure_where(B, pb, h, w, pos, f_pb, what + "error on pB")
    if do is not None:
        ensure_where(B, do, h, w, both, f_do, what + "error on DoLP")
    if ao is not None:
        ensure_where(B, ao, h, w, pos, f_ao, what + "error on AoLP")


@contract("C17", [M + "get_error_on_pB", M + "get_error_on_DoLP", M + "get_error_on_AoLP"], battery=100)
def derived(B):
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    S, e = stokes_errors(B, h, w)
    s, t = B.snap(S), B.snap(e)
    ensure_derived(B, s, t, h, w, B.call(M + "get_error_on_pB", S, e), B.call(M + "get_error_on_DoLP", S, e), B.call(M + "get_error_on_AoLP", S, e), "")
    B.ensure_same(S, s, "Stokes unchanged")
    B.ensure_same(e, t, "errors unchanged")


def ensure_stokes_error(B, out, m, e, h, w, what):
    B.ensure_shape(out, (3, h, w), what)
    for c, n in enumerate("IQU"):
        B.ensure_forall((h, w), lambda y, x: (B.at(out, c, y, x), hyp(B, *[B.at(m, c, k, y, x) * B.at(e, 2 * y + POS[k][0], 2 * x + POS[k][1]) for k in range(4)])), "%serror on %s" % (what, n))


@contract("C17", [M + "get_error_on_Stokes", SPLIT], battery=60)
def stokes(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    D, m, f = demodulator(B, h, w, B.choice("flags", [False, True]))
    e = B.array("e", (2 * h, 2 * w), B.choice("dtype", ["f8", "i4"]), lo=0, edges=(0.0, 1.0))
    mm, t = B.snap(m), B.snap(e)
    ensure_stokes_error(B, B.call(M + "get_error_on_Stokes", e, D), mm, t, h, w, "")
    B.ensure_same(e, t, "pixel errors unchanged")
    B.ensure_same(m, mm, "tensor unchanged")


@contract("C17", [ERR, M + "get_error_on_Stokes", M + "get_error_on_pB", M + "get_error_on_DoLP", M + "get_error_on_AoLP", SPLIT], battery=60)
def image(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    D, m, f = demodulator(B, h, w, False)
    e = B.array("e", (2 * h, 2 * w), "f8", lo=0, edges=(0.0, 1.0))
    img = mimg(B, B.array("d", (2 * h, 2 * w), "f8", edges=(0.0, 1.0)))
    S = B.array("S", (3, h, w), "f8", edges=(0.0, 1.0, -2.0, 0.0))
    B.setattr(img, "Stokes_vec", S)
    r = B.call(M + "MicropolImageError", img, e, D)
    sS = B.attr(r, "sigma_S")
    ensure_stokes_error(B, sS, m, e, h, w, "image: ")
    ensure_derived(B, B.snap(S), B.snap(sS), h, w, B.attr(r, "sigma_pB"), B.attr(r, "sigma_DoLP"), B.attr(r, "sigma_AoLP"), "image: ")
