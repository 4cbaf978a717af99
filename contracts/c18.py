"""C18: angle normalisation lands in the half-open half turn, same direction."""
from engine.spec import contract
from contracts.common import *


def good(B, r, a, half):
    """r in (-half, half] and r == a modulo 2*half"""
    k = B.floor((a - r) / (2 * half) + 0.5)
    return B.and_(r <= half + B.slack, r > -half - B.slack, B.eq(k * (2 * half), a - r))


F = ["utils.normalize2pi", "polarization_functions.normalize2pi"]
EDGES = (90.0, -90.0, 180.0, -180.0, 270.0, -270.0, 0.0, 450.0, -450.0, 90.5)


@contract("C18", F, battery=120)
def degrees_list(B):
    fn = B.choice("fn", F)
    n = B.int("n", 0, hint=(0, 5))
    l = B.reals("a", n, hint=(-800, 800), edges=EDGES)
    old = B.frozen(l)
    r = B.call(fn, l)
    B.ensure(B.length(r) == n, "same number of angles")
    B.ensure_forall((n,), lambda i: good(B, B.elem(r, i), B.elem(old, i), 90), "in (-90, 90], same direction")


@contract("C18", F, battery=120)
def degrees_few(B):
    fn = B.choice("fn", F)
    n = B.choice("n", [1, 2, 3])
    a = [B.real("a%d" % i, hint=(-800, 800), edges=EDGES) for i in range(n)]
    r = B.call(fn, list(a))
    B.ensure(B.length(r) == n, "same number of angles")
    for i in range(n):
        B.ensure(good(B, B.elem(r, i), a[i], 90), "angle %d in (-90, 90], same direction" % i)
        B.ensure(B.implies(B.and_(a[i] > -90, a[i] <= 90), B.eq(B.elem(r, i), a[i])), "angle %d inside is kept" % i)


@contract("C18", F)
def degrees_integers(B):
    fn = B.choice("fn", F)
    n = B.choice("n", [1, 2])
    a = [B.int("a%d" % i, hint=(-800, 800)) for i in range(n)]
    r = B.call(fn, list(a))
    B.ensure(B.length(r) == n, "same number of angles")
    for i in range(n):
        B.ensure(good(B, B.elem(r, i), a[i], 90), "angle %d in (-90, 90], same direction" % i)


@contract("C18", F)
def degrees_single(B):
    fn = B.choice("fn", F)
    a = B.real("a", hint=(-800, 800), edges=EDGES)
    r = B.call(fn, a)
    B.ensure(B.length(r) == 1, "a list of one")
    B.ensure(good(B, B.elem(r, 0), a, 90), "in (-90, 90], same direction")


@contract("C18", ["utils.normalize2piarray"], battery=120)
def radians_array(B):
    nd = B.choice("ndim", [1, 2])
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    sh = (h, w)[:nd]
    p = B.pi
    d = B.array("d", sh, "f8", hint=(-20, 20))
    s = B.snap(d)
    r = B.call("utils.normalize2piarray", d)
    B.ensure_shape(r, sh, "same shape")
    B.ensure_forall(sh, lambda *i: good(B, B.at(r, *i), B.at(s, *i), p / 2), "in (-pi/2, pi/2], same direction")
    B.ensure_same(d, s, "input unchanged")
