"""C23: statistical thresholds, noise and solar-brightness units follow their formulas."""
from engine.spec import contract
from contracts.common import *

U = "utils."


@contract("C23", [U + "mean_minus_std", U + "mean_plus_std"])
def mean_bounds(B):
    dt = B.choice("dtype", ["f8", "u2"])
    default = B.choice("n given", [True, False])
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (h, w), dt)
    s = B.snap(d)
    n = B.real("n", hint=(-4, 4)) if default else 1
    a = (n,) if default else ()
    m, sd = B.red("mean", (h, w), lambda y, x: B.at(s, y, x)), B.red("std", (h, w), lambda y, x: B.at(s, y, x))
    B.ensure_eq(B.call(U + "mean_minus_std", d, *a), m - n * sd, "mean - n std")
    B.ensure_eq(B.call(U + "mean_plus_std", d, *a), m + n * sd, "mean + n std")
    B.ensure_same(d, s, "input unchanged")


@contract("C23", [U + "median_minus_std", U + "median_plus_std"])
def median_bounds(B):
    dt = B.choice("dtype", ["f8", "u2"])
    default = B.choice("n given", [True, False])
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (h, w), dt)
    s = B.snap(d)
    n = B.real("n", hint=(-4, 4)) if default else 1
    a = (n,) if default else ()
    m = B.red("median", (h, w), lambda y, x: B.at(s, y, x))
    sd = B.red("median", (h, w), lambda y, x: abs(B.at(s, y, x) - m))
    B.ensure_eq(B.call(U + "median_minus_std", d, *a), m - n * sd, "median - n deviations")
    B.ensure_eq(B.call(U + "median_plus_std", d, *a), m + n * sd, "median + n deviations")
    B.ensure_same(d, s, "input unchanged")


@contract("C23", [U + "sigma_DN"])
def noise(B):
    gain = 6.93
    if B.choice("kind", ["number", "array"]) == "number":
        p = B.real("p", 0, hint=(0, 5000))
        r = B.call(U + "sigma_DN", p)
        B.ensure_eq(r, B.sqrt(B.real_of(p) / B.const(gain)), "sqrt(p/gain)")
    else:
        h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
        d = B.array("d", (h, w), "f8", lo=0)
        s = B.snap(d)
        r = B.call(U + "sigma_DN", d)
        B.ensure_array(r, (h, w), lambda y, x: B.sqrt(B.at(s, y, x) / B.const(gain)), "sqrt(p/gain)")
        B.ensure_same(d, s, "input unchanged")


@contract("C23", [U + "get_Bsun_units"])
def bsun(B):
    D = B.real("D", hint=(1, 5000))
    t, td = B.real("t", hint=(1, 60)), B.real("td", hint=(1, 60))
    B.assume(B.and_(D > 0, t > 0, td > 0))
    k = B.const(1.083) / 100000 * B.const(0.28)
    B.ensure_eq(B.call(U + "get_Bsun_units", D, t, td) * 1000000, 1000000 * k * (td / t) / D, "solid angle * transmittancy * (td/t) / D")
    B.ensure_eq(B.call(U + "get_Bsun_units", D) * 1000000, 1000000 * k / D, "default exposures are 1")
    B.ensure_eq(B.call(U + "get_Bsun_units", D, t) * 1000000, 1000000 * k / t / D, "default diffuser exposure is 1")
    B.ensure_eq(B.call(U + "get_Bsun_units", D, texp_diffuser=td) * 1000000, 1000000 * k * td / D, "default image exposure is 1")
