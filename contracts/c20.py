"""C20: the radial filter standardises every ring with its own mean and deviation."""
from engine.spec import contract
from contracts.common import *

N = "processing.nrgf."
FN = [N + "nrgf", N + "map_polar_coordinates"]


def polar(B, cy, cx):
    rho = lambda y, x: B.sqrt(B.real_of((x - cx) * (x - cx) + (y - cy) * (y - cy)))
    phi = lambda y, x: (B.np1("arctan2", B.real_of(y - cy), B.real_of(x - cx)) * 180 / B.pi + 360) % 360
    return rho, phi


def span(B, name):
    """an angle range; the borders are never next to a pixel's angle unless exactly on an axis"""
    if B.choice(name, ["default", "given"]) == "default":
        return None, 0, 360
    a, b = B.real(name + "0", hint=(0, 360), edges=(0, 90, 180, 270, 40.1)), B.real(name + "1", hint=(0, 360), edges=(90, 180, 270, 130.1, 360))
    return [a, b], a, b


def near(B, phi, h, w, ts):
    """concrete back end: a border of the angles too close to some pixel's angle for float formulas to agree"""
    if B.symbolic:
        return False
    return any(abs(phi(y, x) - t) < 1e-7 and phi(y, x) % 90 for y in range(h) for x in range(w) for t in ts)


def rings(B, dtype, step_given):
    h, w = B.int("h", 1, hint=(1, 9)), B.int("w", 1, hint=(1, 9))
    d = B.array("d", (h, w), dtype, edges=(0, 0, 1))
    s = B.snap(d)
    cy, cx = B.int("cy", hint=(-2, 10)), B.int("cx", hint=(-2, 10))
    r0, st = B.int("r0", 0, hint=(0, 5)), B.int("step", 1, hint=(1, 4))
    mean_phi, m0, m1 = span(B, "mean")
    out_phi, o0, o1 = span(B, "out")
    rho, phi = polar(B, cy, cx)
    B.assume(not near(B, phi, h, w, [m0, m1, o0, o1]))
    kw = {}
    if mean_phi is not None:
        kw["phi_to_mean"] = mean_phi
    if out_phi is not None:
        kw["output_phi"] = out_phi
    if step_given:
        kw["step"] = st
    else:
        st = 1
    out = B.call(N + "nrgf", d, cy, cx, r0, **kw)
    far = B.trunc(B.red("max", (h, w), rho))
    B.ensure_shape(out, (h, w), "size")
    tiny = 0 if B.symbolic else 1e-9
    shown = lambda y, x: B.and_(phi(y, x) >= o0, phi(y, x) < o1)

    def ring_value(y, x, r):
        """value of pixel (y, x) in the ring (r, r + step]"""
        ring = lambda v, u: B.and_(rho(v, u) > r, rho(v, u) <= r + st, phi(v, u) >= m0, phi(v, u) < m1)
        mask = B.mk((h, w), ring, "b1")
        mean, std = B.np("mean", s, where=mask), B.np("std", s, where=mask)
        if not B.symbolic and not std > 1e-9 * max(1.0, abs(mean)):
            return None if std > 0 else 0.0
        ok = std > 0
        return B.ite(ok, (B.real_of(B.at(s, y, x)) - mean) / B.ite(ok, std, 1), 0)

    def check(k, y, x):
        r = r0 + k * st
        here = B.and_(r < far, rho(y, x) > r, rho(y, x) <= r + st, shown(y, x))
        if not B.symbolic and not here:
            return True
        v = ring_value(y, x, r)
        return True if v is None else B.implies(here, B.eq(B.at(out, y, x), v, 1e-6))
    kmax = B.int("kmax", 1, hint=(14, 14))                       # any number of rings
    B.ensure_forall((kmax, h, w), check, "(pixel - mean)/std of its own ring, 0 where that deviation is 0")
    B.ensure_forall((h, w), lambda y, x: B.implies(B.or_(rho(y, x) <= r0, B.not_(shown(y, x))), B.at(out, y, x) == 0), "0 before the first ring and outside the output angles")
    B.ensure_forall((kmax, h, w), lambda k, y, x: B.implies(B.and_(r0 + k * st >= far, rho(y, x) > r0 + k * st), B.at(out, y, x) == 0), "0 after the last ring")
    B.ensure_same(d, s, "input unchanged")


def make(dtype, step_given):
    def body(B):
        rings(B, dtype, step_given)
    contract("C20", FN, name="rings_%s_%s" % (dtype, "step" if step_given else "default"), battery=60)(body)


for _d in ("f8", "u2", "i4"):
    for _s in (0, 1):
        make(_d, _s)
