"""C19: a linear profile runs from start to end and reads only its own pixels."""
from engine.spec import contract
from contracts.common import *

M = "processing.linear_roi."


def ends(B, h, w):
    v = []
    for n, d in (("y1", h), ("x1", w), ("y2", h), ("x2", w)):
        k = B.int(n, 0, hint=(0, 12))
        B.assume(k < d)
        v.append(k)
    return v


def ensure_line(B, ys, xs, y1, x1, y2, x2, what):
    dy, dx = B.max(y2 - y1, y1 - y2), B.max(x2 - x1, x1 - x2)
    n = B.max(dy, dx) + 1
    B.ensure_shape(ys, (n,), what + "rows: max(|dy|,|dx|)+1 points")
    B.ensure_shape(xs, (n,), what + "columns: max(|dy|,|dx|)+1 points")
    B.ensure(B.and_(B.at(ys, 0) == y1, B.at(xs, 0) == x1), what + "begins at the start pixel")
    B.ensure(B.and_(B.at(ys, n - 1) == y2, B.at(xs, n - 1) == x2), what + "ends at the end pixel")
    for v, a, b, nm in ((ys, y1, y2, "rows"), (xs, x1, x2, "columns")):
        B.ensure_forall((n,), lambda k: B.and_(B.at(v, k) >= B.min(a, b), B.at(v, k) <= B.max(a, b)), what + nm + " inside the rectangle")
        B.ensure_forall((n - 1,), lambda k: B.and_(B.at(v, k + 1) - B.at(v, k) <= 1, B.at(v, k) - B.at(v, k + 1) <= 1), what + nm + ": at most one per step")
    return n


@contract("C19", [M + "DDA"], battery=150)
def rasterising(B):
    h, w = B.int("h", 1, hint=(1, 13)), B.int("w", 1, hint=(1, 13))
    y1, x1, y2, x2 = ends(B, h, w)
    form = B.choice("form", [lambda a: tuple(a), lambda a: list(a)])
    r = B.items(B.call(M + "DDA", form([y1, x1]), form([y2, x2])))
    n = ensure_line(B, r[0], r[1], y1, x1, y2, x2, "")
    dy, dx = B.real_of(y2 - y1), B.real_of(x2 - x1)
    B.ensure_eq(r[2], B.sqrt(dx * dx + dy * dy) / B.real_of(n), "length per point")


@contract("C19", [M + "linear_roi", M + "DDA"], battery=150)
def profile(B):
    h, w = B.int("h", 1, hint=(1, 13)), B.int("w", 1, hint=(1, 13))
    y1, x1, y2, x2 = ends(B, h, w)
    d = B.array("d", (h, w), B.choice("dtype", ["f8", "u2"]))
    s = B.snap(d)
    ys, xs, vals = B.items(B.call(M + "linear_roi", d, [y1, x1], [y2, x2]))
    n = ensure_line(B, ys, xs, y1, x1, y2, x2, "profile ")
    B.ensure_shape(vals, (n,), "one value per point")
    B.ensure_forall((n,), lambda k: (B.at(vals, k), B.at(s, B.at(ys, k), B.at(xs, k))), "value stored at the visited pixel")
    B.ensure_same(d, s, "image unchanged")
