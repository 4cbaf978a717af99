"""C01: splitting into the four polarisation families and merging back are inverse."""
from engine.spec import contract

POS = [(0, 0), (0, 1), (1, 0), (1, 1)]
F = ["processing.demosaic.split_polarizations", "processing.demosaic.merge_polarizations"]


@contract("C01", F)
def split_families(B):
    dt = B.choice("dtype", ["f8", "u2", "i8", "f4"])
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    d = B.array("d", (2 * h, 2 * w), dt)
    s0 = B.snap(d)
    s = B.call("processing.demosaic.split_polarizations", d)
    B.ensure_array(s, (4, h, w), lambda f, y, x: B.at(s0, 2 * y + f // 2, 2 * x + f % 2), "family f holds the pixels of its own position")
    B.ensure_same(d, s0, "input unchanged by split")
    m = B.call("processing.demosaic.merge_polarizations", s)
    B.ensure_same(m, s0, "merge(split(d)) == d")


@contract("C01", F)
def merge_then_split(B):
    dt = B.choice("dtype", ["f8", "u2"])
    h, w = B.int("h", 1, hint=(1, 5)), B.int("w", 1, hint=(1, 5))
    p = B.array("p", (4, h, w), dt)
    p0 = B.snap(p)
    m = B.call("processing.demosaic.merge_polarizations", p)
    B.ensure_array(m, (2 * h, 2 * w), lambda y, x: B.at(p0, 2 * (y % 2) + x % 2, y // 2, x // 2), "merge puts every family at its own position")
    s = B.call("processing.demosaic.split_polarizations", m)
    B.ensure_same(s, p0, "split(merge(p)) == p")


@contract("C01", F)
def odd_refused(B):
    dt = B.choice("dtype", ["f8", "u2"])
    h, w = B.int("h", 1, hint=(1, 9)), B.int("w", 1, hint=(1, 9))
    B.assume(B.or_(h % 2 == 1, w % 2 == 1))
    d = B.array("d", (h, w), dt)
    B.raises("ValueError", "processing.demosaic.split_polarizations", d)
