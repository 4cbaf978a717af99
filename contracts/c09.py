"""C09: the calibration tensor of a superpixel does not depend on how work is split."""
from engine.spec import contract
from contracts.common import *

PR = "processing.demodulation."
CHUNK = PR + "compute_demodulation_by_chunk"
CALC = PR + "calculate_demodulation_tensor"
PROVE_BUDGET = 420
PARTS = ["m_ij", "tk", "eff", "phase", "fit_found", "covariance", "chisq"]


def chunk(B, name, n, v, Y, X, hint):
    """a block of arbitrary pixels with superpixel (Y, X) being v[kind][p][a][b]"""
    h, w = B.int("h" + name, 1, hint=hint), B.int("w" + name, 1, hint=hint)
    B.assume(Y < h)
    B.assume(X < w)
    out = []
    for kind, lo in (("data", None), ("err", 0), ("occ", 0)):
        dims = (2 * h, 2 * w) if kind == "occ" else (n, 2 * h, 2 * w)
        a = B.array(kind + name, dims, "f8", lo=lo, hi=1 if kind == "occ" else None, edges=(0.0,))
        def val(*ix, a=a, kind=kind):
            p, y, x = ix if len(ix) == 3 else (0,) + ix
            own = v[kind](p, y % 2, x % 2)
            rest = B.ite(B.at(a, *ix) > B.const(0.85), 1, 0) if kind == "occ" else B.at(a, *ix)
            return B.ite(B.and_(y // 2 == Y, x // 2 == X), own, rest)
        out.append(B.mk(dims, val))
    return h, w, out


def superpixel(B, n, masked, given, what):
    """what is calculated for a superpixel depends on nothing else in its block"""
    B.fit_stub()
    Ya, Xa, Yb, Xb = [B.int(x, 0, hint=(0, 2)) for x in ("Ya", "Xa", "Yb", "Xb")]
    tab = {k: B.array("own_" + k, (n, 2, 2), "f8", lo=None if k == "data" else 0, hi=1 if k == "occ" else None, edges=(0.0,)) for k in ("data", "err")}
    occ = B.array("own_occ", (2, 2), "f8", lo=0, hi=1, edges=(0.0, 1.0))
    v = {"data": lambda p, a, b: B.at(tab["data"], p, a, b), "err": lambda p, a, b: B.at(tab["err"], p, a, b), "occ": lambda p, a, b: B.at(occ, a, b) if masked else 0}
    if masked:
        B.assume(B.or_(*[B.at(occ, a, b) != 0 for a, b in POS]))
    pol = [0, 45, 90, -45, 30][:n]
    phases = B.array("phases", (4,), "f8", hint=(-1.5, 1.5))
    tkb = [0.6, 0.2, 0.9] if given else None
    effb = [0.7, 0.3, 0.95] if given else None
    res = []
    for name, Y, X in (("A", Ya, Xa), ("B", Yb, Xb)):
        h, w, (data, err, oc) = chunk(B, name, n, v, Y, X, (1, 3))
        r = B.items(B.call(CHUNK, data, err, oc, list(pol), phases, tkb, effb, False))
        B.ensure(len(r) == 7, "seven results")
        for k, sh in zip(range(7), [(3, 4, h, w), (2 * h, 2 * w), (2 * h, 2 * w), (2 * h, 2 * w), (h, w), (3, 3, 2 * h, 2 * w), (2 * h, 2 * w)]):
            B.ensure_shape(r[k], sh, PARTS[k])
        res.append(r)
    ra, rb = res
    if "tensor" in what:
        for i in range(3):
            for j in range(4):
                B.ensure_eq(B.at(ra[0], i, j, Ya, Xa), B.at(rb[0], i, j, Yb, Xb), "matrix element %d%d" % (i, j))
    if "parameters" in what:
        for i in range(3):
            for j in range(3):
                for a, b in POS:
                    B.ensure_eq(B.at(ra[5], i, j, 2 * Ya + a, 2 * Xa + b), B.at(rb[5], i, j, 2 * Yb + a, 2 * Xb + b), "covariance %d%d of pixel (%d,%d)" % (i, j, a, b))
        B.ensure_eq(B.at(ra[4], Ya, Xa), B.at(rb[4], Yb, Xb), "fit mark")
        for k in (1, 2, 3, 6):
            for a, b in POS:
                B.ensure_eq(B.at(ra[k], 2 * Ya + a, 2 * Xa + b), B.at(rb[k], 2 * Yb + a, 2 * Xb + b), "%s of pixel (%d,%d)" % (PARTS[k], a, b))


BOTH = ("tensor", "parameters")
for _n, _g in ((5, False), (4, True)):
    for _w in BOTH:
        contract("C09", [CHUNK, PR + "Malus"], battery=25, name="superpixel_%s_%d_%s" % (_w, _n, "given" if _g else "default"))(lambda B, n=_n, g=_g, w=_w: superpixel(B, n, False, g, (w,)))
    contract("C09", [CHUNK, PR + "Malus"], battery=15, name="superpixel_masked_%d_%s" % (_n, "given" if _g else "default"))(lambda B, n=_n, g=_g: superpixel(B, n, True, g, BOTH))


PHASES = [0, 45, -45, 90]
POL = [45, 0, -45, 90]          # as given: not in order
NAMES = ["p%d.fits" % k for k in range(4)]


def files(B, ky, kx, gy, gx):
    H, W = 2 * gy * ky, 2 * gx * kx
    pics = [B.array("pic%d" % k, (H, W), "f8", lo=0, hi=4000, edges=(0.0,)) for k in range(4)]
    for n, p in zip(NAMES, pics):
        B.put_fits(n, p)
    return H, W, pics


def outputs(B, out, H, W):
    res = {}
    for i in range(3):
        for j in range(4):
            res["M%d%d" % (i, j)] = (B.get_fits("%s/M%d%d.fits" % (out, i, j)), (H // 2, W // 2))
        for j in range(3):
            res["C%d%d" % (i, j)] = (B.get_fits("%s/covariance_tensor/C%d%d.fits" % (out, i, j)), (H, W))
    for n in ("transmittancies", "efficiences", "phases"):
        res[n] = (B.get_fits("%s/%s.fits" % (out, n)), (H, W))
    res["fit_found_flag"] = (B.get_fits("%s/fit_found_flag.fits" % out), (H // 2, W // 2))
    res["reduced_chisquare"] = (B.get_fits("%s/covariance_tensor/reduced_chisquare.fits" % out), (H, W))
    return res


GRIDS = [[1, 2], [2, 1], [2, 2], [3, 2], [2, 3], [1, 4], [4, 4]]


def run(B, out, grid, names=NAMES, pol=POL, **kw):
    B.call(CALC, list(pol), [B.path(n) for n in names], list(PHASES), 2.75, B.path(out), procs_grid=list(grid), **kw)


def bounds(B):
    if B.choice("tk", ["default", "given"]) == "default":
        return {}
    return {"tk_boundary": [0.6, 0.2, 0.9], "eff_boundary": [0.7, 0.3, 0.95]}


def grid(B, g):
    """every grid of workers gives the files of a single worker"""
    B.fit_stub()
    ky, kx = B.int("ky", 1, hint=(1, 2)), B.int("kx", 1, hint=(1, 2))
    H, W, pics = files(B, ky, kx, *g)
    S = B.real("S", lo=1, hi=5000, hint=(1000, 5000))
    res = []
    for out, gr in (("one", [1, 1]), ("many", g)):
        run(B, out, gr, normalizing_S=S)
        res.append(outputs(B, out, H, W))
    for k, (a, shape) in res[0].items():
        b = res[1][k][0]
        B.ensure_shape(a, shape, k)
        B.ensure_shape(b, shape, k)
        B.ensure_forall(shape, lambda y, x: (B.at(a, y, x), B.at(b, y, x)), "%s is that of a single worker" % k)


for g in GRIDS:
    contract("C09", [CALC, CHUNK], battery=12, name="grid_%dx%d" % tuple(g))(lambda B, g=g: grid(B, g))


@contract("C09", [CALC, CHUNK], battery=40)
def files_of_a_block(B):
    """what is saved is what is calculated from the normalised pictures, sorted by orientation"""
    B.fit_stub()
    H, W, pics = files(B, B.int("ky", 1, hint=(1, 3)), B.int("kx", 1, hint=(1, 3)), 1, 1)
    S = B.real("S", lo=1, hi=5000, hint=(1000, 5000))
    bd = bounds(B)
    srt = sorted(zip(POL, range(4)))
    snaps = [B.snap(pics[k]) for _, k in srt]
    run(B, "out", [1, 1], normalizing_S=S, **bd)
    px = lambda p, y, x: sum(B.ite(p == k, B.at(q, y, x), 0) for k, q in enumerate(snaps)) if B.symbolic else B.at(snaps[p], y, x)
    data = B.mk((4, H, W), lambda p, y, x: px(p, y, x) / S)
    err = B.mk((4, H, W), lambda p, y, x: B.sqrt(px(p, y, x) / S / (S * B.const(2.75))))
    occ = B.mk((H, W), lambda y, x: B.const(0))
    rad = [B.const(a) * B.pi / 180 for a in PHASES]
    r = B.items(B.call(CHUNK, data, err, occ, [a for a, _ in srt], rad, bd.get("tk_boundary"), bd.get("eff_boundary"), False))
    out = outputs(B, "out", H, W)
    deg = lambda v: v * 180 / B.pi
    want = {"transmittancies": lambda y, x: B.at(r[1], y, x), "efficiences": lambda y, x: B.at(r[2], y, x), "phases": lambda y, x: deg(B.at(r[3], y, x)),
            "fit_found_flag": lambda y, x: B.at(r[4], y, x), "reduced_chisquare": lambda y, x: B.at(r[6], y, x)}
    for i in range(3):
        for j in range(4):
            want["M%d%d" % (i, j)] = lambda y, x, i=i, j=j: B.at(r[0], i, j, y, x)
        for j in range(3):
            want["C%d%d" % (i, j)] = lambda y, x, i=i, j=j: B.at(r[5], i, j, y, x)
    B.ensure(set(want) == set(out), "files")
    for k, (a, shape) in out.items():
        B.ensure_array(a, shape, want[k], k)


def own_pixels(B, b=1, dark=False, flat=False, occulter=False, norm="number"):
    """two sets of pictures agreeing in one superpixel, on different grids"""
    B.fit_stub()
    ky, kx = B.int("ky", 1, hint=(1, 2)), B.int("kx", 1, hint=(1, 2))
    h, w = 2 * ky, 2 * kx                   # superpixels after binning
    H, W = 2 * b * h, 2 * b * w
    Y, X = B.int("Y", 0, hint=(0, 3)), B.int("X", 0, hint=(0, 3))
    B.assume(Y < h)
    B.assume(X < w)
    own = lambda y, x: B.and_(y // (2 * b) == Y, x // (2 * b) == X)

    def pair(name, other, lo=0, hi=4000):
        """two pictures that agree in the superpixel"""
        a, c = B.array(name, (H, W), "f8", lo=lo, hi=hi, edges=(0.0,) if lo == 0 else ()), B.array(name + "_else", (H, W), "f8", lo=lo, hi=hi)
        return [a, B.mk((H, W), lambda y, x: B.ite(own(y, x), B.at(a, y, x), B.at(c, y, x)))]
    sets = [pair("pic%d" % k, k) for k in range(4)]
    kws = [dict(binning=b), dict(binning=b)]
    for k in (0, 1):
        for n in range(4):
            B.put_fits("%d_%s" % (k, NAMES[n]), sets[n][k])
    if dark:
        d = pair("dark", 0, 0, 300)
        for k in (0, 1):
            B.put_fits("dark%d.fits" % k, d[k])
            kws[k]["dark_filename"] = B.path("dark%d.fits" % k)
    if flat:
        B.put_fits("flat.fits", B.array("flat", (H, W), "f8", lo=100, hi=4000))
        for k in (0, 1):
            kws[k]["flat_filename"] = B.path("flat.fits")
    if occulter:
        oc = [B.int("oy", 0, hint=(0, 12)), B.int("ox", 0, hint=(0, 12)), B.int("orad", 1, hint=(1, 6))]
        for k in (0, 1):
            kws[k]["occulter"] = list(oc)
    if norm == "number":
        S = B.real("S", lo=1, hi=5000, hint=(1000, 5000))
        for k in (0, 1):
            kws[k]["normalizing_S"] = S
    else:
        S = pair("S", 0, 1000, 5000)
        for k in (0, 1):
            kws[k]["normalizing_S"] = S[k]
    for k in (0, 1):
        kws[k].update(bounds(B) if k == 0 else {n: kws[0][n] for n in ("tk_boundary", "eff_boundary") if n in kws[0]})
    res = []
    for k, g in ((0, [2, 1]), (1, [1, 2])):
        run(B, "out%d" % k, g, names=["%d_%s" % (k, n) for n in NAMES], **kws[k])
        res.append(outputs(B, "out%d" % k, 2 * h, 2 * w))
    for k, (a, shape) in res[0].items():
        c, half = res[1][k][0], k[0] == "M" or k == "fit_found_flag"
        B.ensure_shape(a, shape, k)
        B.ensure_shape(c, shape, k)
        for p, q in ([(0, 0)] if half else POS):
            at = lambda f: B.at(f, Y, X) if half else B.at(f, 2 * Y + p, 2 * X + q)
            B.ensure_eq(at(a), at(c), "%s of a superpixel depends on its own pixels" % k)


VARIANTS = {"plain": {}, "binned": {"b": 2}, "dark": {"dark": True}, "flat": {"flat": True}, "dark_flat_image": {"dark": True, "flat": True, "norm": "image"},
            "occulter": {"occulter": True}, "occulter_binned": {"occulter": True, "b": 2}, "occulter_flat": {"occulter": True, "flat": True}, "normalised_by_image": {"norm": "image"}}
for v in VARIANTS:
    contract("C09", [CALC, CHUNK], battery=16, name="own_pixels_" + v)(lambda B, v=v: own_pixels(B, **VARIANTS[v]))


@contract("C09", [CALC], battery=40)
def refused(B):
    """a grid that does not divide the picture into even blocks"""
    B.fit_stub()
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    gy, gx = B.choice("grid", [[1, 2], [2, 1], [2, 3], [3, 2], [4, 4], [5, 5]])
    B.assume(B.or_(h % gy != 0, w % gx != 0))
    for n in NAMES:
        B.put_fits(n, B.array(n[:2], (2 * h, 2 * w), "f8", lo=0, hi=4000))
    before = sorted(B.files())
    B.raises("ValueError", CALC, list(POL), [B.path(n) for n in NAMES], list(PHASES), 2.75, B.path("out"), procs_grid=[gy, gx], normalizing_S=1000.0)
    B.ensure(sorted(B.files()) == before, "nothing is saved")
