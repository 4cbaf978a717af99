"""C14: polar regions select exactly the annulus and angles asked for."""
from engine.spec import contract
from contracts.common import *

N = "processing.nrgf."
ROI = [N + "roi_from_polar", N + "map_polar_coordinates"]
K = "micropol_image.MicropolImage."


class Region:
    """the selection of pixel (y, x) in full or superpixel coordinates"""

    def __init__(self, B, cy, cx, r0, r1, t0=0, t1=360, superpixels=True):
        self.B, self.sup = B, superpixels
        if superpixels:
            cy, cx, r0, r1 = [B.trunc(B.real_of(v) / 2) for v in (cy, cx, r0, r1)]
        self.c = (B.real_of(cy), B.real_of(cx))
        self.r = (B.real_of(r0), B.real_of(r1))
        self.t = (t0, t1)

    def polar(self, y, x):
        B = self.B
        if self.sup:
            y, x = y // 2, x // 2
        dy, dx = B.real_of(y) - self.c[0], B.real_of(x) - self.c[1]
        return B.sqrt(dx * dx + dy * dy), (B.np1("arctan2", dy, dx) * 180 / B.pi + 360) % 360

    def __call__(self, y, x):
        rho, phi = self.polar(y, x)
        return self.B.and_(rho > self.r[0], rho <= self.r[1], phi >= self.t[0], phi < self.t[1])

    def unclear(self, y, x):
        """float rounding may go either way (concrete back end): the pixel lies on a
        border of the angles, off the axes, or on one of the radii, which is not a whole number"""
        if self.B.symbolic:
            return False
        rho, phi = self.polar(y, x)
        return any(abs(phi - t) < 1e-7 and phi % 90 for t in self.t) or any(abs(rho - r) < 1e-9 and r % 1 for r in self.r)


def ensure_selected(B, out, h, w, sel, inside, outside, msg):
    B.ensure_shape(out, (h, w), msg)

    def ok(y, x):
        if sel.unclear(y, x):
            return B.ite(True, True, False)
        return B.eq(B.at(out, y, x), B.ite(sel(y, x), inside(y, x), outside))
    B.ensure_forall((h, w), ok, msg)


def angles(B):
    how = B.choice("angles", ["default", "given"])
    if how == "default":
        return {}, 0, 360
    t0, t1 = B.real("t0", hint=(0, 360), edges=(0, 90, 180, 270, 45)), B.real("t1", hint=(0, 360), edges=(0, 90, 180, 270, 135, 360))
    return {"theta": [t0, t1]}, t0, t1


@contract("C14", ROI, battery=150)
def region(B):
    sup = B.choice("superpixels", [True, False])
    h, w = B.int("h", 1, hint=(1, 8)), B.int("w", 1, hint=(1, 8))
    H, W = (2 * h, 2 * w) if sup else (h, w)
    d = B.array("d", (H, W), B.choice("dtype", ["f8", "u2"]))
    s = B.snap(d)
    cy, cx = B.int("cy", hint=(-3, 16)), B.int("cx", hint=(-3, 16))
    r0, r1 = [B.real(n, 0, hint=(0, 12), edges=(0, 1, 2, 5, 10)) for n in ("r0", "r1")]
    kw, t0, t1 = angles(B)
    fill = B.real("fill", hint=(-5, 5))
    sel = Region(B, cy, cx, r0, r1, t0, t1, sup)
    c = [cy, cx] if B.choice("centre", ["list", "tuple"]) == "list" else (cy, cx)
    r = B.call(ROI[0], d, c, [r0, r1], fill=fill, include_superpixels=sup, **kw)
    ensure_selected(B, r, H, W, sel, lambda y, x: B.real_of(B.at(s, y, x)), fill, "kept inside, fill outside")
    b = B.call(ROI[0], d, c, (r0, r1), return_boolean=True, include_superpixels=sup, **kw)
    ensure_selected(B, b, H, W, sel, lambda y, x: True, False, "boolean: the same selection")
    B.ensure_same(d, s, "input unchanged")


@contract("C14", ROI, battery=80)
def repeated(B):
    """the same region again, after another one of the same size was selected"""
    sup = B.choice("superpixels", [True, False])
    h, w = B.int("h", 1, hint=(1, 6)), B.int("w", 1, hint=(1, 6))
    H, W = (2 * h, 2 * w) if sup else (h, w)
    d = B.array("d", (H, W), "f8")
    cy, cx = B.int("cy", hint=(-3, 12)), B.int("cx", hint=(-3, 12))
    r0, r1 = [B.real(n, 0, hint=(0, 12), edges=(0, 1, 2, 5, 10)) for n in ("r0", "r1")]
    kw, t0, t1 = angles(B)
    sel = Region(B, cy, cx, r0, r1, t0, t1, sup)
    c = [cy, cx]
    args = (d, c, [r0, r1])
    B.call(ROI[0], *args, include_superpixels=sup, **kw)
    B.call(ROI[0], d, (cy, cx), [0, 1], theta=[10, 20], fill=7, include_superpixels=sup)
    r = B.call(ROI[0], *args, include_superpixels=sup, **kw)
    ensure_selected(B, r, H, W, sel, lambda y, x: B.at(d, y, x), 0, "third call: kept inside, fill outside")


@contract("C14", ROI, battery=80)
def defaults(B):
    sup = B.choice("superpixels", [True, False])
    h, w = B.int("h", 1, hint=(1, 8)), B.int("w", 1, hint=(1, 8))
    H, W = (2 * h, 2 * w) if sup else (h, w)
    d = B.array("d", (H, W), "f8")
    kw = {}
    cy, cx = H // 2, W // 2
    if B.choice("centre", ["none", "given"]) == "given":
        cy, cx = B.int("cy", 0, hint=(0, 15)), B.int("cx", 0, hint=(0, 15))
        B.assume(B.and_(cy < H, cx < W))
        kw["center"] = [cy, cx]
    r0, r1 = 0, B.min(H - cy, W - cx)
    if B.choice("rho", ["none", "given"]) == "given":
        r0, r1 = [B.real(n, 0, hint=(0, 12), edges=(0, 1, 2, 5, 10)) for n in ("r0", "r1")]
        kw["rho"] = [r0, r1]
    if not sup or B.choice("flag", [0, 1]):
        kw["include_superpixels"] = sup
    sel = Region(B, cy, cx, r0, r1, 0, 360, sup)
    ensure_selected(B, B.call(ROI[0], d, **kw), H, W, sel, lambda y, x: B.at(d, y, x), 0, "defaults: image centre, nearest far border, every angle, 0")


@contract("C14", ROI, battery=60)
def together(B):
    """the four pixels of a superpixel are kept or dropped together"""
    h, w = B.int("h", 1, hint=(1, 8)), B.int("w", 1, hint=(1, 8))
    d = B.array("d", (2 * h, 2 * w), "f8")
    cy, cx = B.int("cy", hint=(-3, 16)), B.int("cx", hint=(-3, 16))
    r0, r1 = [B.real(n, 0, hint=(0, 12), edges=(0, 1, 2, 5, 10)) for n in ("r0", "r1")]
    kw, t0, t1 = angles(B)
    b = B.call(ROI[0], d, (cy, cx), [r0, r1], return_boolean=True, **kw)
    for j, i in POS[1:]:
        B.ensure_forall((h, w), lambda y, x: (B.at(b, 2 * y, 2 * x), B.at(b, 2 * y + j, 2 * x + i)), "pixel (%d,%d) goes with the first one" % (j, i))


MASK_STATES = STATES + ["demodulated", "demosaiced and demodulated"]


@contract("C14", [K + "mask_occulter"] + ROI, battery=150)
def mask(B):
    h, w = B.int("h", 1, hint=(1, 7)), B.int("w", 1, hint=(1, 7))
    d = B.array("d", (2 * h, 2 * w), "f8")
    st = B.choice("state", MASK_STATES)
    img = mimg(B, d)
    if st in STATES:
        in_state(B, img, st, h, w)
    else:
        if st != "demodulated":
            B.method(img, "demosaic")
        img = B.method(img, "demodulate", demodulator(B, h, w, False)[0])
    y0, x0 = B.int("y0", 0, hint=(0, 14)), B.int("x0", 0, hint=(0, 14))
    B.assume(B.and_(y0 < 2 * h, x0 < 2 * w))
    r = B.int("r", 0, hint=(0, 8))
    o = B.int("o", 0, hint=(0, 3))
    kw = {"overoccult": o} if B.choice("over", [0, 1]) else {}
    fill = B.real("fill", hint=(-5, 5)) if B.choice("fill", [0, 1]) else 0
    if not isinstance(fill, int):
        kw["fill"] = fill
    R = r + o if "overoccult" in kw else r
    before, S0 = B.snap(data_of(B, img)), B.snap(stokes_of(B, img))
    full = st.startswith("demosaiced ") and st in STATES
    dem = [B.snap(x) for x in B.items(B.attr(img, "demosaiced_images"))] if full else None
    B.method(img, "mask_occulter", y0, x0, r, **kw)
    far = 2 * B.max(2 * h, 2 * w)
    sel = Region(B, y0, x0, R, far)
    ensure_selected(B, data_of(B, img), 2 * h, 2 * w, sel, lambda y, x: B.at(before, y, x), fill, "data outside the occulter kept")
    S = stokes_of(B, img)
    B.ensure_shape(S, (3, 2 * h, 2 * w) if full else (3, h, w), "Stokes")
    half = Region(B, B.trunc(B.real_of(y0) / 2), B.trunc(B.real_of(x0) / 2), B.trunc(B.real_of(R) / 2), 2 * B.max(h, w), superpixels=False)
    for c, n in enumerate("IQU"):
        if full:
            B.ensure_forall((2 * h, 2 * w), lambda y, x: (B.at(S, c, y, x), B.ite(sel(y, x), B.at(S0, c, y, x), fill)), "%s outside the occulter kept (full size)" % n)
        else:
            B.ensure_forall((h, w), lambda y, x: (B.at(S, c, y, x), B.ite(half(y, x), B.at(S0, c, y, x), fill)), "%s outside the occulter kept" % n)
    if full:
        now = B.items(B.attr(img, "demosaiced_images"))
        for k in range(4):
            ensure_selected(B, now[k], 2 * h, 2 * w, sel, lambda y, x: B.at(dem[k], y, x), fill, "demosaiced image %d masked alike" % k)


CAM = "cameras."


@contract("C14", [CAM + "Camera.occulter_roi"] + ROI, battery=60)
def camera_roi(B):
    h, w = B.int("h", 1, hint=(1, 8)), B.int("w", 1, hint=(1, 8))
    d = B.array("d", (2 * h, 2 * w), "f8")
    y0, x0, r = B.int("y0", 0, hint=(0, 14)), B.int("x0", 0, hint=(0, 14)), B.int("r", 0, hint=(0, 8))
    cam = B.call(CAM + "PolarCam")
    B.setattr(cam, "occulter_pos_last", [y0, x0, r])
    kw, o, fill = {}, 0, 0
    if B.choice("given", [0, 1]):
        o, fill = B.int("o", 0, hint=(0, 3)), B.real("fill", hint=(-5, 5))
        kw = {"overoccult": o, "fill": fill}
    out = B.method(cam, "occulter_roi", d, **kw)
    sel = Region(B, y0, x0, r + o, 5000)
    ensure_selected(B, out, 2 * h, 2 * w, sel, lambda y, x: B.at(d, y, x), fill, "outside the camera's occulter kept")


@contract("C14", [CAM + "Camera.occulter_mask"] + ROI, battery=60)
def camera_mask(B):
    h, w = B.int("h", 1, hint=(1, 8)), B.int("w", 1, hint=(1, 8))
    y0, x0, r = B.int("y0", 0, hint=(0, 14)), B.int("x0", 0, hint=(0, 14)), B.int("r", 0, hint=(0, 8))
    cam = B.call(CAM + "PolarCam")
    B.setattr(cam, "occulter_pos_last", [y0, x0, r])
    B.setattr(cam, "h_image", 2 * h)
    B.setattr(cam, "w_image", 2 * w)
    kw, o, far = {}, 0, B.min(y0, x0)
    if B.choice("given", [0, 1]):
        o, far = B.int("o", 0, hint=(0, 3)), B.int("far", 0, hint=(0, 20))
        kw = {"overoccult": o, "rmax": far}
    out = B.method(cam, "occulter_mask", **kw)
    ensure_selected(B, out, 2 * h, 2 * w, Region(B, y0, x0, r + o, far), lambda y, x: True, False, "True outside the occulter up to rmax")
