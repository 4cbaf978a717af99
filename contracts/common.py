"""Helpers shared by the contracts (both back ends)."""

POS = [(0, 0), (0, 1), (1, 0), (1, 1)]
MAP = {0: 1, 45: 0, -45: 3, 90: 2}          # some assignment of the orientations
MAP2 = {0: 2, 45: 3, -45: 0, 90: 1}
ANG = [0, 45, -45, 90]


def perms():
    import itertools
    return [dict(zip(ANG, p)) for p in itertools.permutations(range(4))]


def mimg(B, data, amap=None, **kw):
    """a MicropolImage of data"""
    return B.call("MicropolImage", data, angle_dic=dict(amap or MAP), **kw)


def plain(B, data):
    return B.call("Image", data)


def data_of(B, img):
    return B.attr(img, "data")


def stokes_of(B, img):
    return B.attr(img, "Stokes_vec")


def fam(f):
    return POS[f]


def theo(B, d, amap, c, y, x):
    """Stokes component c of superpixel (y, x) of data d"""
    p = lambda f: B.at(d, 2 * y + POS[f][0], 2 * x + POS[f][1])
    if c == 0:
        return (p(0) + p(1) + p(2) + p(3)) / 2
    if c == 1:
        return p(amap[0]) - p(amap[90])
    return p(amap[45]) - p(amap[-45])


def ensure_theo(B, img, d, amap, h, w, what):
    """img's Stokes are the half-resolution theoretical ones of data d (2h x 2w)"""
    S = stokes_of(B, img)
    B.ensure_shape(S, (3, h, w), what)
    for c, n in enumerate("IQU"):
        B.ensure_forall((h, w), lambda y, x: (B.at(S, c, y, x), theo(B, d, amap, c, y, x)), "%s: %s" % (what, n))


def fam_at(B, s, h, w, f):
    """sample of family f in superpixel (y, x), the last one again beyond the border"""
    j, i = POS[f]
    return lambda y, x: B.at(s, 2 * B.min(y, h - 1) + j, 2 * B.min(x, w - 1) + i)


def demo_at(B, s, h, w, f, mode, Y, X, p, q):
    """demosaiced image of family f at pixel (2Y+p, 2X+q)"""
    g = fam_at(B, s, h, w, f)
    if mode == "mean":
        return g(Y, X) / 4
    v = [g(Y, X)]
    if q:
        v.append(g(Y, X + 1))
    if p:
        v.append(g(Y + 1, X))
    if p and q:
        v.append(g(Y + 1, X + 1))
    t = v[0]
    for z in v[1:]:
        t = t + z
    return t / len(v)


def theo_of(p, amap, c):
    """Stokes component c of four pixel values p(family)"""
    if c == 0:
        return (p(0) + p(1) + p(2) + p(3)) / 2
    if c == 1:
        return p(amap[0]) - p(amap[90])
    return p(amap[45]) - p(amap[-45])


def ensure_theo_full(B, img, d, amap, h, w, mode, what):
    """img's Stokes are the full-resolution ones of the demosaiced data d"""
    S = stokes_of(B, img)
    B.ensure_shape(S, (3, 2 * h, 2 * w), what)
    for c, n in enumerate("IQU"):
        for p, q in POS:
            B.ensure_forall((h, w), lambda Y, X: (B.at(S, c, 2 * Y + p, 2 * X + q), theo_of(lambda f: demo_at(B, d, h, w, f, mode, Y, X, p, q), amap, c)), "%s: %s at (%d,%d)" % (what, n, p, q))


STATES = ["fresh", "demosaiced mean", "demosaiced adjacent", "stale"]


def in_state(B, img, state, h, w, name="st"):
    """bring an image (2h x 2w) into a history state; 'stale' has Stokes components that are not its own"""
    if state.startswith("demosaiced"):
        B.method(img, "demosaic", state.split()[1])
    if state == "stale":
        B.setattr(img, "Stokes_vec", B.array(name, (3, h, w), "f8"))
        B.setattr(img, "_is_demodulated", True)
    return img


LIGHT = ["fresh", "demodulated"]
HISTORY = ["fresh", "demosaiced", "demodulated", "demosaiced and demodulated"]


def history(B, img, h, w, states=HISTORY, name="past", light=False):
    """bring an image (2h x 2w) into a state of use, with Stokes components of a demodulation that are arbitrary"""
    st = B.choice(name, LIGHT if light and B.symbolic else list(states))
    if st.startswith("demosaiced"):
        B.method(img, "demosaic", "mean")
    if st.endswith("demodulated"):
        full = st.startswith("demosaiced")
        B.setattr(img, "Stokes_vec", B.array(name + "_S", (3, 2 * h, 2 * w) if full else (3, h, w), "f8", edges=(0.0,)))
        B.setattr(img, "_is_demodulated", True)
    return img


def ensure_current(B, img, state, amap, h, w, what):
    """Stokes components of img are those of its present data, in the way of its state"""
    d = B.snap(data_of(B, img))
    B.ensure_shape(d, (2 * h, 2 * w), what)
    if state.startswith("demosaiced"):
        ensure_theo_full(B, img, d, amap, h, w, state.split()[1], what)
    else:
        ensure_theo(B, img, d, amap, h, w, what)


def demodulator(B, h, w, flags, name="m"):
    """a Demodulator holding an arbitrary tensor (h x w superpixels) and fit marks"""
    D = B.new("processing.demodulation.Demodulator")
    m = B.array(name, (3, 4, h, w), "f8")
    B.setattr(D, "n_pixels_in_superpix", 4)
    B.setattr(D, "n_malus_params", 3)
    B.setattr(D, "mij", m)
    f = B.array(name + "_fit", (h, w), "f8", lo=0, hi=1, edges=(0.0, 1.0, 1.0)) if flags else None
    B.setattr(D, "fit_found_flags", f)
    return D, m, f
