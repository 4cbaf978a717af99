"""Callee contracts used at call sites (modular verification): a function whose
contract is discharged by its own property (owner) is replaced, in the proofs of the
other properties, by that contract.  Arguments outside the proved precondition are
not summarised: the body is then executed."""
import z3
from engine import terms as T
from engine.values import Arr, new_arr
from contracts.common import POS

F = "micropolarray.processing."


def isint(v):
    return isinstance(v, int) or (T.is_t(v) and v.sort() == T.I)


def two_d(v, dts=("f8", "u2")):
    return isinstance(v, Arr) and v.ndim == 2 and v.dtype in dts


def half(E, n):
    """k with n == 2k, or None"""
    k = T.idiv(n, 2)
    if E.entails(T.eq(T.mul(2, k), n)) and E.entails(T.ge(n, 2)):
        return k
    return None


def demosaic(E, f, v):
    d, mode = v.get("image_data"), v.get("option")
    if not two_d(d) or mode not in ("mean", "adjacent"):
        return NotImplemented
    h, w = half(E, d.shape[0]), half(E, d.shape[1])
    if h is None or w is None:
        return NotImplemented
    rd = d.reader()
    real = lambda y, x: T.toreal(rd((y, x)))

    def family(j, i):
        def g(Y, X):
            return real(T.add(T.mul(2, T.min_(Y, T.sub(h, 1))), j), T.add(T.mul(2, T.min_(X, T.sub(w, 1))), i))
        return g

    def content(ix):
        c, y, x = ix
        Y, X = T.idiv(y, 2), T.idiv(x, 2)

        def val(k):
            g = family(*POS[k])
            a = g(Y, X)
            if mode == "mean":
                return T.mul(a, T.Fraction(1, 4))
            ey, ex = T.eq(T.mod(y, 2), 0), T.eq(T.mod(x, 2), 0)
            X1, Y1 = T.add(X, 1), T.add(Y, 1)
            hb = lambda p, q: T.mul(T.add(p, q), T.Fraction(1, 2))
            diag = lambda: T.mul(T.add(T.add(a, g(Y, X1)), T.add(g(Y1, X), g(Y1, X1))), T.Fraction(1, 4))
            return T.ite(ey, T.ite(ex, a, hb(a, g(Y, X1))), T.ite(ex, hb(a, g(Y1, X)), diag()))
        c = T.conc(c)
        if not T.is_t(c):
            return val(c)
        return T.ite(T.eq(c, 0), val(0), T.ite(T.eq(c, 1), val(1), T.ite(T.eq(c, 2), val(2), val(3))))
    return new_arr((4, d.shape[0], d.shape[1]), "f8", content)


def micropolarray_rebin(E, f, v):
    d, b = v.get("data"), v.get("binning")
    if not two_d(d, ("f8",)) or isinstance(b, bool) or not (isint(b)):
        return NotImplemented
    h, w = half(E, d.shape[0]), half(E, d.shape[1])
    if h is None or w is None or not E.entails(T.ge(b, 1)):
        return NotImplemented
    rd = d.reader()

    def content(ix):
        y, x = ix
        Y, X, j, i = T.idiv(y, 2), T.idiv(x, 2), T.mod(y, 2), T.mod(x, 2)
        return E.np.nested_sum([b, b], lambda k: T.toreal(rd((T.add(T.mul(2, T.add(T.mul(b, Y), k[0])), j), T.add(T.mul(2, T.add(T.mul(b, X), k[1])), i)))))
    return new_arr((T.mul(2, T.idiv(h, b)), T.mul(2, T.idiv(w, b))), "f8", content)


def shift(E, f, v):
    d, y, x, m = v.get("data"), v.get("y"), v.get("x"), v.get("missing_value")
    if not two_d(d, ("f8",)) or not isint(y) or not isint(x) or not T.is_num(m):
        return NotImplemented
    rd = d.reader()
    h, w = d.shape

    def content(ix):
        j, i = T.sub(ix[0], y), T.sub(ix[1], x)
        return T.ite(T.and_(T.ge(j, 0), T.lt(j, h), T.ge(i, 0), T.lt(i, w)), T.toreal(rd((j, i))), T.toreal(m))
    return new_arr(d.shape, "f8", content)


def ifov(E, f, v):
    d, h, w = v.get("data"), v.get("height"), v.get("width")
    if not two_d(d) or half(E, d.shape[0]) is None or half(E, d.shape[1]) is None:
        return NotImplemented
    if not E.entails(T.and_(T.eq(h, d.shape[0]), T.eq(w, d.shape[1]))):
        return NotImplemented
    rd = d.reader()
    real = lambda y, x: T.toreal(rd((y, x)))

    def content(ix):
        y, x = ix
        yy, xx = T.sub(y, 2), T.sub(x, 2)
        t = T.add(T.add(real(yy, xx), real(yy, x)), T.add(real(y, xx), real(y, x)))
        return T.ite(T.and_(T.ge(y, 2), T.ge(x, 2)), T.mul(t, T.Fraction(1, 4)), T.Fraction(0))
    return new_arr((h, w), "f8", content)


def chunk(E, f, v):
    """what is calculated for a superpixel of a block is a function of its own pixels"""
    names = ["splitted_normalized_dara_arr", "splitted_pixel_erorrs", "splitted_occulter_flag", "polarizer_orientations", "rad_micropol_phases_previsions", "tk_boundary", "eff_boundary", "DEBUG"]
    if any(n not in v for n in names):
        return NotImplemented
    d, e, o, pol, ph, tk, ef, dbg = [v[n] for n in names]
    if not (isinstance(d, Arr) and isinstance(e, Arr) and isinstance(o, Arr)) or dbg is not False:
        return NotImplemented
    if d.ndim != 3 or e.ndim != 3 or o.ndim != 2 or any(x.dtype != "f8" for x in (d, e, o)):
        return NotImplemented
    n = T.conc(d.shape[0])
    if T.is_t(n) or not E.entails(T.and_(T.eq(e.shape[0], n), *[T.and_(T.eq(d.shape[k + 1], e.shape[k + 1]), T.eq(d.shape[k + 1], o.shape[k])) for k in (0, 1)])):
        return NotImplemented
    h, w = half(E, d.shape[1]), half(E, d.shape[2])
    if h is None or w is None:
        return NotImplemented
    extra, tag = [], []
    for x, m in ((pol, n), (ph, 4), (tk, 3), (ef, 3)):
        if x is None:
            tag.append("d")
            continue
        x = E.np.np_array(E, x) if not isinstance(x, Arr) else x
        if x.ndim != 1 or T.conc(x.shape[0]) != m:
            return NotImplemented
        rd = x.reader()
        tag.append(str(m))
        extra += [T.tz(T.toreal(rd((k,)))) for k in range(m)]
    rds = [d.reader(), e.reader(), o.reader()]

    def uf(name, Y, X, ints, sort=T.R):
        ys, xs = T.mul(2, Y), T.mul(2, X)
        own = [T.tz(T.toreal(rds[k]((p, T.add(ys, a), T.add(xs, b))))) for k in (0, 1) for p in range(n) for a, b in POS]
        own += [T.tz(T.toreal(rds[2]((T.add(ys, a), T.add(xs, b))))) for a, b in POS]
        args = own + extra + [T.tz(i) for i in ints]
        F = z3.Function("chunk_%s_%s" % (name, "_".join(tag)), *([x.sort() for x in args] + [sort]))
        return F(*args)
    two = lambda y: (T.idiv(y, 2), T.mod(y, 2))

    def pix(name):
        def g(ix):
            (Y, a), (X, b) = two(ix[-2]), two(ix[-1])
            return uf(name, Y, X, list(ix[:-2]) + [a, b])
        return g
    sup = lambda name: lambda ix: uf(name, ix[-2], ix[-1], list(ix[:-2]))
    H, W = d.shape[1], d.shape[2]
    return (new_arr((3, 4, h, w), "f8", sup("m")), new_arr((H, W), "f8", pix("tk")), new_arr((H, W), "f8", pix("eff")), new_arr((H, W), "f8", pix("phase")),
            new_arr((h, w), "f8", sup("fit")), new_arr((3, 3, H, W), "f8", pix("cov")), new_arr((H, W), "f8", pix("chi")))


class Summary:
    def __init__(self, owner, fn):
        self.owner, self.fn = owner, fn

    def apply(self, E, f, vals):
        return self.fn(E, f, vals)


TABLE = {
    F + "demosaic.demosaic": Summary("C06.mean, C06.adjacent_mode", demosaic),
    F + "rebin.micropolarray_rebin": Summary("C05.functions", micropolarray_rebin),
    F + "demodulation.compute_demodulation_by_chunk": Summary("C09.superpixel_*", chunk),
    F + "shift.shift": Summary("C07.functions", shift),
    F + "chen_wan_liang_calibration._ifov_jitcorrect": Summary("C21.ifov_function", ifov),
}


def install(E, prop, name=""):
    """a contract of the property that owns a summary executes the body, except C09's
    grid contracts, which rest on its superpixel contracts"""
    own = lambda s: s.owner.startswith(prop + ".") and not (prop == "C09" and not name.startswith("superpixel"))
    E.summaries = {q: s for q, s in TABLE.items() if not own(s)}
