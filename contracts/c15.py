"""C15: saving, loading and combining FITS images preserves every pixel."""
from engine.spec import contract
from contracts.common import *

IM, MI = "image.Image.", "micropol_image.MicropolImage."
CLASSES = {"Image": plain, "MicropolImage": mimg}
OUT = ["out.fits", "new.d/run.2/out.v1.fits"]
ARR = ["f8", "f4", "i2", "i4", "u2", "u1"]


def clip(B, v, fix):
    if fix is None:
        return v
    return B.min(B.max(v, fix[0]), fix[1])


def fixto(B):
    """no clipping, or a range"""
    kind = B.choice("fixto", ["none", "from 0", "to 0", "any", "tuple"])
    if kind == "none":
        return None
    lo, hi = B.real("lo", hint=(-3, 3), edges=(0.0,)), B.real("hi", hint=(-3, 9), edges=(0.0,))
    if kind == "from 0":
        lo = 0
    elif kind == "to 0":
        hi = 0
    B.assume(lo <= hi)
    return (lo, hi) if kind == "tuple" else [lo, hi]


def size(B, even=True):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    return (2 * h, 2 * w) if even else (h, w)


@contract("C15", [IM + "__init__", IM + "_init_image_from_file", IM + "save_as_fits", MI + "__init__"], battery=120)
def save_and_load(B):
    cls = B.choice("class", list(CLASSES))
    dt = B.choice("dtype", ARR)
    H, W = size(B, cls != "Image")
    d = B.array("d", (H, W), dt)
    s = B.snap(d)
    img = CLASSES[cls](B, d)
    name = B.choice("name", OUT)
    given = B.choice("path", ["absolute", "relative"])
    path = B.path(name) if given == "absolute" else name
    B.put_fits("out.fits", B.array("old", (3, 5), "f8"))       # to be overwritten
    B.method(img, "save_as_fits", path)
    B.ensure_array(B.get_fits(name), (H, W), lambda y, x: B.at(s, y, x), "pixels of the file")
    B.ensure_same(data_of(B, img), s, "image unchanged by saving")
    r = B.call(cls, path if B.choice("initializer", ["name", "list"]) == "name" else [path])
    B.ensure_array(data_of(B, r), (H, W), lambda y, x: B.at(s, y, x), "pixels of the loaded image")


@contract("C15", [IM + "save_as_fits", "utils.fix_data"], battery=100)
def save_clipped(B):
    cls = B.choice("class", list(CLASSES))
    H, W = size(B, cls != "Image")
    d = B.array("d", (H, W), B.choice("dtype", ["f8", "i4", "u2"]), edges=(0,))
    s = B.snap(d)
    img = CLASSES[cls](B, d)
    fix = fixto(B)
    B.method(img, "save_as_fits", B.path("out.fits"), fixto=fix)
    B.ensure_array(B.get_fits("out.fits"), (H, W), lambda y, x: clip(B, B.real_of(B.at(s, y, x)), fix), "clipped pixels")
    B.ensure_same(data_of(B, img), s, "image unchanged by saving")
    r = B.call(cls, B.path("out.fits"))
    B.ensure_array(data_of(B, r), (H, W), lambda y, x: clip(B, B.real_of(B.at(s, y, x)), fix), "clipped pixels of the loaded image")


@contract("C15", [IM + "save_as_fits"], battery=60)
def processed_then_saved(B):
    """the pixel type changes after the header was made"""
    H, W = size(B)
    d = B.array("d", (H, W), B.choice("dtype", ["u2", "i2", "u1"]), lo=0, hi=200)
    src = B.choice("source", ["array", "file"])
    if src == "file":
        B.put_fits("in.fits", d)
        img = B.call("MicropolImage", B.path("in.fits"))
    else:
        img = mimg(B, d)
    B.method(img, "subtract_dark", dark=mimg(B, B.array("dark", (H, W), "f8")))
    s = B.snap(data_of(B, img))
    B.method(img, "save_as_fits", B.path("out.fits"))
    r = B.call("MicropolImage", B.path("out.fits"))
    B.ensure_array(data_of(B, r), (H, W), lambda y, x: B.at(s, y, x), "pixels of the loaded image")


DATES = ["none", "standard", "antarticor"]


@contract("C15", [IM + "_init_image_from_file", MI + "__init__"], battery=140)
def combine(B):
    cls = B.choice("class", list(CLASSES))
    dt = B.choice("dtype", ["f8", "u2", "i2"])
    n = B.choice("n", [1, 2, 3, 4, 5])
    how = B.choice("how", ["default", "mean", "sum"])
    H, W = size(B, cls != "Image")
    date = DATES[n % 3]
    snaps, names = [], []
    for k in range(n):
        a = B.array("f%d" % k, (H, W), dt)
        snaps.append(B.snap(a))
        names.append("in.d/f%d.fits" % k)
        hd = {} if date == "none" else {"DATE-OBS": "2022-12-0%dT03:04:05.678" % (9 - k)} if date == "standard" else {"DATE-OBS": "2022-12-0%d" % (k + 1), "TIME-OBS": "03:04:05.678"}
        B.put_fits(names[-1], a, hd)
    files = [B.path(x) for x in names]
    r = B.call(cls, files) if how == "default" else B.call(cls, files, averageimages=how == "mean")

    def val(y, x):
        t = B.real_of(B.at(snaps[0], y, x))
        for s in snaps[1:]:
            t = t + B.at(s, y, x)
        return t if how == "sum" else t / n
    B.ensure_array(data_of(B, r), (H, W), val, "%s of %d files" % (how, n))
    for k in range(n):
        B.ensure_same(B.get_fits(names[k]), snaps[k], "files unchanged")
    B.ensure(len(files) == n, "list of names unchanged")


@contract("C15", [IM + "_init_image_from_file"], battery=20)
def empty_list(B):
    B.raises("Exception", B.choice("class", list(CLASSES)), [])


def pick(B, base, tail):
    """the one file of this ending"""
    fs = [f for f in B.files() if f.startswith(base) and f.endswith(tail)]
    B.ensure(len(fs) == 1, "exactly one file %s*%s is written" % (base, tail))
    return fs[0] if fs else base + tail


@contract("C15", [MI + "save_single_pol_images", "utils.fix_data"] + [MI + p for p in ("pol0", "pol45", "pol_45", "pol90")], battery=100)
def single_pols(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    d = B.array("d", (2 * h, 2 * w), B.choice("dtype", ["f8", "u2"]))
    s = B.snap(d)
    amap = B.choice("map", [MAP, MAP2])
    img = mimg(B, d, amap)
    name = B.choice("name", OUT)
    fix = fixto(B)
    if fix is None:
        B.method(img, "save_single_pol_images", B.path(name))
    else:
        B.method(img, "save_single_pol_images", B.path(name), fixto=fix)
    base = name[:-5]
    B.ensure(len(B.files()) == 4, "four files are written")
    for a in ANG:
        f = [n for n in B.files() if n in (base + "POL%d.fits" % a, base + "_POL%d.fits" % a)]
        B.ensure(len(f) == 1, "the file of orientation %d is written" % a)
        j, i = POS[amap[a]]
        B.ensure_array(B.get_fits(f[0]), (h, w), lambda y, x: clip(B, B.real_of(B.at(s, 2 * y + j, 2 * x + i)), fix), "pixels of orientation %d" % a)
        B.ensure(int(B.text(B.get_header(f[0], "POL"))) == a, "label of orientation %d" % a)
    B.ensure_same(data_of(B, img), s, "image unchanged by saving")


@contract("C15", [MI + "save_demosaiced_images_as_fits", "utils.fix_data"], battery=80)
def demosaiced(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    d = B.array("d", (2 * h, 2 * w), "f8")
    amap = B.choice("map", [MAP, MAP2])
    img = mimg(B, d, amap)
    name = B.choice("name", OUT)
    B.method_raises("ValueError", img, "save_demosaiced_images_as_fits", B.path(name))
    B.ensure(B.files() == [], "nothing is written before demosaicing")
    B.method(img, "demosaic", B.choice("mode", ["mean", "adjacent"]))
    dm = B.snap(B.attr(img, "demosaiced_images"))
    fix = fixto(B)
    B.method(img, "save_demosaiced_images_as_fits", B.path(name), fixto=fix)
    B.ensure(len(B.files()) == 4, "four files are written")
    for a in ANG:
        f = name[:-5] + "_POL%d.fits" % a
        B.ensure_array(B.get_fits(f), (2 * h, 2 * w), lambda y, x: clip(B, B.at(dm, amap[a], y, x), fix), "demosaiced pixels of orientation %d" % a)
        B.ensure_eq(B.get_header(f, "POL"), a, "label of orientation %d" % a)
    B.ensure_same(B.attr(img, "demosaiced_images"), dm, "demosaiced images unchanged by saving")


PARAMS = ["I", "Q", "U", "pB", "AoLP", "DoLP"]
TITLES = {"I": "Stokes I", "Q": "Stokes Q", "U": "Stokes U", "pB": "Polarized brightness", "AoLP": "Angle of Linear Polarization", "DoLP": "Degree of Linear Polarization"}


def param_image(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    img = mimg(B, B.array("d", (2 * h, 2 * w), "f8", lo=0.5, hi=4000), B.choice("map", [MAP, MAP2]))
    history(B, img, h, w, LIGHT)
    B.setitem(B.attr(img, "header"), "MYKEY", 7)
    return h, w, img


def ensure_param(B, img, f, p, h, w, fix, what):
    want = B.attr(B.attr(img, p), "data")
    got = B.get_fits(f)
    B.ensure_shape(got, (h, w), what)
    B.ensure_forall((h, w), lambda y, x: (B.at(got, y, x), clip(B, B.at(want, y, x), fix)), what)
    B.ensure(B.text(B.get_header(f, "PARAM")).strip() == TITLES[p], "label of " + p)
    B.ensure_eq(B.get_header(f, "MYKEY"), 7, "header of " + p)


@contract("C15", [MI + "save_param_as_fits", "utils.fix_data"], battery=120)
def one_param(B):
    h, w, img = param_image(B)
    p = B.choice("param", PARAMS)
    name = B.choice("name", OUT)
    fix = fixto(B)
    S = B.snap(stokes_of(B, img))
    B.method(img, "save_param_as_fits", p, B.path(name), fixto=fix)
    f = name[:-5] + "_%s.fits" % p
    B.ensure(B.files() == [f], "one file is written")
    ensure_param(B, img, f, p, h, w, fix, "pixels of " + p)
    B.ensure_same(stokes_of(B, img), S, "Stokes components unchanged by saving")


@contract("C15", [MI + "save_all_pol_params_as_fits", MI + "polparam_list"], battery=80)
def all_params(B):
    h, w, img = param_image(B)
    name = B.choice("name", OUT)
    B.method(img, "save_all_pol_params_as_fits", B.path(name))
    B.ensure(len(B.files()) == 6, "six files are written")
    for p in PARAMS:
        ensure_param(B, img, name[:-5] + "_%s.fits" % p, p, h, w, None, "pixels of " + p)


@contract("C15", [IM + "save_as_fits"] + [MI + n for n in ("save_single_pol_images", "save_param_as_fits", "save_all_pol_params_as_fits", "save_demosaiced_images_as_fits")], battery=80)
def other_names_refused(B):
    h, w = B.int("h", 1, hint=(1, 3)), B.int("w", 1, hint=(1, 3))
    img = mimg(B, B.array("d", (2 * h, 2 * w), "f8"))
    B.method(img, "demosaic", "mean")
    name = B.path(B.choice("name", ["out", "out.dat", "out.fits.gz", "d.fits/out", "out.fit"]))
    m = B.choice("method", ["save_as_fits", "save_single_pol_images", "save_param_as_fits", "save_all_pol_params_as_fits", "save_demosaiced_images_as_fits"])
    B.method_raises(("ValueError", "FileNotFoundError"), img, m, *(["pB", name] if m == "save_param_as_fits" else [name]))
    B.ensure(B.files() == [], "nothing is written")
