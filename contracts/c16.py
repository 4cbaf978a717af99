"""C16: raw camera files are decoded exactly and never lost."""
from engine.spec import contract
from contracts.common import *

C = "processing.convert."
DECODE = C + "three_bytes_to_two_ints"


def ensure_decoded(B, out, at, n, what):
    """out: the 2n pixels of the 3n bytes at(k)"""
    B.ensure_shape(out, (2 * n,), what)
    B.ensure_forall((n,), lambda k: (B.at(out, 2 * k), 16 * at(3 * k) + at(3 * k + 1) // 16), what + ": first pixel of three bytes")
    B.ensure_forall((n,), lambda k: (B.at(out, 2 * k + 1), 16 * at(3 * k + 2) + at(3 * k + 1) % 16), what + ": second pixel of three bytes")


@contract("C16", [DECODE], battery=100)
def packed_bytes(B):
    """the bytes as read from a file"""
    n = B.int("n", 0, hint=(0, 6))
    b = B.array("b", (3 * n,), "u1", edges=(0, 255, 15, 16))
    B.put_bytes("f.bin", b)
    data = B.read_bytes("f.bin")
    out = B.call(DECODE, data)
    ensure_decoded(B, out, lambda k: B.at(b, k), n, "decoded")


SIDE = 1952
TOTAL = SIDE * SIDE * 3 // 2


@contract("C16", [C + "nparr_from_binary", DECODE], battery=1)
def packed_file(B):
    b = B.array("b", (TOTAL,), "u1", edges=(0, 255, 15, 16))
    B.put_bytes("run.1/f.bin", b)
    out = B.call(C + "nparr_from_binary", B.path("run.1/f.bin"))
    B.ensure_shape(out, (SIDE, SIDE), "image")
    first = lambda y, x: (B.at(out, y, 2 * x), 16 * B.at(b, 3 * (y * (SIDE // 2) + x)) + B.at(b, 3 * (y * (SIDE // 2) + x) + 1) // 16)
    second = lambda y, x: (B.at(out, y, 2 * x + 1), 16 * B.at(b, 3 * (y * (SIDE // 2) + x) + 2) + B.at(b, 3 * (y * (SIDE // 2) + x) + 1) % 16)
    ys = SIDE if B.symbolic else 40
    off = 0 if B.symbolic else SIDE - 40
    B.ensure_forall((ys, SIDE // 2), first, "first pixel of three bytes")
    B.ensure_forall((ys, SIDE // 2), second, "second pixel of three bytes")
    if not B.symbolic:
        B.ensure_forall((ys, SIDE // 2), lambda y, x: first(y + off, x), "first pixel, end of the image")
        B.ensure_forall((ys, SIDE // 2), lambda y, x: second(y + off, x), "second pixel, end of the image")


@contract("C16", [C + "nparr_from_binary"], battery=20)
def packed_file_of_wrong_length(B):
    n = B.choice("n", [0, 1, 96, 95, 300, 9600])
    B.put_bytes("f.bin", B.array("b", (n,), "u1"))
    B.raises("ValueError", C + "nparr_from_binary", B.path("f.bin"))


@contract("C16", [C + "convert_set", C + "nparr_from_binary"], battery=1)
def convert_one(B):
    b = B.array("b", (TOTAL,), "u1", edges=(0, 255, 15, 16))
    B.put_bytes("f.bin", b)
    aslist = B.choice("list", [True, False])
    B.call(C + "convert_set", [B.path("f.bin")] if aslist else B.path("f.bin"), B.path("new.fits"), SIDE, SIDE)
    out = B.get_fits("new.fits")
    B.ensure_shape(out, (SIDE, SIDE), "image")
    ys = SIDE if B.symbolic else 20
    k = lambda y, x: 3 * (y * (SIDE // 2) + x)
    B.ensure_forall((ys, SIDE // 2), lambda y, x: (B.at(out, y, 2 * x), 16 * B.at(b, k(y, x)) + B.at(b, k(y, x) + 1) // 16), "first pixel of three bytes")
    B.ensure_forall((ys, SIDE // 2), lambda y, x: (B.at(out, y, 2 * x + 1), 16 * B.at(b, k(y, x) + 2) + B.at(b, k(y, x) + 1) % 16), "second pixel of three bytes")
    B.ensure(B.exists("f.bin"), "the binary file is kept")


def raw(B, name, rel, h, w):
    """a raw file of h x w pixels; its pixel values"""
    b = B.array(name, (2 * h * w,), "u1", edges=(0, 255, 128))
    B.put_bytes(rel, b)
    return lambda y, x: B.at(b, 2 * (y * w + x)) + 256 * B.at(b, 2 * (y * w + x) + 1)


NAMES = ["a.raw", "run.v1/img_01.raw", "d.raw/img.raw.v2.raw", "fits/x.fits.raw"]


@contract("C16", [C + "merge_rawfiles_to_fits", C + "average_rawfiles_to_fits"], battery=100)
def merged(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    n = B.choice("n", [1, 2, 3, 5])
    names = ["run.%d/img_%d.raw" % (i % 2, i) for i in range(n)]
    px = [raw(B, "r%d" % i, names[i], h, w) for i in range(n)]
    how = B.choice("how", ["default", "sum", "average", "average function"])
    new = B.choice("new", ["out.fits", "run.0/out.v2.fits"])
    files = [B.path(x) for x in names]
    if n == 1 and B.choice("single", [True, False]):
        files = files[0]
    args = (files, B.path(new), h, w)
    if how == "average function":
        B.call(C + "average_rawfiles_to_fits", *args)
    elif how == "default":
        B.call(C + "merge_rawfiles_to_fits", *args)
    else:
        B.call(C + "merge_rawfiles_to_fits", *args, mode=how)
    out = B.get_fits(new)

    def val(y, x):
        t = px[0](y, x)
        for p in px[1:]:
            t = t + p(y, x)
        return B.real_of(t) / n if how.startswith("average") else t
    B.ensure_array(out, (h, w), val, "pixels of the merged file (%s)" % how)
    for x in names:
        B.ensure(B.exists(x), "raw file %s is kept" % x)


@contract("C16", [C + "merge_rawfiles_to_fits", C + "average_rawfiles_to_fits"], battery=40)
def merge_refuses_other_names(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    raw(B, "r", "a.raw", h, w)
    f = B.choice("f", ["merge_rawfiles_to_fits", "average_rawfiles_to_fits", "convert_set"])
    new = B.choice("new", ["a.raw", "out.bin", "out", "out.fits.bin"])
    B.raises("ValueError", C + f, [B.path("a.raw")], B.path(new), h, w)
    B.ensure(B.exists("a.raw"), "the raw file is kept")
    B.ensure(sorted(B.files()) == ["a.raw"], "nothing is written")


@contract("C16", [C + "convert_rawfile_to_fits"], battery=120)
def converted(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    B.watch_removals()
    name = B.choice("name", NAMES)
    px = raw(B, "r", name, h, w)
    other = raw(B, "o", "other.raw", h, w)
    B.mkdir("sub.x")
    given = B.choice("given", ["absolute", "relative", "dot", "dots"])
    path = {"absolute": B.path(name), "relative": name, "dot": "./" + name, "dots": "sub.x/../" + name}[given]
    remove = B.choice("remove", ["default", False, True])
    if remove == "default":
        B.call(C + "convert_rawfile_to_fits", path, h, w)
    else:
        B.call(C + "convert_rawfile_to_fits", path, h, w, remove_old=remove)
    new = name[:-len(".raw")] + ".fits"
    B.ensure_array(B.get_fits(new), (h, w), px, "pixels of the converted file")
    gone = remove is True
    B.ensure(B.exists(name) != gone, "the raw file is %s" % ("removed" if gone else "kept"))
    B.ensure(B.exists("other.raw"), "other files are kept")
    B.ensure(sorted(B.files()) == sorted(["other.raw", new] + ([] if gone else [name])), "exactly one file is written")
    for n, there in B.removals():
        B.ensure(n == name, "only the raw file is removed")
        B.ensure(new in there, "the FITS file is there before the raw file is removed")


@contract("C16", [C + "convert_rawfile_to_fits"], battery=60)
def failed_conversion(B):
    """whatever step fails, the raw file stays"""
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    B.watch_removals()
    name = B.choice("name", NAMES)
    raw(B, "r", name, h, w)
    how = B.choice("how", ["write fails", "too short"])
    remove = B.choice("remove", [True, False])
    if how == "write fails":
        B.fail_writes()
        ex, _ = B.try_call(C + "convert_rawfile_to_fits", B.path(name), h, w, remove_old=remove)
    else:
        ex, _ = B.try_call(C + "convert_rawfile_to_fits", B.path(name), h + 1, w, remove_old=remove)
    B.ensure(ex is not None, "the failure is reported")
    B.ensure(B.exists(name), "the raw file is kept")
    B.ensure(not B.removals(), "nothing is removed")


@contract("C16", [C + "convert_rawfile_to_fits"], battery=40)
def convert_refuses_other_names(B):
    h, w = B.int("h", 1, hint=(1, 4)), B.int("w", 1, hint=(1, 4))
    name = B.choice("name", ["a.bin", "a.raw.bin", "a", "x.raw/a.fits"])
    raw(B, "r", name, h, w)
    B.raises("ValueError", C + "convert_rawfile_to_fits", B.path(name), h, w, remove_old=B.choice("remove", [True, False]))
    B.ensure(B.files() == [name], "nothing is written or removed")
