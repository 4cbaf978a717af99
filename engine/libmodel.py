"""Contracts assumed for the libraries other than numpy: files, FITS, paths,
regular expressions, fitting, processes, clocks, plotting.

File names are concrete strings (stated as representative cases by the
contracts that use them); file contents are symbolic.
"""
import fnmatch
import os as _os
import posixpath as pp
import re as _re
import datetime as _dt
from fractions import Fraction
from pathlib import PurePosixPath
import z3
from . import terms as T
from . import solver as S
from .values import *

USED = set()


# ------------------------------------------------------------------ the world
class World(Cell):
    """modelled file system; every change is logged"""

    def __init__(self, cwd="/work"):
        Cell.__init__(self, "world")
        self.d["cwd"] = cwd
        self.d["log"] = ()
        self.d["dirs"] = frozenset(["/", cwd])
        self.d["order"] = None

    def norm(self, p):
        return pp.normpath(pp.join(self.d["cwd"], p))

    def add(self, p, rec):
        p = self.norm(p)
        self.mkdirs(pp.dirname(p))
        self.set(("file", p), rec)

    def mkdirs(self, p):
        ds = set(self.d["dirs"])
        while p not in ds:
            ds.add(p)
            p = pp.dirname(p)
        self.set("dirs", frozenset(ds))

    def files(self):
        return [k[1] for k in self.d if isinstance(k, tuple) and k[0] == "file"]

    def file(self, p):
        return self.d.get(("file", self.norm(p)))

    def event(self, *e):
        self.set("log", self.d["log"] + (e,))

    def exists(self, p):
        p = self.norm(p)
        return ("file", p) in self.d or p in self.d["dirs"]


def cstr(E, v, what="file name"):
    v = E.unbox(v) if not isinstance(v, (str, PathV)) else v
    if isinstance(v, PathV):
        return str(v.p)
    if isinstance(v, str):
        return v
    if isinstance(v, E.bm.SymStr):
        raise Unsupported("unknown %s" % what)
    E.fail("TypeError", "expected str, bytes or os.PathLike object")


class PathV:
    def __init__(self, p):
        self.p = PurePosixPath(p)

    def py_str(self):
        return str(self.p)

    def py_type(self, E):
        return E.builtins_path_type

    def py_eq(self, E, o):
        return isinstance(o, PathV) and o.p == self.p

    def py_truediv(self, E, a, b):
        x = a.p if isinstance(a, PathV) else cstr(E, a)
        y = b.p if isinstance(b, PathV) else cstr(E, b)
        return PathV(PurePosixPath(x) / y)

    def py_getattr(self, E, k):
        p, w = self.p, E.world
        if k in ("suffix", "stem", "name"):
            return getattr(p, k)
        if k == "suffixes":
            return PList(p.suffixes)
        if k == "parts":
            return tuple(p.parts)
        if k == "parent":
            return PathV(p.parent)
        fn = {
            "joinpath": lambda E, a, kw: PathV(p.joinpath(*[cstr(E, x) for x in a])),
            "with_suffix": lambda E, a, kw: self._try(E, lambda: PathV(p.with_suffix(a[0]))),
            "with_name": lambda E, a, kw: self._try(E, lambda: PathV(p.with_name(a[0]))),
            "with_stem": lambda E, a, kw: self._try(E, lambda: PathV(p.with_stem(a[0]))),
            "exists": lambda E, a, kw: w.exists(str(p)),
            "is_dir": lambda E, a, kw: w.norm(str(p)) in w.d["dirs"],
            "is_file": lambda E, a, kw: w.file(str(p)) is not None,
            "is_absolute": lambda E, a, kw: p.is_absolute(),
            "cwd": lambda E, a, kw: PathV(w.d["cwd"]),
            "absolute": lambda E, a, kw: PathV(PurePosixPath(w.d["cwd"]) / p),
            "resolve": lambda E, a, kw: PathV(w.norm(str(p))),
            "expanduser": lambda E, a, kw: self,
            "as_posix": lambda E, a, kw: str(p),
            "mkdir": lambda E, a, kw: mkdir(E, str(p), kw.get("parents", False), kw.get("exist_ok", False)),
            "unlink": lambda E, a, kw: remove(E, str(p)),
            "open": lambda E, a, kw: open_(E, [str(p)] + list(a), kw),
            "read_bytes": lambda E, a, kw: read_bytes(E, str(p)),
            "iterdir": lambda E, a, kw: IterV([PathV(x) for x in listing(E, [q for q in w.files() if pp.dirname(q) == w.norm(str(p))])]),
            "glob": lambda E, a, kw: IterV([PathV(x) for x in do_glob(E, str(p) + "/" + a[0])]),
            "match": lambda E, a, kw: p.match(a[0]),
            "__fspath__": lambda E, a, kw: str(p),
        }.get(k)
        if fn is None:
            raise Unsupported("Path." + k)
        return Builtin("Path." + k, fn)

    def _try(self, E, f):
        try:
            return f()
        except ValueError as e:
            E.fail("ValueError", str(e))


def mkdir(E, p, parents, exist_ok):
    w = E.world
    q = w.norm(p)
    if w.exists(q):
        if exist_ok and q in w.d["dirs"]:
            return
        E.fail("FileExistsError", q)
    if pp.dirname(q) not in w.d["dirs"] and not parents:
        E.fail("FileNotFoundError", q)
    w.mkdirs(q)
    w.event("mkdir", q)


def remove(E, p):
    w = E.world
    q = w.norm(p)
    if ("file", q) not in w.d:
        E.fail("FileNotFoundError" if q not in w.d["dirs"] else "IsADirectoryError", q)
    w.delete(("file", q))
    w.event("remove", q, tuple(w.files()))


def write_file(E, p, rec, overwrite=True):
    w = E.world
    q = w.norm(p)
    if w.d.get("fail_writes"):
        E.fail("OSError", "No space left on device")
    if pp.dirname(q) not in w.d["dirs"]:
        E.fail("FileNotFoundError", q)
    if w.file(q) is not None and not overwrite:
        E.fail("OSError", "File %s already exists" % q)
    w.set(("file", q), rec)
    w.event("write", q, rec)


def listing(E, names):
    """the order of a directory listing is not specified: a choice made by the contract"""
    names = sorted(names)
    o = E.world.d.get("order")
    if o is not None:
        return o(names)
    return names


def do_glob(E, pat):
    w = E.world
    q = pat if pp.isabs(pat) else pp.join(w.d["cwd"], pat)
    q = pp.normpath(q)
    out = []
    for f in list(w.files()) + list(w.d["dirs"]):
        if pp.dirname(f) == pp.dirname(q) and fnmatch.fnmatchcase(pp.basename(f), pp.basename(q)):
            if pp.basename(f).startswith(".") and not pp.basename(q).startswith("."):
                continue
            out.append(f)
    if any(ch in pp.dirname(q) for ch in "*?["):
        raise Unsupported("glob in directories")
    base = pp.dirname(pat)
    return [pp.join(base, pp.basename(f)) if base else pp.basename(f) for f in listing(E, out)]


# ------------------------------------------------------------------ bytes
class BytesV:
    """bytes of symbolic content: n, byte(k)"""

    def __init__(self, n, byte, le16=None, array=None):
        self.n, self.byte = n, byte
        self.array = array       # (shape, dtype, reader) if it is the memory of an array

    def py_len(self, E):
        return self.n

    def py_seq(self, E):
        return SymSeq(self.n, self.byte)

    def py_items(self, E):
        n = T.conc(self.n)
        if T.is_t(n):
            for k in range(0, 5):
                if E.entails(T.eq(n, k)):
                    n = k
                    break
            else:
                return None
        if n > 64:
            return None
        return [self.byte(k) for k in range(n)]

    def py_truth(self, E):
        return E.branch(T.gt(self.n, 0))

    def py_getitem(self, E, k):
        if isinstance(k, slice):
            a, c, st = E.bm.norm_slice(E, k, self.n)
            b = self.byte
            return BytesV(c, lambda j: b(T.add(a, T.mul(st, j))))
        i = E.bm.norm_index(E, k, self.n)
        return self.byte(i)

    def py_type(self, E):
        return E.bm.TY["bytes"]

    def py_bytes(self, E):
        return self

    def np_array(self, E, dt):
        raise Unsupported("np.array of bytes (numpy drops trailing NUL bytes)")


def sym_bytes(name, n):
    f = z3.Function(name, T.I, T.I)
    S.FUN_RANGE[name] = (0, 255)
    return BytesV(n, lambda k: f(T.tz(k)))


class SymBits:
    """binary digit string: list of (value, width), most significant first.
    width None: minimal digits (result of bin())"""

    def __init__(self, v, prefix="", pieces=None):
        self.v, self.prefix, self.pieces = v, prefix, pieces

    def py_len(self, E):
        if self.pieces is None:
            raise Unsupported("length of bin()")
        return sum(w for _, w in self.pieces)

    def py_type(self, E):
        return E.bm.TY["str"]

    def py_getitem(self, E, k):
        if self.pieces is None:
            if isinstance(k, slice) and k.start == 2 and k.stop is None and k.step in (None, 1) and self.prefix == "0b":
                return SymBits(self.v, "")
            raise Unsupported("slice of bin()")
        n = sum(w for _, w in self.pieces)
        if isinstance(k, slice):
            if any(T.is_t(x) for x in (k.start, k.stop, k.step) if x is not None):
                raise Unsupported("symbolic slice of bits")
            a, b, st = k.indices(n)
            if st == -1:
                out = []
                for i in range(a, b, -1):
                    out.append(self.bit(i))
                return SymBits(None, "", out)
            if st != 1:
                raise Unsupported("strided bits")
        else:
            i = E.bm.norm_index(E, k, n)
            a, b = i, i + 1
        out = []
        pos = 0
        for v, w in self.pieces:
            lo, hi = max(a, pos), min(b, pos + w)
            if lo < hi:
                sh = pos + w - hi
                x = T.idiv(v, 1 << sh) if sh else v
                if lo > pos:
                    x = T.mod(x, 1 << (hi - lo))
                out.append((x, hi - lo))
            pos += w
        return SymBits(None, "", out)

    def bit(self, i):
        pos = 0
        for v, w in self.pieces:
            if pos <= i < pos + w:
                return (T.mod(T.idiv(v, 1 << (pos + w - 1 - i)), 2), 1)
            pos += w

    def py_getattr(self, E, k):
        if k in ("zfill", "rjust"):
            def zf(E, a, kw):
                n = a[0]
                if k == "rjust" and (len(a) < 2 or a[1] != "0"):
                    raise Unsupported("rjust")
                if self.pieces is not None:
                    w = sum(w for _, w in self.pieces)
                    return SymBits(None, "", ([(0, n - w)] if n > w else []) + self.pieces)
                if self.prefix:
                    raise Unsupported("zfill of bin()")
                if E.entails(T.and_(T.ge(self.v, 0), T.lt(self.v, 1 << n))):
                    return SymBits(None, "", [(self.v, n)])
                raise Unsupported("zfill overflow")
            return Builtin("zfill", zf)
        raise Unsupported("str." + k + " of bits")

    def py_int(self, E, base=10):
        if base != 2:
            raise Unsupported("int of bits with base %r" % base)
        if self.pieces is None:
            return self.v
        r = 0
        for v, w in self.pieces:
            r = T.add(T.mul(r, 1 << w), v)
        return r

    def py_binop(self, E, op, a, b):
        if op == "Add":
            return bits_concat([a, b])
        return NotImplemented


def bits_of(x):
    if isinstance(x, SymBits):
        if x.pieces is None:
            raise Unsupported("concatenation of bin()")
        return x.pieces
    if isinstance(x, str) and set(x) <= set("01"):
        return [(int(c), 1) for c in x]
    raise Unsupported("concatenation of bits")


def bits_concat(xs):
    out = []
    for x in xs:
        out.extend(bits_of(x))
    return SymBits(None, "", out)


def int_from_bytes(E, a, kw):
    v = a[0]
    order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
    if isinstance(v, bytes):
        return int.from_bytes(v, order)
    if isinstance(v, BytesV):
        items = v.py_items(E)
        if items is None:
            raise Unsupported("int.from_bytes")
        if order == "little":
            items = items[::-1]
        r = 0
        for x in items:
            r = T.add(T.mul(r, 256), x)
        return r
    items = E.bm.to_list(E, v)
    return int_from_bytes(E, [BytesV(len(items), lambda k: items[k]), order], {})


def symstr_method(E, o, name, a, kw):
    raise Unsupported("str.%s of an unknown string" % name)


# ------------------------------------------------------------------ files
class FileV:
    def __init__(self, E, path, mode):
        self.path, self.mode = path, mode

    def py_enter(self, E):
        return self

    def py_exit(self, E):
        pass

    def py_getattr(self, E, k):
        if k == "read":
            return Builtin("read", lambda E, a, kw: read_bytes(E, self.path) if "b" in self.mode else _uns("text read"))
        if k == "close":
            return Builtin("close", lambda E, a, kw: None)
        if k == "name":
            return self.path
        if k == "write":
            return Builtin("write", lambda E, a, kw: _uns("file write"))
        raise Unsupported("file." + k)


def _uns(w):
    raise Unsupported(w)


def read_bytes(E, p):
    r = E.world.file(p)
    if r is None:
        E.fail("FileNotFoundError", p)
    if r["kind"] == "bytes":
        return r["content"]
    if r["kind"] == "array":
        a = r["array"]
        return BytesV(None, None, array=a)
    raise Unsupported("bytes of a %s file" % r["kind"])


def open_(E, a, kw):
    p = cstr(E, a[0])
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    if "r" in mode:
        if E.world.file(p) is None:
            E.fail("FileNotFoundError", p)
        return FileV(E, p, mode)
    raise Unsupported("open for writing")


def arr_tofile(E, a, args, kw):
    p = cstr(E, args[0])
    fr = E.np.np_array(E, a)
    write_file(E, p, {"kind": "array", "array": fr})


def le16(content):
    return lambda k: T.add(content.byte(T.mul(2, k)), T.mul(256, content.byte(T.add(T.mul(2, k), 1))))


def ndarray_buffer(E, shape, dt, buf, big=False):
    """np.ndarray(shape, dtype, buffer) / np.frombuffer over the bytes of a file"""
    if isinstance(buf, bytes):
        bb = buf
        buf = BytesV(len(bb), lambda k: E.bm.to_seq(E, list(bb)).item(k))
    if not isinstance(buf, BytesV):
        raise Unsupported("buffer")
    isz = int(dt[1])
    if dt == "b1":
        raise Unsupported("bool buffer")
    if buf.array is not None:
        raise Unsupported("buffer over a raw array file")
    if shape is None:
        if not E.branch(T.eq(T.mod(buf.n, isz), 0)):
            E.fail("ValueError", "buffer size must be a multiple of element size")
        shape = (T.idiv(buf.n, isz),)
    tot = isz
    for d in shape:
        tot = T.mul(tot, d)
    if not E.branch(T.le(tot, buf.n)):
        E.fail("TypeError", "buffer is too small for requested array")
    if dt not in ("u1", "u2", "i2", "u4", "i4", "i1"):
        raise Unsupported("buffer dtype " + dt)

    def content(idx):
        k = 0
        for i, d in zip(idx, shape):
            k = T.add(T.mul(k, d), i)
        v = 0
        for j in range(isz):
            byte = buf.byte(T.add(T.mul(isz, k), j))
            v = T.add(v, T.mul(byte, 1 << (8 * (isz - 1 - j if big else j))))
        return wrap(v, dt) if dt[0] == "i" else v
    return new_arr(shape, dt, content)


def np_read(E, a, kw):
    """np.fromfile / np.frombuffer"""
    src = a[0] if a else kw.get("file", kw.get("buffer"))
    d = a[1] if len(a) > 1 else kw.get("dtype", "f8")
    big = isinstance(d, str) and d.startswith(">")
    dt = E.np.to_dt(E, d)
    if isinstance(src, (bytes, BytesV)):
        buf = src
    elif isinstance(src, FileV):
        buf = read_bytes(E, src.path)
    else:
        buf = read_bytes(E, cstr(E, src))
    if isinstance(buf, BytesV) and buf.array is not None:
        arr = buf.array
        if arr.dtype == dt or (arr.dtype[1] == dt[1] and dkind(arr.dtype) == "i" and dkind(dt) == "i"):
            r = E.np.reshape(E, arr, [-1])
            return E.np.np_array(E, r, dt)
        raise Unsupported("raw file of another element type")
    if "count" in kw and kw["count"] != -1 or "offset" in kw and kw["offset"] != 0:
        raise Unsupported("np.fromfile count/offset")
    return ndarray_buffer(E, None, dt, buf, big)


def ndarray_ctor(E, a, kw):
    sh = a[0] if a else kw["shape"]
    d = a[1] if len(a) > 1 else kw.get("dtype", "f8")
    buf = a[2] if len(a) > 2 else kw.get("buffer")
    big = isinstance(d, str) and d.startswith(">")
    dt = E.np.to_dt(E, d)
    shape = E.np.shape_arg(E, sh)
    if buf is None:
        return E.np.havoc(E, shape, dt)
    if kw.get("offset", 0) != 0 or kw.get("strides") is not None:
        raise Unsupported("ndarray offset/strides")
    return ndarray_buffer(E, shape, dt, buf, big)


# ------------------------------------------------------------------ FITS
class Header(Cell):
    """FITS header: keyword -> value; comments dropped"""
    __slots__ = ()

    def __init__(self, d=None):
        Cell.__init__(self, "header")
        if d:
            self.d.update(d)

    def norm(self, E, k):
        if not isinstance(k, str):
            raise Unsupported("header key %r" % (k,))
        return k.upper()

    def py_getattr(self, E, k):
        if k == "copy":
            return Builtin("copy", lambda E, a, kw: Header(self.d))
        if k == "get":
            def get(E, a, kw):
                v = self.d.get(self.norm(E, a[0]), MISSING)
                return (a[1] if len(a) > 1 else kw.get("default")) if v is MISSING else v
            return Builtin("get", get)
        if k in ("keys",):
            return Builtin(k, lambda E, a, kw: PList(list(self.d)))
        if k == "items":
            return Builtin(k, lambda E, a, kw: PList([(x, y) for x, y in self.d.items()]))
        if k == "values":
            return Builtin(k, lambda E, a, kw: PList(list(self.d.values())))
        if k in ("set", "append"):
            return Builtin(k, lambda E, a, kw: self.py_setitem(E, a[0], a[1]))
        if k == "update":
            def upd(E, a, kw):
                for q, v in list(a[0].d.items()):
                    self.py_setitem(E, q, v)
            return Builtin(k, upd)
        if k in ("remove", "pop"):
            def rem(E, a, kw):
                q = self.norm(E, a[0])
                if q not in self.d:
                    if len(a) > 1:
                        return a[1]
                    E.fail("KeyError", q)
                v = self.d[q]
                self.delete(q)
                return v
            return Builtin(k, rem)
        if k in ("add_history", "add_comment"):
            return Builtin(k, lambda E, a, kw: None)
        if k == "comments":
            return Opaque("header.comments")
        raise Unsupported("header." + k)

    def py_getitem(self, E, k):
        q = self.norm(E, k)
        v = self.d.get(q, MISSING)
        if v is MISSING:
            E.fail("KeyError", "Keyword '%s' not found." % q)
        return v

    def py_setitem(self, E, k, v):
        q = self.norm(E, k)
        if isinstance(v, tuple):
            v = v[0]
        self.set(q, v)

    def py_contains(self, E, k):
        return self.norm(E, k) in self.d

    def py_len(self, E):
        return len(self.d)

    def py_items(self, E):
        return list(self.d)

    def py_truth(self, E):
        return len(self.d) > 0

    def py_type(self, E):
        return HDR_T


HDR_T = TypeV("fits.Header")
HDU_T = TypeV("PrimaryHDU")


class HDU(Cell):
    __slots__ = ()

    def __init__(self, data, header):
        Cell.__init__(self, "hdu")
        self.d["data"], self.d["header"] = data, header

    def py_type(self, E):
        return HDU_T

    def py_getattr(self, E, k):
        if k in ("data", "header"):
            return self.d[k]
        if k == "shape":
            return tuple(self.d["data"].shape)
        if k == "writeto":
            return Builtin("writeto", lambda E, a, kw: hdu_write(E, self, a, kw))
        if k in ("verify", "scale", "update_header"):
            return Builtin(k, lambda E, a, kw: None)
        raise Unsupported("hdu." + k)

    def py_setattr(self, E, k, v):
        if k not in ("data", "header"):
            raise Unsupported("hdu." + k)
        self.set(k, v)


def set_axes(E, h, data):
    if isinstance(data, Arr):
        bit = {"u1": 8, "i1": 8, "i2": 16, "u2": 16, "i4": 32, "u4": 32, "i8": 64, "u8": 64, "f4": -32, "f8": -64}.get(data.dtype)
        if bit is None:
            E.fail("KeyError" if data.dtype == "b1" else "TypeError", data.dtype)
        h.set("SIMPLE", True)
        h.set("BITPIX", bit)
        h.set("NAXIS", data.ndim)
        for i in range(data.ndim):
            h.set("NAXIS%d" % (i + 1), data.shape[data.ndim - 1 - i])
    elif data is None:
        h.set("NAXIS", 0)
    else:
        raise Unsupported("HDU of %r" % (data,))


def make_hdu(E, a, kw):
    data = a[0] if a else kw.get("data")
    header = a[1] if len(a) > 1 else kw.get("header")
    if isinstance(data, Arr) and data.ndim == 0:
        E.fail("TypeError", "data object is not an array")
    h = Header()
    if header is not None:
        if not isinstance(header, (Header, PDict)):
            raise Unsupported("header of unknown kind")
        h.d.update(header.d)
    set_axes(E, h, data)
    return HDU(data, h)


def hdu_write(E, hdu, a, kw):
    p = cstr(E, a[0] if a else kw["fileobj"] if "fileobj" in kw else kw["name"])
    data = hdu.d["data"]
    hd = dict(hdu.d["header"].d)
    h = Header(hd)
    set_axes(E, h, data)
    fr = E.np.np_array(E, data) if isinstance(data, Arr) else None
    ow = a[2] if len(a) > 2 else kw.get("overwrite", False)
    write_file(E, p, {"kind": "fits", "data": fr, "header": dict(h.d)}, E.truth(ow))


class HDUList:
    def __init__(self, hdus):
        self.hdus = hdus

    def py_enter(self, E):
        return self

    def py_exit(self, E):
        pass

    def py_getitem(self, E, k):
        if isinstance(k, str):
            k = 0
        return self.hdus[E.bm.norm_index(E, k, len(self.hdus))]

    def py_len(self, E):
        return len(self.hdus)

    def py_items(self, E):
        return list(self.hdus)

    def py_getattr(self, E, k):
        if k in ("verify", "close", "info", "flush"):
            return Builtin(k, lambda E, a, kw: None)
        if k == "writeto":
            return Builtin("writeto", lambda E, a, kw: hdu_write(E, self.hdus[0], a, kw))
        raise Unsupported("hdulist." + k)


def fits_open(E, a, kw):
    p = cstr(E, a[0] if a else kw["name"])
    r = E.world.file(p)
    if r is None:
        E.fail("FileNotFoundError", p)
    if r["kind"] != "fits":
        E.fail("OSError", "not a FITS file")
    E.world.event("read", E.world.norm(p))
    d = r["data"]
    return HDUList([HDU(E.np.np_array(E, d) if d is not None else None, Header(r["header"]))])


# ------------------------------------------------------------------ time
class DateV:
    def __init__(self, d):
        self.d = d

    def py_str(self):
        return str(self.d)

    def py_eq(self, E, o):
        return isinstance(o, DateV) and o.d == self.d

    def py_cmp(self, E, op, o):
        if not isinstance(o, DateV):
            E.fail("TypeError", "'<' not supported between datetime and other")
        return {"Lt": self.d < o.d, "LtE": self.d <= o.d, "Gt": self.d > o.d, "GtE": self.d >= o.d}[op]

    def py_getattr(self, E, k):
        if k in ("year", "month", "day", "hour", "minute", "second"):
            return getattr(self.d, k)
        if k == "isoformat":
            return Builtin(k, lambda E, a, kw: self.d.isoformat())
        if k == "strftime":
            return Builtin(k, lambda E, a, kw: self.d.strftime(a[0]))
        raise Unsupported("datetime." + k)


class Clock:
    """the present time: unknown"""

    def py_getattr(self, E, k):
        if k in ("strftime", "isoformat", "astimezone"):
            return Builtin(k, lambda E, a, kw: E.bm.SymStr([("now", 0)]) if k != "astimezone" else self)
        return Opaque("now." + k)

    def py_str(self):
        from .builtins_model import SymStr
        return SymStr([("now", 0)])


def strptime(E, a, kw):
    s = E.unbox(a[0])
    if not isinstance(s, str):
        if isinstance(s, E.bm.SymStr):
            raise Unsupported("strptime of unknown string")
        E.fail("TypeError", "strptime() argument 1 must be str")
    try:
        return DateV(_dt.datetime.strptime(s, a[1]))
    except ValueError as e:
        E.fail("ValueError", str(e))


# ------------------------------------------------------------------ opaque
OPAQUE_TOP = {"matplotlib", "logging", "warnings", "time", "pandas", "pytz", "traceback", "typing", "mpl_toolkits", "__future__", "PIL", "cv2", "numbers", "collections", "copy", "abc", "json", "csv", "threading", "astropy", "random", "inspect", "contextlib", "gc", "io", "types", "enum", "subprocess", "shutil", "tempfile", "scipy"}
HARMLESS = {"matplotlib", "logging", "warnings", "time", "pandas", "pytz", "traceback", "typing", "mpl_toolkits", "inspect", "gc", "abc"}


class OpaqueMod:
    """module without a model: attributes may be named, uses are refused unless harmless"""

    def __init__(self, name):
        self.name = name

    def py_getattr(self, E, k):
        return Opaque(self.name + "." + k)


def opaque_module(name):
    return OpaqueMod(name)


def call_opaque(E, f, args, kw):
    if f.name == "time.sleep":
        return None
    top = f.name.split(".")[0]
    if top in HARMLESS or f.name.startswith(("plt", "exc", "now", "id", "(", "union", "np.histogram")):
        if top == "logging":
            return None
        return Opaque(f.name + "()")
    raise Unsupported("call of " + f.name)


def opaque_attr(E, o, k):
    return Opaque(o.name + "." + k)


def opaque_result(E, name):
    raise Unsupported(name)


# ------------------------------------------------------------------ scipy
def curve_fit_uf(E, a, kw):
    """curve_fit: popt, pcov are functions of the arguments only; it may also
    fail with RuntimeError.  (Convergence itself is not modelled.)"""
    E.assumptions.add("scipy.optimize.curve_fit is a function of its arguments (result values not interpreted)")
    h = E.hooks.get("curve_fit")
    if h:
        return h(E, a, kw)
    raise Unsupported("curve_fit")


def median_filter(E, a, kw):
    x = a[0]
    size = a[1] if len(a) > 1 else kw.get("size")
    if kw.get("footprint") is not None or kw.get("mode", "reflect") != "reflect" or kw.get("origin", 0) != 0:
        raise Unsupported("median_filter options")
    if isinstance(size, tuple) or isinstance(size, PList):
        ss = [E.unbox(q) for q in E.bm.to_list(E, size)]
    else:
        ss = [E.unbox(size)] * x.ndim
    if any(T.is_t(q) for q in ss):
        raise Unsupported("symbolic median size")
    rd = x.reader()
    sh = x.shape
    dt = x.dtype
    tot = 1
    for q in ss:
        tot *= q

    def refl(i, n):
        # one reflection is enough when |offset| <= n (assumed: the array is larger than the window)
        return T.ite(T.lt(i, 0), T.sub(T.neg(i), 1), T.ite(T.ge(i, n), T.sub(T.sub(T.mul(2, n), i), 1), i))
    import itertools
    offs = list(itertools.product(*[range(-(q // 2), q - q // 2) for q in ss]))
    mf = z3.Function("MEDIAN_%d" % tot, *([T.R] * tot + [T.R]))

    def content(idx):
        vals = []
        for o in offs:
            vals.append(T.tz(T.toreal(rd(tuple(refl(T.add(i, d), n) if d else i for i, d, n in zip(idx, o, sh))))))
        return mf(*vals)
    if dkind(dt) != "f":
        r = new_arr(sh, "f8", content)
        rr = r.reader()
        return new_arr(sh, dt, lambda idx: T.floor(rr(idx)))
    return new_arr(sh, dt, content)


def interp1d(E, a, kw):
    """piecewise linear interpolation through (x_k, y_k)"""
    x, y = a[0], a[1]
    kind = kw.get("kind", a[2] if len(a) > 2 else "linear")
    if kind != "linear":
        raise Unsupported("interp1d kind %r" % (kind,))
    axis = kw.get("axis", -1)
    fill = kw.get("fill_value")
    return Interp1(E, x, y, axis, fill)


class Interp1:
    def __init__(self, E, x, y, axis, fill):
        self.x, self.y, self.axis, self.fill = E.np.asarr(E, x), E.np.asarr(E, y), axis, fill

    def py_call(self, E, a, kw):
        q = E.np.asarr(E, a[0])
        h = E.hooks.get("interp1d")
        if h:
            return h(E, self, q)
        # x must be the integer grid 0..n-1 (checked)
        n = self.x.shape[0]
        k = z3.FreshConst(T.I, "ix")
        E.assumptions.add("scipy interp1d(kind='linear', fill_value='extrapolate') is piecewise linear through its nodes")
        if not S.prove(E.hyps() + [k >= 0, k < T.tz(n)], T.eq(T.toreal(self.x.get((k,))), T.toreal(k)))[0] == "proved":
            raise Unsupported("interp1d on a non-integer grid")
        ax = self.axis % self.y.ndim
        ry, rq = self.y.reader(), q.reader()
        sh = self.y.shape[:ax] + q.shape + self.y.shape[ax + 1:]
        ext = self.fill == "extrapolate"
        if not ext:
            raise Unsupported("interp1d without extrapolation")
        nq = q.ndim

        def content(idx):
            t = T.toreal(rq(tuple(idx[ax:ax + nq])))
            j = T.max_(0, T.min_(T.floor(t), T.sub(n, 2)))
            pre, post = tuple(idx[:ax]), tuple(idx[ax + nq:])
            y0, y1 = T.toreal(ry(pre + (j,) + post)), T.toreal(ry(pre + (T.add(j, 1),) + post))
            return T.add(y0, T.mul(T.sub(y1, y0), T.sub(t, T.toreal(j))))
        return new_arr(sh, "f8", content)


# ------------------------------------------------------------------ PIL
class PImage:
    def __init__(self, arr):
        self.arr = arr

    def py_getattr(self, E, k):
        if k == "rotate":
            def rot(E, a, kw):
                angle = a[0] if a else kw["angle"]
                expand = a[2] if len(a) > 2 else kw.get("expand", False)
                if E.truth(expand):
                    raise Unsupported("PIL rotate expand")
                E.assumptions.add("PIL Image.rotate is a function of pixels and angle")
                rd = self.arr.reader()
                sh = self.arr.shape

                def content(idx):
                    f = z3.Function("PILROT", T.R, T.I, T.I, z3.ArraySort(T.I, T.I, T.R), T.I, T.I, T.R)
                    vs = [z3.FreshConst(T.I, "lb") for _ in range(2)]
                    lam = T.mk_lambda(vs, T.tz(T.toreal(rd(tuple(vs)))))
                    return f(T.tz(T.toreal(angle)), T.tz(sh[0]), T.tz(sh[1]), lam, T.tz(idx[0]), T.tz(idx[1]))
                return PImage(new_arr(sh, self.arr.dtype if dkind(self.arr.dtype) == "f" else "f8", content))
            return Builtin("rotate", rot)
        if k == "size":
            return (self.arr.shape[1], self.arr.shape[0])
        raise Unsupported("PIL image." + k)

    def np_array(self, E, dt):
        return E.np.np_array(E, self.arr, dt)


class ObjArr:
    """object array of tuples: indexed [i, k] or [i]"""

    def __init__(self, seq):
        self.seq = seq

    def py_getitem(self, E, k):
        if isinstance(k, tuple):
            if len(k) != 2:
                raise Unsupported("object array index")
            row = E.getitem(PList(self.seq) if isinstance(self.seq, SymSeq) else PList(self.seq), k[0])
            return E.getitem(row, k[1])
        return E.getitem(PList(self.seq), k)

    def py_len(self, E):
        return self.seq.n if isinstance(self.seq, SymSeq) else len(self.seq)


# ------------------------------------------------------------------ multiprocessing
class Pool:
    """Pool.map / starmap return the results of the calls in argument order"""

    def py_enter(self, E):
        return self

    def py_exit(self, E):
        pass

    def py_getattr(self, E, k):
        if k in ("map", "imap"):
            return Builtin(k, lambda E, a, kw: self._map(E, a[0], a[1], False))
        if k == "starmap":
            return Builtin(k, lambda E, a, kw: self._map(E, a[0], a[1], True))
        if k in ("close", "join", "terminate"):
            return Builtin(k, lambda E, a, kw: None)
        raise Unsupported("Pool." + k)

    def _map(self, E, f, xs, star):
        E.assumptions.add("multiprocessing.Pool.map/starmap return the results in argument order; workers share no state")
        items = E.bm.conc_items(E, xs)
        if items is None:
            s = E.bm.to_seq(E, xs)
            from . import loops
            return loops.sym_map(E, s, lambda x: E.call(f, E.bm.to_list(E, x) if star else [x], {}))
        return PList([E.call(f, E.bm.to_list(E, x) if star else [x], {}) for x in items])


class NumbaList:
    pass


def mod(name, **kw):
    env = Env(None, None, "module " + name)
    m = ModuleV(name, env)
    m.is_pkg = True
    env.module = m
    for k, v in kw.items():
        env.d[k] = Builtin(name + "." + k, v) if callable(v) and not isinstance(v, (Builtin, TypeV, ModuleV, Opaque, OpaqueMod)) else v
    return m


class Callable_(TypeV):
    pass


def make(E0):
    E0.world = World()
    bm = E0.bm
    bm.TY["ndarray"].ctor = lambda E, a, kw: ndarray_ctor(E, a, kw)
    X = {}
    none = lambda E, a, kw: None
    X["logging"] = mod("logging", **{k: none for k in ("info", "warning", "error", "debug", "critical", "exception", "basicConfig", "log", "warn")})
    X["logging"].env.d.update({"INFO": 20, "DEBUG": 10, "WARNING": 30, "ERROR": 40})
    X["logging"].env.d["getLogger"] = Builtin("logging.getLogger", lambda E, a, kw: X["logging"])
    ident = Builtin("tqdm.tqdm", lambda E, a, kw: a[0] if a else kw["iterable"])
    X["tqdm"] = mod("tqdm", tqdm=ident, trange=lambda E, a, kw: E.call(E.builtins["range"], a, {}))
    X["warnings"] = mod("warnings", filterwarnings=none, warn=none, simplefilter=none)
    X["copy"] = mod("copy", copy=lambda E, a, kw: py_copy(E, a[0], False), deepcopy=lambda E, a, kw: py_copy(E, a[0], True))
    # os
    path = mod("os.path",
               join=lambda E, a, kw: pp.join(*[cstr(E, x) for x in a]),
               abspath=lambda E, a, kw: E.world.norm(cstr(E, a[0])),
               normpath=lambda E, a, kw: pp.normpath(cstr(E, a[0])),
               realpath=lambda E, a, kw: E.world.norm(cstr(E, a[0])),
               basename=lambda E, a, kw: pp.basename(cstr(E, a[0])),
               dirname=lambda E, a, kw: pp.dirname(cstr(E, a[0])),
               splitext=lambda E, a, kw: pp.splitext(cstr(E, a[0])),
               split=lambda E, a, kw: pp.split(cstr(E, a[0])),
               isabs=lambda E, a, kw: pp.isabs(cstr(E, a[0])),
               exists=lambda E, a, kw: E.world.exists(cstr(E, a[0])),
               isfile=lambda E, a, kw: E.world.file(cstr(E, a[0])) is not None,
               isdir=lambda E, a, kw: E.world.norm(cstr(E, a[0])) in E.world.d["dirs"],
               expanduser=lambda E, a, kw: cstr(E, a[0]))
    path.env.d.update({"sep": "/", "pathsep": ":"})
    os_ = mod("os", remove=lambda E, a, kw: remove(E, cstr(E, a[0])), unlink=lambda E, a, kw: remove(E, cstr(E, a[0])),
              getcwd=lambda E, a, kw: E.world.d["cwd"], path=path,
              makedirs=lambda E, a, kw: mkdir(E, cstr(E, a[0]), True, kw.get("exist_ok", False)),
              mkdir=lambda E, a, kw: mkdir(E, cstr(E, a[0]), False, False),
              listdir=lambda E, a, kw: PList([pp.basename(f) for f in listing(E, [q for q in E.world.files() if pp.dirname(q) == E.world.norm(cstr(E, a[0]) if a else ".")])]),
              cpu_count=lambda E, a, kw: 8, fspath=lambda E, a, kw: cstr(E, a[0]), getpid=lambda E, a, kw: Opaque("pid"))
    os_.env.d.update({"sep": "/", "pathsep": ":", "name": "posix", "environ": PDict(), "linesep": "\n"})
    X["os"], X["os.path"] = os_, path
    X["sys"] = mod("sys", exit=lambda E, a, kw: E.fail("SystemExit", a[0] if a else ""))
    X["sys"].env.d.update({"path": PList([]), "argv": PList([]), "version_info": (3, 12), "stdout": Opaque("matplotlib.stdout"), "platform": "linux"})
    pt = TypeV("Path", lambda E, a, kw: PathV(PurePosixPath(*[cstr(E, x) for x in a])))
    pt.attrs["cwd"] = Builtin("Path.cwd", lambda E, a, kw: PathV(E.world.d["cwd"]))
    E0.builtins_path_type = pt
    X["pathlib"] = mod("pathlib", Path=pt, PurePath=pt)
    X["glob"] = mod("glob", glob=lambda E, a, kw: PList(do_glob(E, cstr(E, a[0]))), iglob=lambda E, a, kw: IterV(do_glob(E, cstr(E, a[0]))))
    # re
    X["re"] = mod("re", **{k: (lambda k: lambda E, a, kw: re_call(E, k, a, kw))(k) for k in ("search", "match", "fullmatch", "findall", "sub", "split")})
    X["re"].env.d["compile"] = Builtin("re.compile", lambda E, a, kw: RePat(a[0]))
    # datetime
    dtt = TypeV("datetime")
    dtt.attrs["strptime"] = Builtin("strptime", strptime)
    dtt.attrs["now"] = Builtin("now", lambda E, a, kw: Clock())
    dtt.attrs["utcnow"] = Builtin("utcnow", lambda E, a, kw: Clock())
    X["datetime"] = mod("datetime", datetime=dtt)
    # fits
    fits = mod("astropy.io.fits", open=fits_open, getdata=lambda E, a, kw: fits_open(E, a[:1], {}).hdus[0].d["data"], getheader=lambda E, a, kw: fits_open(E, a[:1], {}).hdus[0].d["header"])
    HDU_T.ctor = make_hdu
    HDR_T.ctor = lambda E, a, kw: Header(a[0].d if a else None)
    fits.env.d["PrimaryHDU"] = HDU_T
    fits.env.d["ImageHDU"] = HDU_T
    fits.env.d["Header"] = HDR_T
    fits.env.d["HDUList"] = Builtin("HDUList", lambda E, a, kw: HDUList(E.bm.to_list(E, a[0])))
    fits.env.d["writeto"] = Builtin("fits.writeto", lambda E, a, kw: hdu_write(E, make_hdu(E, a[1:3], {}), a[:1], kw))
    aio = mod("astropy.io")
    aio.env.d["fits"] = fits
    ap = mod("astropy")
    ap.env.d["io"] = aio
    X["astropy"], X["astropy.io"], X["astropy.io.fits"] = ap, aio, fits
    # scipy
    opt = mod("scipy.optimize", curve_fit=curve_fit_uf)
    nd = mod("scipy.ndimage", median_filter=median_filter)
    ip = mod("scipy.interpolate", interp1d=interp1d)
    ip.env.d["griddata"] = Opaque("scipy.interpolate.griddata")
    ip.env.d["RectBivariateSpline"] = Opaque("scipy.interpolate.RectBivariateSpline")
    cst = mod("scipy.constants")
    cst.env.d.update({"c": Fraction(299792458), "h": Fraction("6.62607015e-34"), "k": Fraction("1.380649e-23"), "pi": T.PI})
    sp = mod("scipy")
    sp.env.d.update({"optimize": opt, "ndimage": nd, "interpolate": ip, "constants": cst})
    X.update({"scipy": sp, "scipy.optimize": opt, "scipy.ndimage": nd, "scipy.interpolate": ip, "scipy.constants": cst})
    # multiprocessing
    mpm = mod("multiprocessing", Pool=lambda E, a, kw: Pool(), cpu_count=lambda E, a, kw: 8)
    X["multiprocessing"] = mpm
    # numba
    nb = mod("numba")
    for k in ("njit", "jit", "vectorize", "guvectorize"):
        nb.env.d[k] = Builtin("numba." + k, (lambda k: lambda E, a, kw: numba_deco(E, k, a, kw))(k))
    nb.env.d["prange"] = E0.builtins["range"] if hasattr(E0, "builtins") else Builtin("prange", lambda E, a, kw: E.call(E.builtins["range"], a, kw))
    nbt = mod("numba.typed", List=lambda E, a, kw: PList(E.bm.to_list(E, a[0]) if a else []))
    nb.env.d["typed"] = nbt
    for k in ("float64", "int64", "float32", "int32", "boolean", "uint8", "uint16"):
        nb.env.d[k] = Opaque("numba." + k)
    X["numba"], X["numba.typed"] = nb, nbt
    # itertools, functools, dataclasses, math
    X["itertools"] = mod("itertools", product=it_product, chain=lambda E, a, kw: IterV([y for x in a for y in E.bm.to_list(E, x)]), count=lambda E, a, kw: _uns("itertools.count"))
    lru = Builtin("functools.lru_cache", lambda E, a, kw: a[0] if a and isinstance(a[0], FuncV) and _setcache(a[0]) else Builtin("functools.lru_cache", lambda E, b, kw2: (_setcache(b[0]), b[0])[1]))
    X["functools"] = mod("functools", partial=lambda E, a, kw: Builtin("partial", lambda E, b, kw2: E.call(a[0], list(a[1:]) + list(b), {**kw, **kw2})), reduce=lambda E, a, kw: py_reduce(E, a), wraps=lambda E, a, kw: Builtin("wraps", lambda E, b, k2: b[0]))
    X["functools"].env.d["lru_cache"] = lru
    X["functools"].env.d["cache"] = Builtin("functools.cache", lambda E, a, kw: (_setcache(a[0]), a[0])[1])
    X["dataclasses"] = mod("dataclasses", dataclass=lambda E, a, kw: a[0] if a else Builtin("dataclass", lambda E, b, k2: b[0]), field=lambda E, a, kw: _uns("dataclasses.field"))
    m = mod("math", floor=lambda E, a, kw: T.floor(E.unbox(a[0])), ceil=lambda E, a, kw: T.neg(T.floor(T.neg(E.unbox(a[0])))), sqrt=lambda E, a, kw: T.sqrt(E.unbox(a[0])),
            sin=lambda E, a, kw: T.sin_cos(E.unbox(a[0]))[0], cos=lambda E, a, kw: T.sin_cos(E.unbox(a[0]))[1], fabs=lambda E, a, kw: T.toreal(T.abs_(E.unbox(a[0]))), trunc=lambda E, a, kw: T.trunc(E.unbox(a[0])))
    m.env.d["pi"] = T.PI
    X["math"] = m
    # PIL
    pil = mod("PIL")
    pi = mod("PIL.Image", fromarray=lambda E, a, kw: PImage(E.np.asarr(E, a[0])))
    pi.env.d.update({"NEAREST": 0, "BILINEAR": 2, "BICUBIC": 3})
    pil.env.d["Image"] = pi
    X["PIL"], X["PIL.Image"] = pil, pi
    X["numbers"] = mod("numbers", Number=TypeV("numbers.Number"))
    return X


def _setcache(f):
    f.cached = True
    if not hasattr(f, "cache"):
        f.cache = Cell("cache")
    return True


def numba_deco(E, k, a, kw):
    if a and isinstance(a[0], FuncV):
        a[0].njit = True
        return a[0]
    return Builtin("numba." + k, lambda E, b, kw2: numba_deco(E, k, b, {}))


def it_product(E, a, kw):
    import itertools
    rep = kw.get("repeat", 1)
    ls = [E.bm.conc_items(E, x) for x in a]
    if any(l is None for l in ls):
        if rep != 1:
            raise Unsupported("product of symbolic sequences")
        ss = [E.bm.to_seq(E, x) for x in a]
        n = 1
        for s in ss:
            n = T.mul(n, s.n)
        raise Unsupported("product of symbolic sequences")
    return IterV([tuple(t) for t in itertools.product(*(ls * rep))])


def py_reduce(E, a):
    items = E.bm.to_list(E, a[1])
    if len(a) > 2:
        r = a[2]
    else:
        r, items = items[0], items[1:]
    for x in items:
        r = E.call(a[0], [r, x], {})
    return r


def py_copy(E, v, deep, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    rec = (lambda x: py_copy(E, x, True, memo)) if deep else (lambda x: x)
    if isinstance(v, Arr):
        r = E.np.np_array(E, v)
    elif isinstance(v, PList):
        r = PList(v.items if isinstance(v.items, SymSeq) else [rec(x) for x in v.items])
    elif isinstance(v, Header):
        r = Header(v.d)
    elif isinstance(v, PDict):
        r = PDict({k: rec(x) for k, x in v.d.items()})
    elif isinstance(v, tuple):
        r = tuple(rec(x) for x in v)
    elif isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = r
        for k, x in v.d.items():
            r.d[k] = rec(x)
    elif isinstance(v, Cell):
        raise Unsupported("copy of %r" % (v,))
    else:
        r = v
    memo[id(v)] = r
    return r


class RePat:
    def __init__(self, p):
        self.p = p

    def py_getattr(self, E, k):
        return Builtin("re." + k, lambda E, a, kw: re_call(E, k, [self.p] + list(a), kw))


class ReMatch:
    def __init__(self, m):
        self.m = m

    def py_getattr(self, E, k):
        if k in ("group", "groups", "start", "end", "span"):
            return Builtin(k, lambda E, a, kw: getattr(self.m, k)(*a))
        raise Unsupported("match." + k)

    def py_getitem(self, E, k):
        return self.m[k]


def re_call(E, k, a, kw):
    a = [E.unbox(x) for x in a]
    if any(not isinstance(x, (str, int)) for x in a):
        raise Unsupported("re on unknown string")
    r = getattr(_re, k)(*a, **kw)
    if r is None or isinstance(r, str):
        return r
    if isinstance(r, list):
        return PList(r)
    return ReMatch(r)
