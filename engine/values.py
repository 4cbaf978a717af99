"""Heap model: concrete identities, symbolic contents, undo trail."""
from fractions import Fraction
import z3
from . import terms as T


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    """an exception of the interpreted program"""

    def __init__(self, cls, args=(), where=None):
        Exception.__init__(self, "%s%r" % (cls, args))
        self.cls, self.args_, self.where = cls, args, where


class Infeasible(Exception):
    """the current path has been proved impossible / is cut"""


EXC_PARENTS = {
    "BaseException": None, "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "OverflowError": "ArithmeticError", "RuntimeError": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError",
    "NotImplementedError": "RuntimeError", "AssertionError": "Exception", "StopIteration": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "LinAlgError": "ValueError", "UnicodeDecodeError": "ValueError",
    "IOError": "OSError", "PermissionError": "OSError", "FileExistsError": "OSError", "IsADirectoryError": "OSError", "NotADirectoryError": "OSError", "EOFError": "Exception", "MemoryError": "Exception",
    "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning", "RuntimeWarning": "Warning", "OptimizeWarning": "UserWarning", "VerifyError": "Exception",
}


def exc_isa(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENTS.get(name, "Exception" if name not in ("Exception", "BaseException") else None)
    return False


class Trail:
    def __init__(self):
        self.log = []

    def mark(self):
        return len(self.log)

    def undo(self, m):
        while len(self.log) > m:
            loc, fn = self.log.pop()
            fn()

    def push(self, loc, fn):
        self.log.append((loc, fn))


TRAIL = Trail()


class _Missing:
    def __repr__(self):
        return "<unbound>"


MISSING = _Missing()


BIRTH = [0]


class Cell:
    """base of things with trailed named slots"""
    __slots__ = ("d", "label", "birth", "__weakref__")

    def __init__(self, label=""):
        self.d = {}
        self.label = label
        BIRTH[0] += 1
        self.birth = BIRTH[0]

    def set(self, k, v):
        old = self.d.get(k, MISSING)
        d = self.d

        def undo():
            if old is MISSING:
                d.pop(k, None)
            else:
                d[k] = old
        TRAIL.push((self, k), undo)
        d[k] = v

    def delete(self, k):
        old = self.d.get(k, MISSING)
        d = self.d
        keys = list(d.keys())

        def undo():
            if old is not MISSING:
                # restore with the old order
                tmp = dict(d)
                tmp[k] = old
                d.clear()
                for kk in keys:
                    d[kk] = tmp[kk]
                for kk in tmp:
                    d.setdefault(kk, tmp[kk])
        TRAIL.push((self, k), undo)
        d.pop(k, None)

    def get(self, k, default=MISSING):
        return self.d.get(k, default)


class Env(Cell):
    __slots__ = ("parent", "globals_decl", "nonlocals", "module")

    def __init__(self, parent, module, label=""):
        Cell.__init__(self, label)
        self.parent, self.module = parent, module
        self.globals_decl, self.nonlocals = set(), set()


class ModuleV:
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return "<module %s>" % self.name


class ClassV(Cell):
    __slots__ = ("name", "bases", "module", "dataclass_fields", "qual")

    def __init__(self, name, bases, module):
        Cell.__init__(self, "class " + name)
        self.name, self.bases, self.module = name, bases, module
        self.dataclass_fields = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, k):
        for c in self.mro():
            v = c.d.get(k, MISSING)
            if v is not MISSING:
                return v, c
        return MISSING, None

    def __repr__(self):
        return "<class %s>" % self.name


class Obj(Cell):
    __slots__ = ("cls",)

    def __init__(self, cls):
        Cell.__init__(self, "obj")
        self.cls = cls

    def __repr__(self):
        return "<%s object>" % (self.cls.name if self.cls else "?")


class FuncV:
    def __init__(self, name, node, env, module, qual, defaults, kwdefaults, njit=False, cached=False, owner=None):
        self.name, self.node, self.env, self.module, self.qual = name, node, env, module, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.njit, self.cached, self.owner = njit, cached, owner
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qual


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, f, cls=False):
        self.f, self.cls = f, cls


class BoundM:
    def __init__(self, self_, f):
        self.self_, self.f = self_, f


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class TypeV:
    """a builtin / library type used as a value (int, float, list, np.ndarray, ...)"""

    def __init__(self, name, ctor=None, attrs=None):
        self.name, self.ctor, self.attrs = name, ctor, attrs or {}

    def __repr__(self):
        return "<type %s>" % self.name


class ExcV:
    """exception instance"""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Opaque:
    """value of a library without effect on the properties (logging, plotting, clocks)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class PList(Cell):
    """list: items is a Python list, or a SymSeq (symbolic length)"""
    __slots__ = ("items",)

    def __init__(self, items):
        Cell.__init__(self, "list")
        self.items = items if isinstance(items, SymSeq) else list(items)

    def mutate(self, newitems):
        old = self.items

        def undo():
            self.items = old
        TRAIL.push((self, "items"), undo)
        self.items = newitems

    def __repr__(self):
        return "PList(%r)" % (self.items,)


class SymSeq:
    """immutable sequence of symbolic length; item(k) for 0<=k<n"""

    def __init__(self, n, item, kind="list"):
        self.n, self.item, self.kind = n, item, kind


class PDict(Cell):
    __slots__ = ("hook",)

    def __init__(self, d=None):
        Cell.__init__(self, "dict")
        self.hook = None
        if d:
            self.d.update(d)

    def __repr__(self):
        return "PDict(%r)" % (self.d,)


class PSet(Cell):
    __slots__ = ()

    def __init__(self, it=()):
        Cell.__init__(self, "set")
        for x in it:
            self.d[x] = True


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class IterV(Cell):
    """iterator over a concrete list of values (generators, zip, enumerate)"""
    __slots__ = ("items", "pos")

    def __init__(self, items):
        Cell.__init__(self, "iter")
        self.items = items
        self.d["pos"] = 0


# ------------------------------------------------------------------ arrays
FLOATS = ("f8", "f4")
F4_EXACT = ("f4", "b1", "i1", "u1", "i2", "u2")      # types single precision holds exactly
INTS = {"i8": (-2**63, 2**63 - 1), "i4": (-2**31, 2**31 - 1), "i2": (-2**15, 2**15 - 1), "i1": (-128, 127),
        "u8": (0, 2**64 - 1), "u4": (0, 2**32 - 1), "u2": (0, 65535), "u1": (0, 255)}


def dkind(dt):
    if dt in FLOATS:
        return "f"
    if dt == "b1":
        return "b"
    if dt == "O":
        return "O"
    return "i"


def promote(a, b):
    if a == b:
        return a
    if a == "O" or b == "O":
        return "O"
    if a == "b1":
        return b
    if b == "b1":
        return a
    if a in FLOATS or b in FLOATS:
        if a == "f4" and b == "f4":
            return "f4"
        for x, y in ((a, b), (b, a)):
            if x == "f4" and y in ("u1", "i1", "u2", "i2"):
                return "f4"
        return "f8"
    ra, rb = INTS[a], INTS[b]
    for c in ("u1", "i1", "u2", "i2", "u4", "i4", "i8"):
        r = INTS[c]
        if r[0] <= min(ra[0], rb[0]) and r[1] >= max(ra[1], rb[1]):
            return c
    if ra[0] == 0 and rb[0] == 0:
        return "u8"
    return "f8"


def cast(v, src, dst):
    """value conversion on store / astype"""
    if src == dst and dst not in INTS:
        return v
    if dst == "O":
        return v
    k = dkind(dst)
    if k == "f":
        v = T.toreal(v)
        return T.f32(v) if dst == "f4" and src not in F4_EXACT else v
    if k == "b":
        return T.truth(v)
    # integer destination
    if T.sortof(v) == "r":
        v = T.trunc(v)
    v = T.toint_num(v)
    if src == dst:
        return v
    return wrap(v, dst, src)


def wrap(v, dt, src=None):
    """machine wraparound for the narrow integer types; 64-bit treated as mathematical"""
    if dt not in INTS or dt in ("i8", "u8"):
        return v
    lo, hi = INTS[dt]
    if src in INTS and src not in ("i8", "u8"):
        l2, h2 = INTS[src]
        if l2 >= lo and h2 <= hi:
            return v
    m = hi - lo + 1
    if not T.is_t(v):
        return (v - lo) % m + lo
    return T.add(T.mod(T.sub(v, lo), m), lo) if lo else T.mod(v, m)


class Buf(Cell):
    __slots__ = ("shape", "dtype", "content", "memo", "name", "ver", "readonly")

    def __init__(self, shape, dtype, content, name="buf"):
        Cell.__init__(self, name)
        self.shape, self.dtype, self.content, self.name = tuple(shape), dtype, content, name
        self.memo = {}
        self.ver = 0

    def read(self, idx):
        k = tuple(("t", i.get_id()) if T.is_t(i) else i for i in idx)
        v = self.memo.get(k)
        if v is None:
            v = self.content(tuple(idx))
            self.memo[k] = v
            self.memo[("keep", k)] = idx
        return v

    def reader(self):
        """frozen reader of the present content"""
        c, memo = self.content, self.memo

        def rd(idx):
            k = tuple(("t", i.get_id()) if T.is_t(i) else i for i in idx)
            v = memo.get(k)
            if v is None:
                v = c(tuple(idx))
                memo[k] = v
                memo[("keep", k)] = idx
            return v
        return rd

    def replace(self, content):
        old, om, ov = self.content, self.memo, self.ver

        def undo():
            self.content, self.memo, self.ver = old, om, ov
        TRAIL.push((self, "content"), undo)
        self.content, self.memo = content, {}
        self.ver = ov + 1


class Arr:
    """view of a Buf: view axis lengths `shape`, and for every buffer axis
    ('fix', t) or ('ax', view_axis, offset, step). View axes not used by any
    buffer axis are broadcast axes."""
    __slots__ = ("buf", "shape", "amap", "detached", "pyattrs")

    def __init__(self, buf, shape, amap, detached=False):
        self.buf, self.shape, self.amap = buf, tuple(shape), tuple(amap)
        self.detached = detached       # a copy that numpy would have made a view: writes unsupported

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def whole(self):
        return len(self.amap) == len(self.shape) and all(m[0] == "ax" and m[1] == i and not T.is_t(m[2]) and m[2] == 0 and not T.is_t(m[3]) and m[3] == 1 for i, m in enumerate(self.amap))

    def bidx(self, idx):
        out = []
        for m in self.amap:
            if m[0] == "fix":
                out.append(m[1])
            else:
                out.append(T.add(m[2], T.mul(m[3], idx[m[1]])))
        return tuple(out)

    def get(self, idx):
        return self.buf.read(self.bidx(idx))

    def reader(self):
        rd = self.buf.reader()
        am = self.amap
        if self.whole():
            return lambda idx: rd(tuple(idx))

        def g(idx):
            return rd(tuple(m[1] if m[0] == "fix" else T.add(m[2], T.mul(m[3], idx[m[1]])) for m in am))
        return g

    def write(self, val):
        """store val(view idx) in every element of the view"""
        if self.detached:
            raise Unsupported("write through a reshaped/copied view")
        rd = self.buf.reader()
        am, sh = self.amap, self.shape
        if self.whole():
            self.buf.replace(lambda idx: val(idx))
            return
        used = {m[1] for m in am if m[0] == "ax"}
        for i in range(len(sh)):
            if i not in used and not (not T.is_t(sh[i]) and sh[i] == 1):
                raise Unsupported("write through a broadcast axis")

        def content(p):
            conds = []
            vi = [0] * len(sh)
            for a, m in enumerate(am):
                if m[0] == "fix":
                    conds.append(T.eq(p[a], m[1]))
                    continue
                _, v, off, st = m
                d = T.sub(p[a], off)
                if not T.is_t(st) and st == 1:
                    q = d
                elif not T.is_t(st) and st == -1:
                    q = T.neg(d)
                else:
                    q = T.idiv(d, st)
                    conds.append(T.eq(T.mod(d, st), 0))
                full = not T.is_t(off) and off == 0 and not T.is_t(st) and st == 1 and _same(sh[v], self.buf.shape[a])
                if not full:
                    conds.append(T.ge(q, 0))
                    conds.append(T.lt(q, sh[v]))
                vi[v] = q
            c = T.and_(*conds)
            if c is False:
                return rd(p)
            nv = val(tuple(vi))
            if c is True:
                return nv
            return T.ite(c, nv, rd(p))
        self.buf.replace(content)


def _same(a, b):
    if T.is_t(a) and T.is_t(b):
        return a.eq(b)
    if T.is_t(a) or T.is_t(b):
        return False
    return a == b


def new_arr(shape, dtype, content, name="buf"):
    b = Buf(shape, dtype, content, name)
    return Arr(b, shape, [("ax", i, 0, 1) for i in range(len(shape))])


def alias_arr(a):
    return Arr(a.buf, a.shape, a.amap, a.detached)
