"""Contracts assumed for numpy: arrays as (shape, total function of the index).

Every function here states what numpy is trusted to do; the trusted list is
reported in the evidence.  Floats are reals; results of x/0 are unspecified.
"""
from fractions import Fraction
import z3
from . import terms as T
from . import solver as S
from .values import *
from .values import _same

NPT = {"float64": "f8", "float32": "f4", "int64": "i8", "int32": "i4", "int16": "i2", "int8": "i1", "uint8": "u1", "uint16": "u2", "uint32": "u4", "uint64": "u8", "bool_": "b1", "double": "f8", "intp": "i8", "int_": "i8", "float_": "f8", "single": "f4", "ubyte": "u1", "ushort": "u2", "short": "i2"}
STRT = {"d": "f8", "f": "f4", "float": "f8", "int": "i8", "bool": "b1", "f8": "f8", "f4": "f4", "i8": "i8", "i4": "i4", "i2": "i2", "i1": "i1", "u1": "u1", "u2": "u2", "u4": "u4", "u8": "u8", "H": "u2", "h": "i2", "B": "u1", "b": "i1", "I": "u4", "i": "i4", "O": "O", "object": "O", "?": "b1"}
USED = set()
INV = {"f8": "float64", "f4": "float32", "i8": "int64", "i4": "int32", "i2": "int16", "i1": "int8", "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64", "b1": "bool", "O": "object"}


class DType:
    def __init__(self, dt):
        self.dt = dt

    def py_eq(self, E, o):
        d = to_dt(E, o, False)
        return d == self.dt

    def py_getattr(self, E, k):
        if k == "kind":
            return self.dt[0]
        if k == "name":
            return INV[self.dt]
        if k == "itemsize":
            return int(self.dt[1])
        if k == "type":
            return TYPES[self.dt]
        if k in ("char", "str"):
            return self.dt
        if k == "newbyteorder":
            return Builtin("newbyteorder", lambda E, a, kw: self)
        E.fail("AttributeError", k)

    def py_str(self):
        return INV[self.dt]


TYPES = {}


def to_dt(E, v, strict=True):
    if v is None:
        return None
    if isinstance(v, DType):
        return v.dt
    if isinstance(v, TypeV):
        if v.name == "float":
            return "f8"
        if v.name == "int":
            return "i8"
        if v.name == "bool":
            return "b1"
        if v.name.startswith("np.") and v.name[3:] in NPT:
            return NPT[v.name[3:]]
        if v.name == "object":
            return "O"
    if isinstance(v, str):
        s = v.lstrip("<>=|")
        if s in STRT:
            return STRT[s]
        if s in NPT:
            return NPT[s]
    if isinstance(v, Builtin) and v.name.startswith("np.") and v.name[3:] in NPT:
        return NPT[v.name[3:]]
    if strict:
        raise Unsupported("dtype %r" % (v,))
    return None


def dt_of(v):
    if isinstance(v, Arr):
        return v.dtype
    s = T.sortof(v)
    return {"b": "b1", "i": "i8", "r": "f8"}[s]


CAT = {"b": 0, "i": 1, "f": 2, "O": 3}


def result_dt(E, ops):
    """numpy 1.26 value-based promotion (numba: scalars typed)"""
    arrs = [o for o in ops if isinstance(o, Arr) and (o.ndim > 0)]
    scal = [o for o in ops if not (isinstance(o, Arr) and o.ndim > 0)]
    if not arrs or E.njit:
        dt = None
        for o in ops:
            d = dt_of(o)
            dt = d if dt is None else promote(dt, d)
        return dt
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = promote(dt, a.dtype)
    for s in scal:
        d = dt_of(s)
        if CAT[dkind(d)] > CAT[dkind(dt)]:
            dt = promote(dt, d)
        elif dkind(dt) == "i" and dkind(d) == "i" and not (isinstance(s, Arr)):
            lo, hi = INTS[dt]
            if not T.is_t(s):
                s = int(s)
                if not (lo <= s <= hi):
                    for c in ("i1", "u1", "i2", "u2", "i4", "u4", "i8"):
                        if INTS[c][0] <= s <= INTS[c][1]:
                            dt = promote(dt, c)
                            break
            elif dt not in ("i8", "u8"):
                if not E.branch(T.and_(T.ge(s, lo), T.le(s, hi))):
                    dt = "i8"
    return dt


def broadcast(E, shapes):
    n = max(len(s) for s in shapes)
    out = []
    maps = [[None] * len(s) for s in shapes]      # view axis -> out axis or None (size-1)
    for ax in range(n):
        cur, who = 1, None
        for s in shapes:
            j = ax - (n - len(s))
            if j < 0:
                continue
            d = T.conc(s[j])
            if not T.is_t(d) and d == 1:
                continue
            if who is None:
                cur, who = d, True
            elif not _same(cur, d):
                if not T.is_t(cur) and not T.is_t(d):
                    E.fail("ValueError", "operands could not be broadcast together")
                if E.branch(T.eq(cur, d)):
                    if not T.is_t(d):
                        cur = d
                elif E.branch(T.eq(d, 1)):
                    pass
                elif E.branch(T.eq(cur, 1)):
                    cur = d
                else:
                    E.fail("ValueError", "operands could not be broadcast together")
        out.append(cur)
    res = []
    for s in shapes:
        off = n - len(s)
        m = []
        for j, d in enumerate(s):
            d = T.conc(d)
            if _same(d, out[off + j]):
                m.append(off + j)
            elif not T.is_t(d) and d == 1:
                m.append(None)
            elif E.entails(T.eq(d, out[off + j])):
                m.append(off + j)
            else:
                m.append(None)
        res.append(m)
    return tuple(out), res


def ew(E, ops, fn, dt, cast_in=None):
    """elementwise; fn(*scalars) -> scalar"""
    shapes = [o.shape if isinstance(o, Arr) else () for o in ops]
    shape, maps = broadcast(E, shapes)
    rds = []
    for o, m in zip(ops, maps):
        if isinstance(o, Arr):
            rd = o.reader()
            if m == list(range(len(shape))):
                rds.append(rd)
            else:
                rds.append(lambda idx, rd=rd, m=m: rd(tuple(0 if x is None else idx[x] for x in m)))
        else:
            rds.append(lambda idx, o=o: o)

    def content(idx):
        return fn(*[r(idx) for r in rds])
    if not shape:
        return content(())
    return new_arr(shape, dt, content)


def asarr(E, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (PList, tuple, RangeV, SymSeq)):
        return np_array(E, v)
    v2 = E.unbox(v)
    if T.is_num(v2):
        return v2
    if isinstance(v, Opaque):
        raise Unsupported("array of " + v.name)
    if v is None or isinstance(v, (Obj, str)):
        raise Unsupported("object array")
    raise Unsupported("array of %r" % (v,))


def binop(E, op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        E.fail("TypeError", "unsupported operand")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("array op " + repr(b))
    a, b = asarr(E, a), asarr(E, b)
    if op == "MatMult":
        return matmul(E, a, b)
    dt = result_dt(E, [a, b])
    da, db = dt_of(a), dt_of(b)
    k = dkind(dt)
    if op in ("Add", "Sub", "Mult"):
        f = {"Add": T.add, "Sub": T.sub, "Mult": T.mul}[op]
        if k == "b":
            if op == "Sub":
                E.fail("TypeError", "numpy boolean subtract")
            return ew(E, [a, b], T.or_ if op == "Add" else T.and_, "b1")
        if k == "f":
            return ew(E, [a, b], lambda x, y: f(T.toreal(x), T.toreal(y)), dt)
        return ew(E, [a, b], lambda x, y: wrap(f(T.toint_num(x), T.toint_num(y)), dt), dt)
    if op == "Div":
        if k != "f":
            dt = "f8"
        return ew(E, [a, b], lambda x, y: T.div(T.toreal(x), T.toreal(y)), dt)
    if op in ("FloorDiv", "Mod"):
        f = T.idiv if op == "FloorDiv" else T.mod
        if k == "f":
            return ew(E, [a, b], lambda x, y: f(T.toreal(x), T.toreal(y)), dt)
        return ew(E, [a, b], lambda x, y: T.ite(T.eq(y, 0), 0, wrap(f(T.toint_num(x), T.toint_num(y)), dt)), dt)
    if op == "Pow":
        if k == "f":
            return ew(E, [a, b], lambda x, y: T.toreal(T.power(T.toreal(x), y)), dt)
        return ew(E, [a, b], lambda x, y: wrap(T.power(x, y), dt), dt)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if k == "f":
            E.fail("TypeError", "ufunc not supported for float")
        if k == "b":
            f = {"BitAnd": T.and_, "BitOr": T.or_, "BitXor": lambda x, y: T.not_(T.eq(x, y))}[op]
            return ew(E, [a, b], f, "b1")
        return ew(E, [a, b], lambda x, y: E.bm.num_binop(E, op, x, y), dt)
    if op in ("LShift", "RShift"):
        return ew(E, [a, b], lambda x, y: wrap(E.bm.num_binop(E, op, x, y), dt), dt)
    raise Unsupported("array " + op)


CMP = {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": T.gt, "GtE": T.ge}


def compare(E, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, Obj) or isinstance(b, Obj):
        raise Unsupported("array comparison")
    a, b = asarr(E, a), asarr(E, b)
    return ew(E, [a, b], CMP[op], "b1")


def inplace(E, op, a, b):
    r = binop(E, op, a, b)
    dr = dt_of(r)
    if CAT[dkind(dr)] > CAT[dkind(a.dtype)]:
        E.fail("TypeError", "Cannot cast ufunc output")
    if isinstance(r, Arr):
        # result must have the shape of a
        sh, maps = broadcast(E, [a.shape, r.shape])
        if len(sh) != a.ndim or any(not _same(x, y) and not E.branch(T.eq(x, y)) for x, y in zip(sh, a.shape)):
            E.fail("ValueError", "non-broadcastable output operand")
        assign_view(E, a, r)
    else:
        assign_view(E, a, r)
    return a


def unary(E, op, v):
    if op == "USub":
        if dkind(v.dtype) == "i":
            return ew(E, [v], lambda x: wrap(T.neg(x), v.dtype), v.dtype)
        return ew(E, [v], lambda x: T.neg(x), v.dtype)
    if op == "UAdd":
        return v
    if op == "Invert":
        if v.dtype == "b1":
            return ew(E, [v], T.not_, "b1")
        return ew(E, [v], lambda x: wrap(T.sub(T.neg(x), 1), v.dtype), v.dtype)
    if op == "abs":
        return ew(E, [v], lambda x: T.abs_(x), v.dtype if v.dtype != "b1" else "b1")
    raise Unsupported("array unary " + op)


# ---------------------------------------------------------------- indexing
def _expand_key(a, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    n = sum(1 for x in ks if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in ks):
        i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        ks = ks[:i] + [slice(None)] * (a.ndim - n) + ks[i + 1:]
    else:
        ks = ks + [slice(None)] * (a.ndim - n)
    return ks, n


def view(E, a, k):
    """basic indexing -> Arr (possibly 0-d) ; advanced -> ('mask'|'fancy', ...)"""
    ks, n = _expand_key(a, k)
    for x in ks:
        if isinstance(x, Arr) and x.ndim > 0 or isinstance(x, (PList, SymSeq)):
            return None
    if n > a.ndim:
        E.fail("IndexError", "too many indices for array")
    # per view axis: new mapping
    ax = 0
    shape = []
    tr = []         # per old view axis: ('fix', t) | ('ax', new, off, step)
    for x in ks:
        if x is None:
            shape.append(1)
            continue
        d = a.shape[ax]
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                tr.append(("ax", len(shape), 0, 1))
                shape.append(d)
            else:
                s, c, st = E.bm.norm_slice(E, x, d)
                tr.append(("ax", len(shape), s, st))
                shape.append(c)
        else:
            x = E.unbox(x)
            if isinstance(x, bool) or T.is_num(x) and T.sortof(x) == "b":
                raise Unsupported("boolean scalar index")
            if not T.is_num(x):
                E.fail("IndexError", "only integers, slices are valid indices")
            i = E.bm.norm_index(E, x, d)
            tr.append(("fix", i))
        ax += 1
    amap = []
    for m in a.amap:
        if m[0] == "fix":
            amap.append(m)
            continue
        _, v, off, st = m
        t = tr[v]
        if t[0] == "fix":
            amap.append(("fix", T.add(off, T.mul(st, t[1]))))
        else:
            amap.append(("ax", t[1], T.add(off, T.mul(st, t[2])), T.mul(st, t[3])))
    return Arr(a.buf, shape, amap, a.detached)


def getitem_raw(E, a, k):
    """a[k] with k known in bounds"""
    ks, n = _expand_key(a, tuple(k))
    shape, tr = [], []
    for x, d in zip(ks, a.shape):
        if isinstance(x, slice):
            tr.append(("ax", len(shape), 0, 1))
            shape.append(d)
        else:
            tr.append(("fix", x))
    amap = []
    for m in a.amap:
        if m[0] == "fix":
            amap.append(m)
            continue
        _, v, off, st = m
        t = tr[v]
        if t[0] == "fix":
            amap.append(("fix", T.add(off, T.mul(st, t[1]))))
        else:
            amap.append(("ax", t[1], off, st))
    r = Arr(a.buf, shape, amap, a.detached)
    return r.get(()) if not shape else r


def getitem(E, a, k):
    if isinstance(k, str):
        E.fail("IndexError", "string index")
    r = view(E, a, k)
    if r is None:
        return fancy_get(E, a, k)
    if not r.shape:
        return r.get(())
    return r


def fancy_get(E, a, k):
    ks, n = _expand_key(a, k)
    ks = [np_array(E, x) if isinstance(x, (PList, SymSeq)) else x for x in ks]
    idxs = [x for x in ks if isinstance(x, Arr)]
    if len(idxs) == 1 and idxs[0].dtype == "b1":
        m = idxs[0]
        if m.ndim == a.ndim and len(ks) - 0 >= 1:
            return masked_select(E, a, m)
        raise Unsupported("boolean row selection")
    if any(x.dtype == "b1" for x in idxs) or any(dkind(x.dtype) == "f" for x in idxs):
        if any(dkind(x.dtype) == "f" for x in idxs):
            E.fail("IndexError", "arrays used as indices must be of integer type")
        raise Unsupported("mixed mask index")
    if len(ks) > a.ndim:
        E.fail("IndexError", "too many indices")
    # integer arrays, adjacent axes
    pos = [i for i, x in enumerate(ks) if not isinstance(x, slice)]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("non adjacent fancy axes")
    ishape, maps = broadcast(E, [x.shape if isinstance(x, Arr) else () for x in (ks[p] for p in pos)])
    # bounds: every index in range
    for p in pos:
        x = ks[p]
        d = a.shape[p]
        if isinstance(x, Arr):
            vs = [z3.FreshConst(T.I, "fi") for _ in x.shape]
            v = x.get(tuple(vs))
            rng = T.and_(*[T.and_(T.ge(q, 0), T.lt(q, s)) for q, s in zip(vs, x.shape)])
            if not E.entails(T.implies(rng, T.and_(T.ge(v, 0), T.lt(v, d)))):
                if not E.entails(T.implies(rng, T.and_(T.ge(v, T.neg(d)), T.lt(v, d)))):
                    E.abstract("fancy index may be out of range")
                    if E.choose([True, False]) is False:
                        E.fail("IndexError", "index out of bounds")
        else:
            ks[p] = E.bm.norm_index(E, x, d)
    pre = [a.shape[i] for i in range(pos[0])]
    post = [a.shape[i] for i in range(pos[-1] + 1, a.ndim)]
    sl = [x for x in ks if isinstance(x, slice)]
    if any(not (s.start is None and s.stop is None and s.step is None) for s in sl):
        raise Unsupported("slice with fancy index")
    rd = a.reader()
    irds = [(ks[p].reader() if isinstance(ks[p], Arr) else None, ks[p], m, a.shape[p]) for p, m in zip(pos, maps)]
    np_, ni = len(pre), len(ishape)

    def content(idx):
        mid = idx[np_:np_ + ni]
        out = list(idx[:np_])
        for r, x, m, d in irds:
            if r is None:
                out.append(x)
            else:
                v = r(tuple(0 if q is None else mid[q] for q in m))
                v = T.ite(T.lt(v, 0), T.add(v, d), v)
                out.append(v)
        out.extend(idx[np_ + ni:])
        return rd(tuple(out))
    shape = tuple(pre) + tuple(ishape) + tuple(post)
    if not shape:
        return content(())
    return new_arr(shape, a.dtype, content)


class Masked:
    """a[mask]: multiset of the selected values (only reductions are supported)"""

    def __init__(self, a, m):
        self.a, self.m = a, m

    def py_getattr(self, E, k):
        if k == "dtype":
            return DType(self.a.dtype)
        if k in ("mean", "std", "sum", "min", "max", "var"):
            return Builtin(k, lambda E, x, kw: reduce(E, self.a, k, None, where=self.m))
        if k in ("size",):
            return count(E, self.m)
        raise Unsupported("masked selection ." + k)

    def py_len(self, E):
        return count(E, self.m)

    def py_type(self, E):
        return E.bm.TY["ndarray"]


def count(E, m):
    dims = list(m.shape)
    rd = m.reader()
    t = nested_sum(dims, lambda idx: T.ite(T.truth(rd(idx)), Fraction(1), Fraction(0)))
    return to_int_of_real(E, t)


def to_int_of_real(E, t):
    t = T.conc(t)
    if not T.is_t(t):
        return int(t)
    i = T.as_int(t)
    return i if i is not None else z3.ToInt(t)


def masked_select(E, a, m):
    sh, _ = broadcast(E, [a.shape, m.shape])
    return Masked(Arr(a.buf, a.shape, a.amap), new_arr(m.shape, "b1", m.reader()))


def assign_view(E, v, val):
    """v[...] = val (v a view)"""
    dt = v.dtype
    if v.buf.readonly if hasattr(v.buf, "readonly") and _ro(v.buf) else False:
        E.fail("ValueError", "assignment destination is read-only")
    if isinstance(val, (PList, tuple, SymSeq)):
        val = np_array(E, val)
    if isinstance(val, Masked):
        raise Unsupported("assignment of masked selection")
    if isinstance(val, Arr) and val.ndim > 0:
        sv, src = val.shape, val.dtype
        extra = len(sv) - v.ndim
        if extra > 0:
            if all(not T.is_t(d) and d == 1 for d in sv[:extra]):
                val = getitem_raw(E, val, tuple([0] * extra))
                return assign_view(E, v, val)
            E.fail("ValueError", "could not broadcast input array")
        m = []
        for j, d in enumerate(sv):
            t = v.shape[j - extra]
            d = T.conc(d)
            if _same(d, t):
                m.append(j - extra)
            elif not T.is_t(d) and d == 1:
                m.append(None)
            elif not T.is_t(d) and not T.is_t(t):
                E.fail("ValueError", "could not broadcast input array")
            elif E.branch(T.eq(d, t)):
                m.append(j - extra)
            elif E.branch(T.eq(d, 1)):
                m.append(None)
            else:
                E.fail("ValueError", "could not broadcast input array")
        rd = val.reader()
        v.write(lambda idx: cast(rd(tuple(0 if x is None else idx[x] for x in m)), src, dt))
        return
    val = E.unbox(val)
    if not T.is_num(val):
        if isinstance(val, str):
            E.fail("ValueError", "could not convert string to float")
        if val is None:
            if dkind(dt) == "f":
                raise Unsupported("NaN stored")
            E.fail("TypeError", "None stored")
        raise Unsupported("store of %r in array" % (val,))
    c = cast(val, dt_of(val), dt)
    v.write(lambda idx: c)


def _ro(b):
    try:
        return bool(b.readonly)
    except AttributeError:
        return False


def setitem(E, a, k, v):
    w = view(E, a, k)
    if w is not None:
        return assign_view(E, w, v)
    ks, n = _expand_key(a, k)
    if isinstance(ks[0], Arr) and ks[0].dtype == "b1" and ks[0].ndim == a.ndim:
        m = ks[0]
        broadcast(E, [a.shape, m.shape])
        v = E.unbox(v)
        if isinstance(v, Masked) and v.m.buf is m.buf:
            raise Unsupported("masked store")
        if not T.is_num(v):
            raise Unsupported("masked store of array")
        rd, mr = a.reader(), m.reader()
        c = cast(v, dt_of(v), a.dtype)
        a.write(lambda idx: T.ite(T.truth(mr(idx)), c, rd(idx)))
        return
    raise Unsupported("fancy store")


# ---------------------------------------------------------------- construction
def _select(items, k):
    """item k of a Python list of scalars-producing closures"""
    k = T.conc(k)
    if not T.is_t(k):
        if 0 <= k < len(items):
            return items[k]()
        return items[-1]()
    r = items[-1]()
    for i in range(len(items) - 2, -1, -1):
        r = T.ite(T.eq(k, i), items[i](), r)
    return r


def np_array(E, v, dt=None, copy=True):
    if isinstance(v, Arr):
        src = v.dtype
        if dt is None or dt == src:
            if not copy:
                return v
            return new_arr(v.shape, src, v.reader())
        rd = v.reader()
        return new_arr(v.shape, dt, lambda idx: cast(rd(idx), src, dt))
    if isinstance(v, IterV) or isinstance(v, PSet):
        raise Unsupported("np.array of iterator")
    if hasattr(v, "np_array"):
        return v.np_array(E, dt)
    if dt == "O" and isinstance(v, PList):
        probe = v.items.item(z3.FreshConst(T.I, "ak")) if isinstance(v.items, SymSeq) else (v.items[0] if v.items else None)
        if isinstance(probe, (tuple, PList)):
            return E.lib.ObjArr(v.items)
    if isinstance(v, PList) and isinstance(v.items, SymSeq) or isinstance(v, SymSeq) or isinstance(v, RangeV):
        s = E.bm.to_seq(E, v)
        k0 = z3.FreshConst(T.I, "ak")
        x = s.item(k0)
        if T.is_num(x):
            d = dt or dt_of(x)
            sd = dt_of(x)
            return new_arr((s.n,), d, lambda idx: cast(s.item(idx[0]), sd, d))
        if isinstance(x, Arr):
            d = dt or x.dtype
            sd = x.dtype
            return new_arr((s.n,) + tuple(x.shape), d, lambda idx: cast(s.item(idx[0]).get(tuple(idx[1:])), sd, d))
        if isinstance(x, tuple) and all(T.is_num(y) for y in x):
            dd = None
            for y in x:
                dd = dt_of(y) if dd is None else promote(dd, dt_of(y))
            d = dt or dd
            return new_arr((s.n, len(x)), d, lambda idx: _select([(lambda y=y: cast(y, dt_of(y), d)) for y in s.item(idx[0])], idx[1]))
        raise Unsupported("np.array of symbolic list")
    if isinstance(v, (PList, tuple, list)):
        items = [E.unbox(x) for x in (v.items if isinstance(v, PList) else v)]
        if not items:
            return new_arr((0,), dt or "f8", lambda idx: Fraction(0))
        if all(T.is_num(x) for x in items):
            d = None
            for x in items:
                d = dt_of(x) if d is None else promote(d, dt_of(x))
            d = dt or d
            vals = [cast(x, dt_of(x), d) for x in items]
            return new_arr((len(vals),), d, lambda idx: _select([(lambda y=y: y) for y in vals], idx[0]))
        if any(x is None for x in items) or any(isinstance(x, (str, Obj)) for x in items):
            raise Unsupported("object array")
        subs = [np_array(E, x, None, False) if not isinstance(x, Arr) else x for x in items]
        for s in subs:
            if not isinstance(s, Arr):
                raise Unsupported("ragged array")
        return stack(E, subs, dt)
    if isinstance(v, bytes):
        raise Unsupported("np.array of bytes")
    v = E.unbox(v)
    if T.is_num(v):
        d = dt or dt_of(v)
        c = cast(v, dt_of(v), d)
        return new_arr((), d, lambda idx: c)
    raise Unsupported("np.array of %r" % (v,))


def stack(E, arrs, dt=None):
    sh = arrs[0].shape
    d = None
    for a in arrs:
        d = a.dtype if d is None else promote(d, a.dtype)
        if len(a.shape) != len(sh):
            E.fail("ValueError", "inhomogeneous shape")
        for x, y in zip(a.shape, sh):
            if not _same(x, y):
                if not T.is_t(x) and not T.is_t(y) or not E.branch(T.eq(x, y)):
                    E.fail("ValueError", "inhomogeneous shape")
    d = dt or d
    rds = [(a.reader(), a.dtype) for a in arrs]
    return new_arr((len(arrs),) + tuple(sh), d, lambda idx: _select([(lambda r=r, s=s: cast(r(tuple(idx[1:])), s, d)) for r, s in rds], idx[0]))


def shape_arg(E, v):
    if isinstance(v, (PList, tuple)):
        out = [E.unbox(x) for x in E.bm.to_list(E, v)]
    elif isinstance(v, Arr) and v.ndim == 1:
        out = E.bm.to_list(E, v)
    else:
        out = [E.unbox(v)]
    res = []
    for x in out:
        if not T.is_num(x) or T.sortof(x) == "r":
            E.fail("TypeError", "'float' object cannot be interpreted as an integer")
        x = T.conc(T.toint_num(x))
        if not T.is_t(x):
            if x < 0:
                E.fail("ValueError", "negative dimensions are not allowed")
        elif not E.entails(T.ge(x, 0)):
            if not E.branch(T.ge(x, 0)):
                E.fail("ValueError", "negative dimensions are not allowed")
        res.append(x)
    return tuple(res)


def zero_of(dt):
    return {"f": Fraction(0), "b": False, "i": 0, "O": 0}[dkind(dt)]


def one_of(dt):
    return {"f": Fraction(1), "b": True, "i": 1, "O": 1}[dkind(dt)]


def sort_of_dt(dt):
    return {"f": T.R, "b": T.Bo, "i": T.I, "O": T.R}[dkind(dt)]


def havoc(E, shape, dt, name="mem"):
    """array of unknown content"""
    lv = list(E.loopvars)
    name = name + "_" + dt
    if dkind(dt) == "b":
        f = T.fresh_fun(name, *([T.I] * (len(lv) + len(shape)) + [T.Bo]))
    else:
        f = T.fresh_fun(name, *([T.I] * (len(lv) + len(shape)) + [sort_of_dt(dt)]))
    if dt in INTS and dt not in ("i8", "u8"):
        S.FUN_RANGE[f.name()] = INTS[dt]
    elif dt == "u8":
        S.FUN_RANGE[f.name()] = (0, None)
    if not lv and not shape:
        c = f()
        return new_arr(shape, dt, lambda idx: c, name)
    return new_arr(shape, dt, lambda idx: f(*(lv + [T.tz(i) for i in idx])), name)


# ---------------------------------------------------------------- reductions
def nested_sum(dims, fn):
    if not dims:
        return T.toreal(fn(()))

    def rec(i, pre):
        if i == len(dims):
            return T.toreal(fn(tuple(pre)))
        return T.sum_term(dims[i], lambda k: rec(i + 1, pre + [k]))
    return rec(0, [])


def conc_dims(dims, limit=64):
    n = 1
    for d in dims:
        d = T.conc(d)
        if T.is_t(d):
            return None
        n *= d
    return n if n <= limit else None


def all_idx(dims):
    out = [()]
    for d in dims:
        out = [p + (k,) for p in out for k in range(T.conc(d))]
    return out


def int_sum(E, dims, fn, start=0):
    n = conc_dims(dims)
    if n is not None:
        r = start
        for i in all_idx(dims):
            r = T.add(r, T.toint_num(fn(i)))
        return r

    def rec(i, pre):
        if i == len(dims):
            return T.toint_num(fn(tuple(pre)))
        return T.apply_functional("SUMI", [dims[i]], lambda k: rec(i + 1, pre + [k]), sort=T.I, lam_sort=T.I)
    return T.add(start, rec(0, []))


def sum_arrays(E, seq, start):
    x = seq.item(z3.FreshConst(T.I, "k"))
    r = new_arr(x.shape, "f8", lambda idx: T.apply_functional("SUM", [seq.n], lambda k: T.toreal(seq.item(k).get(idx))))
    return E.binop("Add", r, start)


def red_scalar(E, name, dims, fn, dt, where=None, ddof=0):
    """reduce fn over dims to a scalar"""
    k = dkind(dt)
    nd = conc_dims(dims)
    if name == "sum":
        if where is not None:
            g = fn
            fn = lambda idx: T.ite(T.truth(where(idx)), T.toreal(g(idx)) if k == "f" else T.toint_num(g(idx)), Fraction(0) if k == "f" else 0)
        if k != "f":
            return int_sum(E, dims, fn)
        return nested_sum(dims, fn)
    if name == "mean":
        if where is not None:
            s = nested_sum(dims, lambda idx: T.ite(T.truth(where(idx)), T.toreal(fn(idx)), Fraction(0)))
            c = nested_sum(dims, lambda idx: T.ite(T.truth(where(idx)), Fraction(1), Fraction(0)))
            return T.div(s, c)
        n = 1
        for d in dims:
            n = T.mul(n, d)
        return T.div(nested_sum(dims, fn), T.toreal(n))
    if name in ("std", "var"):
        m = red_scalar(E, "mean", dims, fn, dt, where)

        def sq(idx):
            d = T.sub(T.toreal(fn(idx)), m)
            return T.mul(d, d)
        v = red_scalar(E, "mean", dims, sq, "f8", where)
        return v if name == "var" else T.sqrt(v)
    if name in ("min", "max"):
        if where is not None:
            raise Unsupported(name + " where")
        if nd == 0:
            E.fail("ValueError", "zero-size array to reduction operation")
        if nd is not None and nd <= 16:
            r = None
            for i in all_idx(dims):
                x = fn(i)
                r = x if r is None else (T.min_(r, x) if name == "min" else T.max_(r, x))
            return r
        isr = k == "f"
        t = T.apply_functional("AMIN" if name == "min" else "AMAX", list(dims), lambda *ix: T.toreal(fn(tuple(ix))) if isr else T.toint_num(fn(tuple(ix))), sort=T.R if isr else T.I)

        def fact(*ks):
            rng = T.and_(*[T.and_(T.ge(q, 0), T.lt(q, d)) for q, d in zip(ks, dims)])
            return T.tz(T.implies(rng, T.le(t, fn(tuple(ks))) if name == "min" else T.ge(t, fn(tuple(ks)))))
        E.assume(S.Univ(fact, len(dims), name))
        sk = [z3.FreshConst(T.I, "arg") for _ in dims]
        E.assume(T.implies(T.and_(*[T.gt(d, 0) for d in dims]), T.and_(*([T.and_(T.ge(q, 0), T.lt(q, d)) for q, d in zip(sk, dims)] + [T.eq(t, fn(tuple(sk)))]))))
        return t
    if name == "median":
        nd2 = nd
        if nd2 == 0:
            raise Unsupported("median of empty array (nan)")
        if nd2 == 1:
            return T.toreal(fn(all_idx(dims)[0]))
        return T.apply_functional("MEDIAN", list(dims), lambda *ix: T.toreal(fn(tuple(ix))))
    if name in ("any", "all"):
        if nd is not None:
            xs = [T.truth(fn(i)) for i in all_idx(dims)]
            return T.or_(*xs) if name == "any" else T.and_(*xs)
        g = (lambda ix: T.truth(fn(ix))) if name == "any" else (lambda ix: T.not_(T.truth(fn(ix))))
        c = T.apply_functional("ANY", list(dims), lambda *ix: T.tz(g(tuple(ix))), sort=T.Bo, lam_sort=T.Bo)
        sk = [E.fresh("anyw", T.I) for _ in dims]
        E.assume(T.implies(c, T.and_(*([T.and_(T.ge(q, 0), T.lt(q, d)) for q, d in zip(sk, dims)] + [g(tuple(sk))]))))

        def fact(*ks):
            rng = T.and_(*[T.and_(T.ge(q, 0), T.lt(q, d)) for q, d in zip(ks, dims)])
            return T.tz(T.implies(T.and_(rng, g(tuple(ks))), c))
        E.assume(S.Univ(fact, len(dims), "any"))
        return c if name == "any" else T.not_(c)
    if name == "prod":
        if nd is None:
            raise Unsupported("prod")
        r = 1
        for i in all_idx(dims):
            r = T.mul(r, fn(i))
        return r
    if name in ("argmin", "argmax", "nansum"):
        if name == "nansum":
            E.abstract("nansum: NaN not modelled")
            return red_scalar(E, "sum", dims, fn, dt, where)
        raise Unsupported(name)
    raise Unsupported("reduction " + name)


OUT_DT = {"mean": "f8", "std": "f8", "var": "f8", "median": "f8", "any": "b1", "all": "b1"}


def reduce(E, a, name, axis=None, where=None, keepdims=False):
    if isinstance(a, Masked):
        return reduce(E, a.a, name, None, where=a.m)
    a = asarr(E, a)
    if not isinstance(a, Arr):
        return T.toreal(a) if name in ("mean", "median") else (Fraction(0) if name in ("std", "var") else a)
    rd = a.reader()
    wrd = None
    if where is not None and where is not True:
        w = asarr(E, where)
        if not isinstance(w, Arr):
            raise Unsupported("scalar where")
        sh, maps = broadcast(E, [a.shape, w.shape])
        wr, wm = w.reader(), maps[1]
        wrd = lambda idx: wr(tuple(0 if x is None else idx[x] for x in wm))
    if axis is None:
        axes = list(range(a.ndim))
    else:
        if isinstance(axis, (tuple, PList)):
            axes = [E.unbox(x) for x in E.bm.to_list(E, axis)]
        else:
            axes = [E.unbox(axis)]
        if any(T.is_t(x) for x in axes):
            raise Unsupported("symbolic axis")
        for x in axes:
            if not isinstance(x, int):
                E.fail("TypeError", "axis")
            if not -a.ndim <= x < a.ndim:
                E.fail("ValueError", "axis out of bounds")
        axes = [x % a.ndim for x in axes]
    dims = [a.shape[x] for x in axes]
    rest = [x for x in range(a.ndim) if x not in axes]

    def at(pre):
        def fn(idx):
            full = [None] * a.ndim
            for x, v in zip(axes, idx):
                full[x] = v
            for x, v in zip(rest, pre):
                full[x] = v
            return rd(tuple(full))
        w = None
        if wrd is not None:
            def w(idx):
                full = [None] * a.ndim
                for x, v in zip(axes, idx):
                    full[x] = v
                for x, v in zip(rest, pre):
                    full[x] = v
                return wrd(tuple(full))
        return red_scalar(E, name, dims, fn, a.dtype, w)
    dt = OUT_DT.get(name)
    if dt is None:
        dt = a.dtype
        if name in ("sum", "prod", "nansum") and dkind(dt) in ("i", "b"):
            dt = "i8"
    if not rest:
        r = at(())
        if dkind(dt) == "f":
            r = T.toreal(r)
        return r
    sh = [a.shape[x] for x in rest]
    if keepdims:
        raise Unsupported("keepdims")
    return new_arr(sh, dt, lambda idx: at(idx))


# ---------------------------------------------------------------- other operations
def matmul(E, a, b, axes=None):
    def norm(x, nd):
        return x % nd
    if axes is not None:
        ax = [tuple(E.bm.to_list(E, t)) for t in E.bm.to_list(E, axes)]
        (a1, a2), (b1, b2), (c1, c2) = ax
        a1, a2, b1, b2 = norm(a1, a.ndim), norm(a2, a.ndim), norm(b1, b.ndim), norm(b2, b.ndim)
    else:
        if a.ndim == 1 and b.ndim == 1:
            n = a.shape[0]
            need_eq(E, n, b.shape[0])
            ra, rb = a.reader(), b.reader()
            return nested_sum([n], lambda i: T.mul(T.toreal(ra(i)), T.toreal(rb(i))))
        if a.ndim == 2 and b.ndim == 1:
            need_eq(E, a.shape[1], b.shape[0])
            ra, rb = a.reader(), b.reader()
            n = a.shape[1]
            return new_arr((a.shape[0],), "f8", lambda idx: nested_sum([n], lambda k: T.mul(T.toreal(ra((idx[0], k[0]))), T.toreal(rb((k[0],))))))
        if a.ndim < 2 or b.ndim < 2:
            raise Unsupported("matmul shapes")
        a1, a2, b1, b2 = a.ndim - 2, a.ndim - 1, b.ndim - 2, b.ndim - 1
        c1, c2 = -2, -1
    la = [i for i in range(a.ndim) if i not in (a1, a2)]
    lb = [i for i in range(b.ndim) if i not in (b1, b2)]
    loop, maps = broadcast(E, [tuple(a.shape[i] for i in la), tuple(b.shape[i] for i in lb)])
    n = a.shape[a2]
    need_eq(E, n, b.shape[b1])
    nd = len(loop) + 2
    c1, c2 = c1 % nd, c2 % nd
    shape = [None] * nd
    shape[c1], shape[c2] = a.shape[a1], b.shape[b2]
    lo = [i for i in range(nd) if i not in (c1, c2)]
    for i, x in enumerate(lo):
        shape[x] = loop[i]
    ra, rb = a.reader(), b.reader()

    def content(idx):
        lidx = [idx[x] for x in lo]

        def term(k):
            ia, ib = [None] * a.ndim, [None] * b.ndim
            for j, x in enumerate(la):
                ia[x] = 0 if maps[0][j] is None else lidx[maps[0][j]]
            for j, x in enumerate(lb):
                ib[x] = 0 if maps[1][j] is None else lidx[maps[1][j]]
            ia[a1], ia[a2] = idx[c1], k[0]
            ib[b1], ib[b2] = k[0], idx[c2]
            return T.mul(T.toreal(ra(tuple(ia))), T.toreal(rb(tuple(ib))))
        return nested_sum([n], term)
    return new_arr(shape, "f8", content)


def need_eq(E, x, y):
    if _same(x, y):
        return
    if not T.is_t(x) and not T.is_t(y) or not E.branch(T.eq(x, y)):
        E.fail("ValueError", "matmul: mismatch in core dimension")


def reshape(E, a, shape):
    shape = list(shape)
    total = 1
    for d in a.shape:
        total = T.mul(total, d)
    if any(not T.is_t(d) and d == -1 for d in shape):
        i = [j for j, d in enumerate(shape) if not T.is_t(d) and d == -1][0]
        rest = 1
        for j, d in enumerate(shape):
            if j != i:
                rest = T.mul(rest, d)
        if len(shape) > 1:
            if not E.branch(T.eq(T.mod(total, rest), 0)):
                E.fail("ValueError", "cannot reshape array")
        shape[i] = T.idiv(total, rest) if len(shape) > 1 else total
    n = 1
    for d in shape:
        n = T.mul(n, d)
    if not _same(T.conc(n), T.conc(total)) and not E.branch(T.eq(n, total)):
        E.fail("ValueError", "cannot reshape array")
    rd = a.reader()
    old = list(a.shape)
    if len(old) == len(shape) and all(_same(p, q) or E.entails(T.eq(p, q)) for p, q in zip(old, shape)):
        return alias_arr(a)     # same shape: a view

    def content(idx):
        lin = 0
        for i, d in zip(idx, shape):
            lin = T.add(T.mul(lin, d), i)
        out = []
        for d in reversed(old[1:]):
            out.append(T.mod(lin, d))
            lin = T.idiv(lin, d)
        if old:
            out.append(lin)
        return rd(tuple(reversed(out)))
    r = new_arr(shape, a.dtype, content)
    r.detached = True
    return r


def concat(E, arrs, axis):
    arrs = [asarr(E, a) for a in arrs]
    nd = arrs[0].ndim
    axis = axis % nd
    d = None
    for a in arrs:
        d = a.dtype if d is None else promote(d, a.dtype)
        if a.ndim != nd:
            E.fail("ValueError", "all the input arrays must have same number of dimensions")
        for j in range(nd):
            if j != axis and not _same(a.shape[j], arrs[0].shape[j]):
                if not T.is_t(a.shape[j]) and not T.is_t(arrs[0].shape[j]) or not E.branch(T.eq(a.shape[j], arrs[0].shape[j])):
                    E.fail("ValueError", "all the input array dimensions must match")
    offs, tot = [], 0
    for a in arrs:
        offs.append(tot)
        tot = T.add(tot, a.shape[axis])
    rds = [(a.reader(), a.dtype) for a in arrs]

    def content(idx):
        def at(i):
            r, s = rds[i]
            j = list(idx)
            j[axis] = T.sub(idx[axis], offs[i])
            return cast(r(tuple(j)), s, d)
        res = at(len(arrs) - 1)
        for i in range(len(arrs) - 2, -1, -1):
            c = T.conc(T.lt(idx[axis], offs[i + 1]))
            if c is True:
                res = at(i)
            elif c is not False:
                res = T.ite(c, at(i), res)
        return res
    sh = list(arrs[0].shape)
    sh[axis] = tot
    return new_arr(sh, d, content)


def transpose(a, axes):
    inv = {ax: i for i, ax in enumerate(axes)}
    am = [m if m[0] == "fix" else ("ax", inv[m[1]], m[2], m[3]) for m in a.amap]
    return Arr(a.buf, [a.shape[x] for x in axes], am, a.detached)


def flip(E, a, axes):
    am = []
    for m in a.amap:
        if m[0] == "ax" and m[1] in axes:
            am.append(("ax", m[1], T.add(m[2], T.mul(m[3], T.sub(a.shape[m[1]], 1))), T.neg(m[3])))
        else:
            am.append(m)
    return Arr(a.buf, a.shape, am, a.detached)


def rot90(E, a, k):
    k = k % 4
    if k == 0:
        return alias_arr(a)
    if k == 2:
        return flip(E, a, (0, 1))
    if k == 1:
        return transpose(flip(E, a, (1,)), [1, 0] + list(range(2, a.ndim)))
    return flip(E, transpose(a, [1, 0] + list(range(2, a.ndim))), (1,))


def cast_scalar(E, v, t):
    d = to_dt(E, t)
    return cast(v, dt_of(v), d)


def fix_dim(E, d):
    d = T.conc(d)
    if not T.is_t(d):
        return d
    s = z3.simplify(d)
    s = T.conc(s)
    return None if T.is_t(s) else s


def unsigned_mix(a, b):
    return False


def check_njit_args(E, f, args, kw):
    for v in list(args) + list(kw.values()):
        if isinstance(v, (Obj, PDict, Opaque)) or (isinstance(v, Arr) and v.dtype == "O"):
            E.fail("TypingError", "cannot determine Numba type")


# ---------------------------------------------------------------- attributes
def attr(E, a, k):
    if k == "shape":
        return tuple(a.shape)
    if k == "ndim":
        return a.ndim
    if k == "size":
        n = 1
        for d in a.shape:
            n = T.mul(n, d)
        return n
    if k == "dtype":
        return DType(a.dtype)
    if k == "T":
        return transpose(a, list(range(a.ndim))[::-1])
    if k == "flat":
        return reshape(E, a, [-1])
    if k == "base":
        return None
    if k == "real":
        return a
    if k == "itemsize":
        return int(a.dtype[1])
    m = AMETH.get(k)
    if m is None:
        if k in NDARRAY_ATTRS:
            raise Unsupported("ndarray.%s" % k)
        E.fail("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % k)
    return BoundM(a, m)


def setattr(E, a, k, v):
    if k in NDARRAY_ATTRS:
        raise Unsupported("set ndarray.%s" % k)
    E.fail("AttributeError", k)


def _ared(name):
    def f(E, a, args, kw):
        axis = args[0] if args else kw.get("axis")
        return reduce(E, a, name, axis, kw.get("where"))
    return f


def _astype(E, a, args, kw):
    d = to_dt(E, args[0] if args else kw["dtype"])
    if kw.get("copy") is False and d == a.dtype:
        return a
    return np_array(E, a, d)


def _reshape(E, a, args, kw):
    sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, PList)) else tuple(args)
    return reshape(E, a, [E.unbox(x) for x in E.bm.to_list(E, sh)])


def _tolist(E, a, args, kw):
    items = E.bm.conc_items(E, a)
    if items is None:
        return PList(E.bm.to_seq(E, a))
    return PList([_tolist(E, x, (), {}) if isinstance(x, Arr) else x for x in items])


def _fill(E, a, args, kw):
    assign_view(E, a, args[0])


def _flatten(E, a, args, kw):
    r = reshape(E, a, [-1])
    r.detached = False
    return r


try:
    import numpy as _numpy
    NDARRAY_ATTRS = frozenset(dir(_numpy.ndarray)) | {"itemset", "ptp", "newbyteorder"}
except ImportError:                                   # then every unknown name may exist
    class _All:
        def __contains__(self, k): return True
    NDARRAY_ATTRS = _All()


AMETH = {
    "repeat": lambda E, a, args, kw: FN["repeat"](E, [a] + list(args), kw),
    "copy": lambda E, a, args, kw: np_array(E, a),
    "astype": _astype, "reshape": _reshape, "tolist": _tolist, "fill": _fill,
    "flatten": _flatten, "ravel": lambda E, a, args, kw: reshape(E, a, [-1]),
    "transpose": lambda E, a, args, kw: transpose(a, list(range(a.ndim))[::-1] if not args else list(E.bm.to_list(E, args[0]) if isinstance(args[0], (tuple, PList)) else args)),
    "item": lambda E, a, args, kw: a.get(tuple([0] * a.ndim)) if not args else getitem(E, a, tuple(args)),
    "tofile": lambda E, a, args, kw: E.lib.arr_tofile(E, a, args, kw),
    "byteswap": lambda E, a, args, kw: _uns("byteswap"),
    "newbyteorder": lambda E, a, args, kw: _uns("newbyteorder"),
    "view": lambda E, a, args, kw: _uns("view"),
    "squeeze": lambda E, a, args, kw: squeeze(E, a),
    "clip": lambda E, a, args, kw: FN["clip"](E, [a] + list(args), kw),
    "round": lambda E, a, args, kw: _uns("round"),
    "dot": lambda E, a, args, kw: matmul(E, a, args[0]),
    "nonzero": lambda E, a, args, kw: _uns("nonzero"),
    "sort": lambda E, a, args, kw: _uns("sort"),
}
for _n in ("sum", "mean", "std", "var", "min", "max", "any", "all", "prod", "argmin", "argmax"):
    AMETH[_n] = _ared(_n)


def _uns(what):
    raise Unsupported("array." + what)


def squeeze(E, a):
    keep = [i for i, d in enumerate(a.shape) if T.is_t(d) or d != 1]
    new = {x: i for i, x in enumerate(keep)}
    am = []
    for m in a.amap:
        if m[0] == "ax" and m[1] not in new:
            am.append(("fix", m[2]))
        elif m[0] == "ax":
            am.append(("ax", new[m[1]], m[2], m[3]))
        else:
            am.append(m)
    return Arr(a.buf, [a.shape[x] for x in keep], am, a.detached)


FN = {}


def make(E0):
    env = Env(None, None, "module numpy")
    mod = ModuleV("numpy", env)
    env.module = mod
    D = env.d

    def npf(*names):
        def d(fn):
            for n in names:
                def g(E, a, kw, fn=fn, n=n):
                    USED.add("numpy." + n)
                    return fn(E, a, kw)
                D[n] = Builtin("np." + n, g)
                FN[n] = g
            return fn
        return d

    for n, dt in list(NPT.items()):
        def ctor(E, a, kw, dt=dt):
            v = a[0]
            if isinstance(v, (PList, tuple, Arr)):
                return np_array(E, v, dt)
            v = E.unbox(v)
            if isinstance(v, str):
                return Fraction(v)
            return cast(v, dt_of(v), dt)
        D[n] = TypeV("np." + n, ctor)
        TYPES.setdefault(dt, D[n])
    D["ndarray"] = E0.bm.TY.get("ndarray") or TypeV("ndarray")
    D["pi"] = T.PI
    D["newaxis"] = None
    for n in ("integer", "floating", "number", "generic"):
        D[n] = TypeV("np." + n)

    @npf("dtype")
    def _dtype(E, a, kw):
        return DType(to_dt(E, a[0]))

    @npf("array")
    def _array(E, a, kw):
        r = np_array(E, a[0], to_dt(E, a[1] if len(a) > 1 else kw.get("dtype")))
        return r

    @npf("asarray", "ascontiguousarray")
    def _asarray(E, a, kw):
        return np_array(E, a[0], to_dt(E, a[1] if len(a) > 1 else kw.get("dtype")), copy=False)

    @npf("copy")
    def _copy(E, a, kw):
        return np_array(E, a[0])

    def filler(nm, val):
        @npf(nm)
        def _f(E, a, kw):
            sh = shape_arg(E, a[0] if a else kw["shape"])
            dt = to_dt(E, a[1] if len(a) > 1 else kw.get("dtype")) or "f8"
            v = val(dt)
            return new_arr(sh, dt, lambda idx: v, nm)

        @npf(nm + "_like")
        def _fl(E, a, kw):
            x = asarr(E, a[0])
            dt = to_dt(E, a[1] if len(a) > 1 else kw.get("dtype")) or dt_of(x)
            v = val(dt)
            if not isinstance(x, Arr):
                return v
            return new_arr(x.shape, dt, lambda idx: v, nm)
    filler("zeros", zero_of)
    filler("ones", one_of)

    @npf("empty")
    def _empty(E, a, kw):
        sh = shape_arg(E, a[0] if a else kw["shape"])
        return havoc(E, sh, to_dt(E, a[1] if len(a) > 1 else kw.get("dtype")) or "f8", "uninit")

    @npf("empty_like")
    def _emptyl(E, a, kw):
        return havoc(E, a[0].shape, to_dt(E, kw.get("dtype")) or a[0].dtype, "uninit")

    @npf("full")
    def _full(E, a, kw):
        sh = shape_arg(E, a[0] if a else kw["shape"])
        v = E.unbox(a[1] if len(a) > 1 else kw["fill_value"])
        dt = to_dt(E, a[2] if len(a) > 2 else kw.get("dtype")) or dt_of(v)
        v = cast(v, dt_of(v), dt)
        return new_arr(sh, dt, lambda idx: v)

    @npf("full_like")
    def _fulll(E, a, kw):
        v = E.unbox(a[1])
        dt = to_dt(E, kw.get("dtype")) or a[0].dtype
        v = cast(v, dt_of(v), dt)
        return new_arr(a[0].shape, dt, lambda idx: v)

    @npf("arange")
    def _arange(E, a, kw):
        a = [E.unbox(x) for x in a]
        if "start" in kw or "stop" in kw:
            a = [kw.get("start", 0), kw["stop"]] + ([kw["step"]] if "step" in kw else [])
        dt = to_dt(E, kw.get("dtype"))
        if len(a) == 1:
            st, sp, step = 0, a[0], 1
        elif len(a) == 2:
            st, sp, step = a[0], a[1], 1
        else:
            st, sp, step = a[0], a[1], a[2]
        if "step" in kw:
            step = E.unbox(kw["step"])
        if all(T.sortof(x) != "r" for x in (st, sp, step)):
            n = E.bm.range_len(E, RangeV(st, sp, step))
            d = dt or "i8"
            return new_arr((n,), d, lambda idx: cast(T.add(st, T.mul(idx[0], step)), "i8", d))
        # ceil((stop-start)/step)
        q = T.div(T.sub(sp, st), step)
        n = T.neg(T.floor(T.neg(q)))
        n = T.conc(n)
        if not T.is_t(n):
            n = max(0, n)
        elif not E.entails(T.ge(n, 0)):
            n = T.max_(n, 0)
        return new_arr((n,), dt or "f8", lambda idx: T.add(T.toreal(st), T.mul(T.toreal(idx[0]), T.toreal(step))))

    @npf("linspace")
    def _linspace(E, a, kw):
        st, sp = E.unbox(a[0]), E.unbox(a[1])
        n = E.unbox(a[2] if len(a) > 2 else kw.get("num", 50))
        n = T.toint_num(n)
        den = T.sub(n, 1)
        if T.is_t(den):
            if not E.branch(T.gt(n, 1)):
                if not E.branch(T.eq(n, 1)):
                    return new_arr((0,), "f8", lambda idx: Fraction(0))
                return new_arr((1,), "f8", lambda idx: T.toreal(st))
        elif n == 1:
            return new_arr((1,), "f8", lambda idx: T.toreal(st))
        return new_arr((n,), "f8", lambda idx: T.add(T.toreal(st), T.div(T.mul(T.toreal(idx[0]), T.toreal(T.sub(sp, st))), T.toreal(den))))

    @npf("meshgrid")
    def _meshgrid(E, a, kw):
        ix = kw.get("indexing", "xy")
        x, y = [asarr(E, q) for q in a]
        rx, ry = x.reader(), y.reader()
        if ix == "xy":
            sh = (y.shape[0], x.shape[0])
            return PList([new_arr(sh, x.dtype, lambda idx: rx((idx[1],))), new_arr(sh, y.dtype, lambda idx: ry((idx[0],)))])
        sh = (x.shape[0], y.shape[0])
        return PList([new_arr(sh, x.dtype, lambda idx: rx((idx[0],))), new_arr(sh, y.dtype, lambda idx: ry((idx[1],)))])

    @npf("indices")
    def _indices(E, a, kw):
        sh = shape_arg(E, a[0])
        return new_arr((len(sh),) + sh, "i8", lambda idx: _select([(lambda i=i: idx[i + 1]) for i in range(len(sh))], idx[0]))

    def red(nm, *al):
        @npf(nm, *al)
        def _r(E, a, kw):
            x = a[0]
            axis = a[1] if len(a) > 1 else kw.get("axis")
            if "out" in kw or "initial" in kw:
                raise Unsupported("reduction out=")
            return reduce(E, x, nm, axis, kw.get("where"))
    for nm, al in (("sum", ()), ("mean", ()), ("std", ()), ("var", ()), ("median", ()), ("min", ("amin",)), ("max", ("amax",)), ("any", ()), ("all", ()), ("prod", ()), ("nansum", ()), ("argmin", ()), ("argmax", ())):
        red(nm, *al)

    def bop(nm, op):
        @npf(nm)
        def _b(E, a, kw):
            r = E.binop(op, a[0], a[1]) if isinstance(a[0], Arr) or isinstance(a[1], Arr) else binop(E, op, a[0], a[1])
            return finish(E, r, kw, a)
    for nm, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("power", "Pow"), ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv")):
        bop(nm, op)

    @npf("divide", "true_divide")
    def _divide(E, a, kw):
        x, y = asarr(E, a[0]), asarr(E, a[1])
        r = binop(E, "Div", x, y)
        kw = dict(kw)
        if len(a) > 2:
            kw["out"] = a[2]
        return finish(E, r, kw, a)

    def finish(E, r, kw, a):
        """ufunc keyword arguments dtype=, where=, out="""
        w, out, dt = kw.get("where", True), kw.get("out"), to_dt(E, kw.get("dtype"))
        if isinstance(out, tuple):
            out = out[0]
        if dt is not None:
            if isinstance(r, Arr):
                if CAT[dkind(r.dtype)] > CAT[dkind(dt)]:
                    E.fail("TypeError", "Cannot cast ufunc")
                r = np_array(E, r, dt)
            else:
                r = cast(r, dt_of(r), dt)
        if w is True and out is None:
            return r
        w = asarr(E, w)
        if out is None:
            sh, maps = broadcast(E, [r.shape if isinstance(r, Arr) else (), w.shape if isinstance(w, Arr) else ()])
            out = havoc(E, sh, dt_of(r), "uninit")
        else:
            if not isinstance(out, Arr):
                E.fail("TypeError", "return arrays must be of ArrayType")
            if CAT[dkind(dt_of(r))] > CAT[dkind(out.dtype)]:
                E.fail("TypeError", "Cannot cast ufunc output")
            sh, maps = broadcast(E, [out.shape, r.shape if isinstance(r, Arr) else (), w.shape if isinstance(w, Arr) else ()])
            if len(sh) != out.ndim or any(not _same(x, y) and not E.branch(T.eq(x, y)) for x, y in zip(sh, out.shape)):
                E.fail("ValueError", "non-broadcastable output operand")
            maps = maps[1:]
        rr = r.reader() if isinstance(r, Arr) else (lambda idx: r)
        rdt = dt_of(r)
        wr = w.reader() if isinstance(w, Arr) else (lambda idx: w)
        sh2, mm = broadcast(E, [out.shape, r.shape if isinstance(r, Arr) else (), w.shape if isinstance(w, Arr) else ()])
        old = out.reader()
        odt = out.dtype

        def val(idx):
            wv = T.truth(wr(tuple(0 if x is None else idx[x] for x in mm[2])))
            rv = cast(rr(tuple(0 if x is None else idx[x] for x in mm[1])), rdt, odt)
            return T.ite(wv, rv, old(idx))
        out.write(val)
        return out

    def ufr(nm, f, *al):
        """real-valued elementwise function"""
        @npf(nm, *al)
        def _u(E, a, kw):
            x = asarr(E, a[0])
            dt = "f4" if isinstance(x, Arr) and x.dtype == "f4" else "f8"
            r = ew(E, [x], lambda v: f(E, T.toreal(v)), dt)
            return finish(E, r, kw, a)

    def sqrt_(E, v):
        return T.toreal(T.sqrt(v))
    ufr("sqrt", sqrt_)
    ufr("sin", lambda E, v: T.toreal(T.sin_cos(v)[0]))
    ufr("cos", lambda E, v: T.toreal(T.sin_cos(v)[1]))
    ufr("tan", lambda E, v: T.div(*T.sin_cos(v)))
    ufr("exp", lambda E, v: T.EXP(T.tz(v)))
    ufr("deg2rad", lambda E, v: T.mul(T.div(v, 180), T.PI), "radians")
    ufr("rad2deg", lambda E, v: T.div(T.mul(v, 180), T.PI), "degrees")
    ufr("arctan", lambda E, v: T.ATAN2(T.tz(v), T.tz(Fraction(1))))
    ufr("floor", lambda E, v: T.toreal(T.floor(v)))
    ufr("ceil", lambda E, v: T.toreal(T.neg(T.floor(T.neg(v)))))
    ufr("trunc", lambda E, v: T.toreal(T.trunc(v)))
    ufr("rint", lambda E, v: T.toreal(_rint(v)))

    def _rint(v):
        f = T.floor(v)
        d = T.sub(v, T.toreal(f))
        h = Fraction(1, 2)
        return T.ite(T.lt(d, h), f, T.ite(T.gt(d, h), T.add(f, 1), T.ite(T.eq(T.mod(f, 2), 0), f, T.add(f, 1))))

    @npf("round", "around")
    def _round(E, a, kw):
        if len(a) > 1 or "decimals" in kw:
            raise Unsupported("np.round decimals")
        x = asarr(E, a[0])
        if dkind(dt_of(x)) == "i":
            return x
        return ew(E, [x], lambda v: T.toreal(_rint(v)), "f8")

    def uninterp(nm):
        f = z3.Function("np_" + nm, T.R, T.R)
        ufr(nm, lambda E, v: f(T.tz(v)))
    for nm in ("log", "log10", "log2", "arcsin", "arccos", "sinh", "cosh", "tanh"):
        uninterp(nm)

    @npf("arctan2")
    def _at2(E, a, kw):
        x, y = asarr(E, a[0]), asarr(E, a[1])
        return finish(E, ew(E, [x, y], lambda p, q: T.ATAN2(T.tz(T.toreal(p)), T.tz(T.toreal(q))), "f8"), kw, a)

    @npf("hypot")
    def _hyp(E, a, kw):
        x, y = asarr(E, a[0]), asarr(E, a[1])
        return finish(E, ew(E, [x, y], lambda p, q: T.sqrt(T.add(T.mul(T.toreal(p), T.toreal(p)), T.mul(T.toreal(q), T.toreal(q)))), "f8"), kw, a)

    @npf("abs", "absolute", "fabs")
    def _abs(E, a, kw):
        x = asarr(E, a[0])
        return finish(E, ew(E, [x], T.abs_, dt_of(x)), kw, a)

    @npf("negative")
    def _neg(E, a, kw):
        x = asarr(E, a[0])
        return unary(E, "USub", x) if isinstance(x, Arr) else T.neg(x)

    @npf("square")
    def _sq(E, a, kw):
        return binop(E, "Mult", a[0], a[0])

    @npf("sign")
    def _sign(E, a, kw):
        x = asarr(E, a[0])
        return ew(E, [x], lambda v: T.ite(T.gt(v, 0), 1, T.ite(T.lt(v, 0), -1, 0)) if T.sortof(v) != "r" else T.ite(T.gt(v, 0), Fraction(1), T.ite(T.lt(v, 0), Fraction(-1), Fraction(0))), dt_of(x))

    def minmax2(nm, f):
        @npf(nm)
        def _mm(E, a, kw):
            x, y = asarr(E, a[0]), asarr(E, a[1])
            dt = result_dt(E, [x, y])
            return finish(E, ew(E, [x, y], lambda p, q: f(cast(p, dt_of(x), dt), cast(q, dt_of(y), dt)), dt), kw, a)
    minmax2("minimum", T.min_)
    minmax2("maximum", T.max_)
    minmax2("fmin", T.min_)
    minmax2("fmax", T.max_)

    @npf("clip")
    def _clip(E, a, kw):
        lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
        hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
        r = a[0]
        if lo is not None:
            r = FN["maximum"](E, [r, lo], {})
        if hi is not None:
            r = FN["minimum"](E, [r, hi], {})
        return r

    def logic(nm, f):
        @npf(nm)
        def _l(E, a, kw):
            xs = [asarr(E, q) for q in a]
            return finish(E, ew(E, xs, lambda *v: f(*[T.truth(q) for q in v]), "b1"), kw, a)
    logic("logical_and", T.and_)
    logic("logical_or", T.or_)
    logic("logical_not", T.not_)
    logic("logical_xor", lambda x, y: T.not_(T.eq(x, y)))

    def cmpf(nm, op):
        @npf(nm)
        def _c(E, a, kw):
            return compare(E, op, a[0], a[1])
    for nm, op in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")):
        cmpf(nm, op)

    @npf("where")
    def _where(E, a, kw):
        if len(a) == 1:
            raise Unsupported("np.where with one argument")
        c, x, y = [asarr(E, q) for q in a]
        dt = None
        # where() promotes like result_type of x, y (value based for scalars)
        dt = result_dt(E, [x, y]) if (isinstance(x, Arr) or isinstance(y, Arr)) else promote(dt_of(x), dt_of(y))
        dx, dy = dt_of(x), dt_of(y)
        return ew(E, [c, x, y], lambda p, q, r: T.ite(T.truth(p), cast(q, dx, dt), cast(r, dy, dt)), dt)

    @npf("isin")
    def _isin(E, a, kw):
        x, y = asarr(E, a[0]), asarr(E, a[1])
        items = E.bm.to_list(E, y)
        return ew(E, [x], lambda v: T.or_(*[T.eq(v, i) for i in items]), "b1")

    for nm in ("isnan", "isinf"):
        @npf(nm)
        def _isn(E, a, kw):
            x = asarr(E, a[0])
            E.assumptions.add("no NaN or infinite pixel values")
            return ew(E, [x], lambda v: False, "b1")

    @npf("isfinite")
    def _isf(E, a, kw):
        x = asarr(E, a[0])
        E.assumptions.add("no NaN or infinite pixel values")
        return ew(E, [x], lambda v: True, "b1")

    @npf("nan_to_num")
    def _n2n(E, a, kw):
        E.assumptions.add("no NaN or infinite pixel values")
        return np_array(E, a[0])

    @npf("array_equal")
    def _ae(E, a, kw):
        x, y = asarr(E, a[0]), asarr(E, a[1])
        if x.ndim != y.ndim:
            return False
        for p, q in zip(x.shape, y.shape):
            if not E.branch(T.eq(p, q)):
                return False
        return reduce(E, compare(E, "Eq", x, y), "all")

    @npf("allclose", "isclose")
    def _ac(E, a, kw):
        E.abstract("allclose")
        return E.fresh("allclose", T.Bo)

    @npf("concatenate")
    def _conc(E, a, kw):
        return concat(E, E.bm.to_list(E, a[0]), a[1] if len(a) > 1 else kw.get("axis", 0))

    @npf("vstack")
    def _vs(E, a, kw):
        return concat(E, [x if x.ndim > 1 else expand(E, x, 0) for x in map(lambda q: asarr(E, q), E.bm.to_list(E, a[0]))], 0)

    @npf("hstack")
    def _hs(E, a, kw):
        xs = [asarr(E, q) for q in E.bm.to_list(E, a[0])]
        return concat(E, xs, 0 if xs[0].ndim == 1 else 1)

    @npf("stack")
    def _st(E, a, kw):
        ax = a[1] if len(a) > 1 else kw.get("axis", 0)
        xs = [asarr(E, q) for q in E.bm.to_list(E, a[0])]
        if ax != 0:
            ax = ax % (xs[0].ndim + 1)
            r = stack(E, xs)
            order = list(range(1, r.ndim))
            order.insert(ax, 0)
            return np_array(E, transpose(r, order))
        return stack(E, xs)

    @npf("append")
    def _app(E, a, kw):
        if kw.get("axis") is not None or len(a) > 2:
            raise Unsupported("np.append axis")
        x, y = asarr(E, a[0]), asarr(E, a[1])
        x = reshape(E, x, [-1]) if isinstance(x, Arr) else np_array(E, PList([x]))
        y = reshape(E, y, [-1]) if isinstance(y, Arr) else np_array(E, PList([y]))
        return concat(E, [x, y], 0)

    def expand(E, x, ax):
        nd = x.ndim + 1
        ax = ax % nd
        am = [m if m[0] == "fix" else ("ax", m[1] + (1 if m[1] >= ax else 0), m[2], m[3]) for m in x.amap]
        sh = list(x.shape)
        sh.insert(ax, 1)
        return Arr(x.buf, sh, am, x.detached)

    @npf("expand_dims")
    def _ed(E, a, kw):
        x = asarr(E, a[0])
        ax = a[1] if len(a) > 1 else kw["axis"]
        return expand(E, x, ax)

    @npf("squeeze")
    def _sqz(E, a, kw):
        return squeeze(E, a[0])

    @npf("repeat")
    def _repeat(E, a, kw):
        x = asarr(E, a[0])
        n = a[1] if len(a) > 1 else kw["repeats"]
        ax = a[2] if len(a) > 2 else kw.get("axis")
        if T.is_t(n) or isinstance(n, Arr):
            raise Unsupported("repeat")
        rd = x.reader()
        if ax is None:
            if x.ndim != 1:
                x = reshape(E, x, [-1])
                rd = x.reader()
            ax = 0
        sh = list(x.shape)
        one = not T.is_t(sh[ax]) and sh[ax] == 1
        sh[ax] = T.mul(sh[ax], n)

        def content(idx):
            j = list(idx)
            j[ax] = 0 if one else T.idiv(idx[ax], n)
            return rd(tuple(j))
        return new_arr(sh, x.dtype, content)

    @npf("tile")
    def _tile(E, a, kw):
        x = asarr(E, a[0])
        reps = [E.unbox(q) for q in (E.bm.to_list(E, a[1]) if isinstance(a[1], (tuple, PList)) else [a[1]])]
        while len(reps) < x.ndim:
            reps.insert(0, 1)
        rd = x.reader()
        off = len(reps) - x.ndim
        osh = [1] * off + list(x.shape)
        sh = [T.mul(d, r) for d, r in zip(osh, reps)]
        return new_arr(sh, x.dtype, lambda idx: rd(tuple(T.mod(idx[off + j], x.shape[j]) for j in range(x.ndim))))

    @npf("kron")
    def _kron(E, a, kw):
        x, y = asarr(E, a[0]), asarr(E, a[1])
        if x.ndim != 2 or y.ndim != 2:
            raise Unsupported("kron")
        rx, ry = x.reader(), y.reader()
        dt = result_dt(E, [x, y])
        return new_arr([T.mul(p, q) for p, q in zip(x.shape, y.shape)], dt, lambda idx: cast(T.mul(rx((T.idiv(idx[0], y.shape[0]), T.idiv(idx[1], y.shape[1]))), ry((T.mod(idx[0], y.shape[0]), T.mod(idx[1], y.shape[1])))), dt, dt))

    @npf("roll")
    def _roll(E, a, kw):
        x = asarr(E, a[0])
        sh = a[1] if len(a) > 1 else kw["shift"]
        ax = a[2] if len(a) > 2 else kw.get("axis")
        if ax is None:
            raise Unsupported("roll flat")
        axs = [q % x.ndim for q in (E.bm.to_list(E, ax) if isinstance(ax, (tuple, PList)) else [ax])]
        shs = E.bm.to_list(E, sh) if isinstance(sh, (tuple, PList)) else [sh]
        rd = x.reader()

        def content(idx):
            j = list(idx)
            for q, s in zip(axs, shs):
                j[q] = T.mod(T.sub(idx[q], s), x.shape[q])
            return rd(tuple(j))
        return new_arr(x.shape, x.dtype, content)

    @npf("pad")
    def _pad(E, a, kw):
        raise Unsupported("np.pad")

    @npf("reshape")
    def _rs(E, a, kw):
        sh = a[1] if isinstance(a[1], (tuple, PList)) else (a[1],)
        return reshape(E, asarr(E, a[0]), [E.unbox(q) for q in E.bm.to_list(E, sh)])

    @npf("ravel")
    def _rv(E, a, kw):
        return reshape(E, asarr(E, a[0]), [-1])

    @npf("transpose")
    def _tr(E, a, kw):
        x = asarr(E, a[0])
        ax = a[1] if len(a) > 1 else kw.get("axes")
        return transpose(x, list(range(x.ndim))[::-1] if ax is None else [q % x.ndim for q in E.bm.to_list(E, ax)])

    @npf("swapaxes")
    def _sw(E, a, kw):
        x = asarr(E, a[0])
        o = list(range(x.ndim))
        o[a[1]], o[a[2]] = o[a[2]], o[a[1]]
        return transpose(x, o)

    @npf("moveaxis")
    def _mv(E, a, kw):
        x = asarr(E, a[0])
        s, d = a[1] % x.ndim, a[2] % x.ndim
        o = [q for q in range(x.ndim) if q != s]
        o.insert(d, s)
        return transpose(x, o)

    @npf("flip")
    def _flip(E, a, kw):
        x = asarr(E, a[0])
        ax = a[1] if len(a) > 1 else kw.get("axis")
        axs = tuple(range(x.ndim)) if ax is None else tuple(q % x.ndim for q in (E.bm.to_list(E, ax) if isinstance(ax, (tuple, PList)) else [ax]))
        return flip(E, x, axs)

    @npf("flipud")
    def _fud(E, a, kw):
        return flip(E, a[0], (0,))

    @npf("fliplr")
    def _flr(E, a, kw):
        return flip(E, a[0], (1,))

    @npf("rot90")
    def _rot(E, a, kw):
        k = a[1] if len(a) > 1 else kw.get("k", 1)
        if T.is_t(k):
            for q in range(4):
                if E.branch(T.eq(T.mod(k, 4), q)):
                    return rot90(E, asarr(E, a[0]), q)
        return rot90(E, asarr(E, a[0]), k)

    @npf("matmul", "dot")
    def _mm_(E, a, kw):
        x, y = asarr(E, a[0]), asarr(E, a[1])
        return matmul(E, x, y, kw.get("axes"))

    @npf("einsum")
    def _es(E, a, kw):
        spec = a[0].replace(" ", "")
        lhs, rhs = spec.split("->")
        ins = lhs.split(",")
        arrs = [asarr(E, q) for q in a[1:]]
        dim = {}
        for s, x in zip(ins, arrs):
            if "." in s or len(s) != x.ndim:
                raise Unsupported("einsum ellipsis")
            for c, d in zip(s, x.shape):
                if c in dim:
                    need_eq(E, dim[c], d)
                else:
                    dim[c] = d
        summed = [c for c in dim if c not in rhs]
        rds = [x.reader() for x in arrs]

        def content(idx):
            m = dict(zip(rhs, idx))

            def f(k):
                mm = dict(m)
                mm.update(zip(summed, k))
                r = Fraction(1)
                for s, rd in zip(ins, rds):
                    r = T.mul(r, T.toreal(rd(tuple(mm[c] for c in s))))
                return r
            return nested_sum([dim[c] for c in summed], f)
        if not rhs:
            return content(())
        return new_arr([dim[c] for c in rhs], "f8", content)

    @npf("diff")
    def _diff(E, a, kw):
        x = asarr(E, a[0])
        rd = x.reader()
        return new_arr((T.sub(x.shape[0], 1),), x.dtype, lambda idx: T.sub(rd((T.add(idx[0], 1),)), rd(idx)))

    @npf("copyto")
    def _ct(E, a, kw):
        if "where" in kw:
            raise Unsupported("copyto where")
        assign_view(E, a[0], a[1])

    @npf("shape")
    def _shape(E, a, kw):
        x = asarr(E, a[0])
        return tuple(x.shape)

    @npf("size")
    def _size(E, a, kw):
        return attr(E, asarr(E, a[0]), "size")

    @npf("ndim")
    def _ndim(E, a, kw):
        x = asarr(E, a[0])
        return x.ndim if isinstance(x, Arr) else 0

    @npf("count_nonzero")
    def _cnz(E, a, kw):
        return count(E, compare(E, "NotEq", a[0], 0) if a[0].dtype != "b1" else a[0])

    @npf("isscalar")
    def _iss(E, a, kw):
        return T.is_num(a[0]) or isinstance(a[0], str)

    @npf("seterr", "errstate")
    def _se(E, a, kw):
        return Opaque("np.errstate")

    @npf("frombuffer", "fromfile", "fromstring", "loadtxt", "genfromtxt", "load")
    def _fb(E, a, kw):
        return E.lib.np_read(E, a, kw)

    class Cast:
        def py_getitem(self, E, k):
            d = to_dt(E, k)
            return Builtin("np.cast", lambda E, a, kw: np_array(E, a[0], d, copy=False))
    D["cast"] = Cast()

    # linear algebra
    la = Env(None, None, "module numpy.linalg")
    lam = ModuleV("numpy.linalg", la)

    def mat_fun(E, name, a, oshape, extra=()):
        USED.add("numpy.linalg." + name)
        n = conc_dims(a.shape)
        if n is None:
            raise Unsupported("linalg of symbolic shape")
        rd = a.reader()
        els = [T.tz(T.toreal(rd(i))) for i in all_idx(a.shape)] + [T.tz(T.toreal(x)) for x in extra]
        tag = "x".join(str(d) for d in a.shape)

        def content(idx):
            if any(T.is_t(T.conc(i)) for i in idx):
                items = {}
                r = None
                for i in reversed(all_idx(oshape)):
                    v = z3.Function("%s_%s_%s" % (name, tag, "_".join(map(str, i))), *([T.R] * len(els) + [T.R]))(*els)
                    r = v if r is None else T.ite(T.and_(*[T.eq(p, q) for p, q in zip(idx, i)]), v, r)
                return r
            i = tuple(T.conc(q) for q in idx)
            return z3.Function("%s_%s_%s" % (name, tag, "_".join(map(str, i))), *([T.R] * len(els) + [T.R]))(*els)
        return new_arr(oshape, "f8", content)

    def pinv(E, a, kw):
        x = asarr(E, a[0])
        return mat_fun(E, "pinv", x, (x.shape[1], x.shape[0]))

    def inv(E, a, kw):
        x = asarr(E, a[0])
        if E.choose([True, False]) is False:
            E.fail("LinAlgError", "Singular matrix")
        return mat_fun(E, "inv", x, x.shape)
    la.d["pinv"] = Builtin("np.linalg.pinv", pinv)
    la.d["inv"] = Builtin("np.linalg.inv", inv)
    la.d["LinAlgError"] = TypeV("LinAlgError")

    def norm(E, a, kw):
        x = asarr(E, a[0])
        if kw or len(a) > 1:
            raise Unsupported("linalg.norm arguments")
        return T.sqrt(red_scalar(E, "sum", list(x.shape), (lambda rd: (lambda i: T.mul(T.toreal(rd(i)), T.toreal(rd(i)))))(x.reader()), "f8"))
    la.d["norm"] = Builtin("np.linalg.norm", norm)
    D["linalg"] = lam
    rnd = Env(None, None, "module numpy.random")

    def rand(E, a, kw):
        return havoc(E, shape_arg(E, tuple(a)), "f8", "rand") if a else E.fresh("rand", T.R)
    rnd.d["rand"] = Builtin("np.random.rand", rand)
    rnd.d["seed"] = Builtin("np.random.seed", lambda E, a, kw: None)
    D["random"] = ModuleV("numpy.random", rnd)
    D["histogram"] = Builtin("np.histogram", lambda E, a, kw: E.lib.opaque_result(E, "np.histogram"))
    D["delete"] = Builtin("np.delete", lambda E, a, kw: _uns("np.delete"))
    return {"numpy": mod, "numpy.linalg": lam}
