"""Python builtins and core object protocol over symbolic values."""
from fractions import Fraction
import ast
import z3
from . import terms as T
from . import solver as S
from .values import *
from .values import _same


class SymStr:
    """string with unknown parts: a tuple of str / tagged opaque parts"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "SymStr%r" % (self.parts,)

    def __eq__(self, o):
        return isinstance(o, SymStr) and len(self.parts) == len(o.parts) and all(_pe(a, b) for a, b in zip(self.parts, o.parts))

    def __hash__(self):
        return hash(tuple(p if isinstance(p, str) else "?" for p in self.parts))


def _pe(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all((x.eq(y) if T.is_t(x) and T.is_t(y) else x is y or (not T.is_t(x) and not T.is_t(y) and x == y)) for x, y in zip(a, b))
    return a == b


def str_concat(parts):
    out = []
    for p in parts:
        if isinstance(p, SymStr):
            out.extend(p.parts)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        elif p != "":
            res.append(p)
    if all(isinstance(p, str) for p in res):
        return "".join(res)
    return SymStr(res)


def to_str(E, v):
    v = E.unbox(v)
    if isinstance(v, (str, SymStr)):
        return v
    if v is None or isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        f = float(v)
        return str(f)
    if T.is_t(v):
        return SymStr([("str", v)])
    if hasattr(v, "py_str"):
        return v.py_str()
    if isinstance(v, (tuple, PList)) and not (isinstance(v, PList) and isinstance(v.items, SymSeq)):
        items = v if isinstance(v, tuple) else v.items
        return str_concat(["(" if isinstance(v, tuple) else "["] + [y for i, x in enumerate(items) for y in ((", " if i else ""), to_str(E, x))] + [")" if isinstance(v, tuple) else "]"])
    return SymStr([("obj", id(v), v)])


def to_str_fmt(E, v, spec, conv):
    v = E.unbox(v)
    if spec == "" or spec is None:
        if isinstance(v, (str, int)) and conv != ord("r"):
            return str(v)
        return to_str(E, v)
    if isinstance(v, (int, str)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError as e:
            E.fail("ValueError", str(e))
    if isinstance(v, Fraction) and isinstance(spec, str):
        return format(float(v), spec)
    return SymStr([("fmt", v if T.is_t(v) else id(v), spec)])


def hkey(E, v):
    """a hashable key for dict/set/lru_cache"""
    v = E.unbox(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str, Fraction, SymStr)):
        return v
    if isinstance(v, tuple):
        return tuple(hkey(E, x) for x in v)
    if T.is_t(v):
        return v
    if isinstance(v, (PList, PDict, PSet, Arr)):
        E.fail("TypeError", "unhashable type")
    return v


def truth(E, v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if T.is_t(v):
        return E.branch(T.truth(v))
    if isinstance(v, (int, Fraction, str)):
        return bool(v)
    if isinstance(v, PList):
        if isinstance(v.items, SymSeq):
            return E.branch(T.gt(v.items.n, 0))
        return len(v.items) > 0
    if isinstance(v, SymSeq):
        return E.branch(T.gt(v.n, 0))
    if isinstance(v, (PDict, PSet)):
        return len(v.d) > 0
    if isinstance(v, (tuple, bytes)):
        return len(v) > 0
    if isinstance(v, Arr):
        if v.ndim == 0:
            return E.branch(T.truth(v.get(())))
        n = 1
        for d in v.shape:
            n = T.mul(n, d)
        if E.branch(T.eq(n, 1)):
            return E.branch(T.truth(v.get(tuple([0] * v.ndim))))
        E.fail("ValueError", "truth value of an array is ambiguous")
    if isinstance(v, RangeV):
        return E.branch(T.gt(range_len(E, v), 0))
    if isinstance(v, SymStr):
        if any(isinstance(p, str) and p for p in v.parts):
            return True
        return E.choose([True, False])
    if isinstance(v, Opaque):
        return E.choose([True, False])
    if hasattr(v, "py_truth"):
        return v.py_truth(E)
    return True


OPS = {"Add": T.add, "Sub": T.sub, "Mult": T.mul}
DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "FloorDiv": "__floordiv__", "Mod": "__mod__", "Pow": "__pow__", "MatMult": "__matmul__", "BitAnd": "__and__", "BitOr": "__or__", "BitXor": "__xor__", "LShift": "__lshift__", "RShift": "__rshift__"}


def binop(E, op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, Obj) or (isinstance(b, Obj) and not isinstance(a, Arr)):
            pass
        elif isinstance(b, Obj):
            # ndarray op object: numpy would try an object array; not modelled
            raise Unsupported("array op object")
        else:
            return E.np.binop(E, op, a, b)
    if isinstance(a, Obj):
        m, _ = a.cls.lookup(DUNDER[op])
        if m is not MISSING:
            return E.call(BoundM(a, m), [b], {})
        E.fail("TypeError", "unsupported operand")
    if isinstance(b, Obj):
        m, _ = b.cls.lookup("__r" + DUNDER[op][2:])
        if m is not MISSING:
            return E.call(BoundM(b, m), [a], {})
        E.fail("TypeError", "unsupported operand")
    if T.is_num(a) and T.is_num(b):
        return num_binop(E, op, a, b)
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and op == "Add":
        return str_concat([a, b])
    if op == "Div" and (hasattr(a, "py_truediv") or hasattr(b, "py_truediv")):
        return (a if hasattr(a, "py_truediv") else b).py_truediv(E, a, b)
    if isinstance(a, str) and op == "Mod":
        return SymStr([("pct", a, id(b))])
    if isinstance(a, str) and isinstance(b, int) and op == "Mult":
        return a * b
    if isinstance(b, str) and isinstance(a, int) and op == "Mult":
        return b * a
    if isinstance(a, PList) and isinstance(b, PList) and op == "Add":
        if isinstance(a.items, SymSeq) or isinstance(b.items, SymSeq):
            return PList(seq_concat(to_seq(E, a), to_seq(E, b)))
        return PList(a.items + b.items)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (PList, tuple)) and T.is_num(y):
                if isinstance(x, tuple) and not T.is_t(y):
                    return x * y
                if isinstance(x, PList) and not isinstance(x.items, SymSeq):
                    if T.is_t(y) and not T.is_t(T.conc(y)):
                        items = list(x.items)
                        if len(items) == 1:
                            return PList(SymSeq(T.max_(y, 0), lambda k: items[0]))
                        raise Unsupported("list * symbolic")
                    if isinstance(y, Fraction):
                        E.fail("TypeError", "can't multiply sequence by non-int")
                    return PList(x.items * y)
    if isinstance(a, bytes) and isinstance(b, bytes) and op == "Add":
        return a + b
    if isinstance(a, PSet) and isinstance(b, PSet):
        ka, kb = list(a.d), list(b.d)
        if op == "Sub":
            return PSet([k for k in ka if k not in b.d])
        if op == "BitOr":
            return PSet(ka + kb)
        if op == "BitAnd":
            return PSet([k for k in ka if k in b.d])
    if isinstance(a, PDict) and isinstance(b, PDict) and op == "BitOr":
        d = PDict(a.d)
        d.d.update(b.d)
        return d
    if isinstance(a, TypeV) or isinstance(b, TypeV) or isinstance(a, ClassV) or isinstance(b, ClassV):
        if op == "BitOr":
            return Opaque("union type")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("(%s)" % op)
    for x in (a, b):
        if hasattr(x, "py_binop"):
            r = x.py_binop(E, op, a, b)
            if r is not NotImplemented:
                return r
    E.fail("TypeError", "unsupported operand type(s) for %s" % op)


def num_binop(E, op, a, b):
    f = OPS.get(op)
    if f is not None:
        if E.njit and E.np.unsigned_mix(a, b):
            pass
        return f(a, b)
    if op in ("Div", "FloorDiv", "Mod"):
        z = T.eq(b, 0)
        if E.branch(z):
            try:
                E.fail("ZeroDivisionError", "division by zero")
            except PyRaise as e:
                e.numpy = not E.njit and T.is_t(a) and T.sortof(a) == "r"     # a numpy number would give inf
                raise
        if op == "Div":
            return T.div(a, b)
        if op == "FloorDiv":
            return T.idiv(a, b)
        return T.mod(a, b)
    if op == "Pow":
        if T.is_conc(b) and b < 0:
            if E.branch(T.eq(a, 0)):
                E.fail("ZeroDivisionError", "0 to a negative power")
        return T.power(a, b)
    sa, sb = T.sortof(a), T.sortof(b)
    if sa == "b" and sb == "b" and op in ("BitAnd", "BitOr", "BitXor"):
        return T.and_(a, b) if op == "BitAnd" else T.or_(a, b) if op == "BitOr" else T.ne(a, b)
    if sa == "r" or sb == "r":
        E.fail("TypeError", "bit operation on float")
    a, b = T.toint_num(a), T.toint_num(b)
    if not T.is_t(a) and not T.is_t(b):
        if op in ("LShift", "RShift") and b < 0:
            E.fail("ValueError", "negative shift count")
        return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
    if op == "LShift" and not T.is_t(b):
        return T.mul(a, 1 << b)
    if op == "RShift" and not T.is_t(b):
        return T.idiv(a, 1 << b)
    if op == "BitAnd":
        for x, m in ((a, b), (b, a)):
            if not T.is_t(m) and m >= 0 and (m & (m + 1)) == 0:
                return T.mod(x, m + 1)
            if not T.is_t(m) and m > 0:
                # contiguous mask ((1<<w)-1)<<s
                s = (m & -m).bit_length() - 1
                mm = m >> s
                if (mm & (mm + 1)) == 0:
                    return T.mul(T.mod(T.idiv(x, 1 << s), mm + 1), 1 << s)
    if op == "BitOr":
        # disjoint ranges: a < 2^k and b multiple of 2^k
        for x, y in ((a, b), (b, a)):
            for k in (1, 2, 3, 4, 8, 12, 16):
                if E.entails(T.and_(T.ge(x, 0), T.lt(x, 1 << k), T.eq(T.mod(y, 1 << k), 0), T.ge(y, 0))):
                    return T.add(x, y)
    raise Unsupported("bit operation " + op)


def compare(E, op, a, b):
    if op == "Is" or op == "IsNot":
        r = is_same(E, a, b)
        return r if op == "Is" else T.not_(r)
    if op in ("In", "NotIn"):
        r = contains(E, b, a)
        return r if op == "In" else E.not_(r)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, (str,)) or isinstance(b, (str,)):
            if op == "Eq":
                return False
            if op == "NotEq":
                return True
        return E.np.compare(E, op, a, b)
    if T.is_num(a) and T.is_num(b):
        return {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": T.gt, "GtE": T.ge}[op](a, b)
    if op in ("Eq", "NotEq"):
        r = py_eq(E, a, b)
        return r if op == "Eq" else T.not_(r)
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PList) and isinstance(b, PList):
        x, y = to_list(E, a), to_list(E, b)
        for p, q in zip(x, y):
            if not E.branch(py_eq(E, p, q)):
                return compare(E, op, p, q)
        return {"Lt": len(x) < len(y), "LtE": len(x) <= len(y), "Gt": len(x) > len(y), "GtE": len(x) >= len(y)}[op]
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return E.fresh("opq", T.Bo)
    if hasattr(a, "py_cmp"):
        return a.py_cmp(E, op, b)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        raise Unsupported("order of unknown strings")
    E.fail("TypeError", "'%s' not supported" % op)


def is_same(E, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        if T.is_t(a) or T.is_t(b):
            if T.is_num(a) and T.is_num(b) and T.sortof(a) == "b" and T.sortof(b) == "b":
                return T.eq(a, b)
            return False
        return a is b
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a is b
    if T.is_num(a) and T.is_num(b):
        if not T.is_t(a) and not T.is_t(b):
            return type(a) is type(b) and a == b
        return T.eq(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return a is b


def py_eq(E, a, b):
    a, b = E.unbox(a), E.unbox(b)
    if a is b:
        return True
    if T.is_num(a) and T.is_num(b):
        return T.eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) or (isinstance(a, PList) and isinstance(b, PList)):
        if (isinstance(a, PList) and isinstance(a.items, SymSeq)) or (isinstance(b, PList) and isinstance(b.items, SymSeq)):
            raise Unsupported("equality of symbolic lists")
        x = a if isinstance(a, tuple) else a.items
        y = b if isinstance(b, tuple) else b.items
        if len(x) != len(y):
            return False
        return T.and_(*[py_eq(E, p, q) for p, q in zip(x, y)])
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if a == b:
            return True
        return str_eq(E, a, b)
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b
    if hasattr(a, "py_eq"):
        return a.py_eq(E, b)
    if hasattr(b, "py_eq"):
        return b.py_eq(E, a)
    if isinstance(a, Obj):
        m, _ = a.cls.lookup("__eq__")
        if m is not MISSING:
            return E.call(BoundM(a, m), [b], {})
        return False
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(a.d) != set(b.d):
            return False
        return T.and_(*[py_eq(E, a.d[k], b.d[k]) for k in a.d])
    if isinstance(a, PSet) and isinstance(b, PSet):
        return set(a.d) == set(b.d)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return E.fresh("opq", T.Bo)
    if isinstance(a, Arr) or isinstance(b, Arr):
        r = E.np.compare(E, "Eq", a, b)
        return truth(E, r)
    return False


def str_eq(E, a, b):
    pa = a.parts if isinstance(a, SymStr) else (a,)
    pb = b.parts if isinstance(b, SymStr) else (b,)
    raise Unsupported("equality of unknown strings %r %r" % (pa, pb))


def contains(E, c, x):
    if isinstance(c, (PDict, PSet)):
        k = hkey(E, x)
        if T.is_t(k):
            return T.or_(*[T.eq(k, q) for q in c.d if T.is_num(q)])
        if k in c.d:
            return True
        ts = [q for q in c.d if T.is_t(q)]
        if ts and T.is_num(k):
            return T.or_(*[T.eq(k, q) for q in ts])
        return False
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        raise Unsupported("in str")
    if isinstance(c, (tuple, PList)):
        items = to_list(E, c)
        rs = []
        for y in items:
            r = py_eq(E, x, y)
            if r is True:
                return True
            if r is not False:
                rs.append(r)
        return T.or_(*rs)
    if isinstance(c, SymStr):
        if isinstance(x, str):
            if any(isinstance(p, str) and x in p for p in c.parts):
                return True
            return str_contains(E, c, x)
    if hasattr(c, "py_contains"):
        return c.py_contains(E, x)
    if isinstance(c, Obj):
        m, _ = c.cls.lookup("__contains__")
        if m is not MISSING:
            return E.call(BoundM(c, m), [x], {})
    if isinstance(c, RangeV):
        if T.is_num(x):
            n = range_len(E, c)
            k = T.idiv(T.sub(x, c.start), c.step)
            return T.and_(T.ge(k, 0), T.lt(k, n), T.eq(T.add(c.start, T.mul(k, c.step)), x))
    if isinstance(c, Arr):
        raise Unsupported("in array")
    E.fail("TypeError", "argument is not iterable")


def str_contains(E, c, x):
    for p in c.parts:
        if isinstance(p, tuple) and hasattr(p[-1], "substr"):
            r = p[-1].substr(E, x)
            if r is not None:
                return r
    raise Unsupported("substring of unknown string")


# ------------------------------------------------------------------ sequences
def range_len(E, r):
    st, sp, step = r.start, r.stop, r.step
    if T.is_t(step):
        if E.entails(T.gt(step, 0)):
            n = T.idiv(T.sub(T.add(T.sub(sp, st), step), 1), step)
        elif E.entails(T.lt(step, 0)):
            raise Unsupported("negative symbolic step")
        else:
            if E.branch(T.eq(step, 0)):
                E.fail("ValueError", "range() arg 3 must not be zero")
            if E.branch(T.gt(step, 0)):
                return range_len(E, r)
            raise Unsupported("negative symbolic step")
    else:
        if step == 0:
            E.fail("ValueError", "range() arg 3 must not be zero")
        if step > 0:
            n = T.idiv(T.add(T.sub(sp, st), step - 1), step)
        else:
            n = T.idiv(T.add(T.sub(st, sp), -step - 1), -step)
    n = T.conc(n)
    if not T.is_t(n):
        return max(0, n)
    up = T.le(st, sp) if (T.is_t(step) or step > 0) else T.ge(st, sp)
    if E.entails(up):
        return n
    if E.entails(T.not_(up)):
        return 0
    return T.max_(n, 0)


def to_seq(E, v):
    """SymSeq view of a list-like (items read at call time for arrays)"""
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, PList):
        if isinstance(v.items, SymSeq):
            return v.items
        v = v.items
    if isinstance(v, (list, tuple)):
        items = list(v)

        def it(k):
            k = T.conc(k)
            if not T.is_t(k):
                return items[k]
            if all(T.is_num(x) for x in items) and items:
                r = items[-1]
                for i in range(len(items) - 2, -1, -1):
                    r = T.ite(T.eq(k, i), items[i], r)
                return r
            raise Unsupported("symbolic index into a list of objects")
        return SymSeq(len(items), it)
    if isinstance(v, RangeV):
        n = range_len(E, v)
        return SymSeq(n, lambda k: T.add(v.start, T.mul(k, v.step)))
    if isinstance(v, Arr):
        if v.ndim == 0:
            E.fail("TypeError", "iteration over a 0-d array")
        return SymSeq(v.shape[0], lambda k: E.np.getitem_raw(E, v, (k,)))
    if isinstance(v, IterV):
        return to_seq(E, v.items)
    if hasattr(v, "py_seq"):
        return v.py_seq(E)
    if isinstance(v, bytes):
        return SymSeq(len(v), lambda k: v[k])
    raise Unsupported("sequence of %r" % (v,))


def seq_concat(a, b):
    def it(k):
        k = T.conc(k)
        if not T.is_t(k) and not T.is_t(a.n):
            return a.item(k) if k < a.n else b.item(k - a.n)
        x, y = a.item(k), b.item(T.sub(k, a.n))
        return merge_vals(T.lt(k, a.n), x, y)
    return SymSeq(T.add(a.n, b.n), it)


def merge_vals(c, x, y):
    c = T.conc(c)
    if c is True:
        return x
    if c is False:
        return y
    if x is y:
        return x
    if T.is_num(x) and T.is_num(y):
        return T.ite(c, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(merge_vals(c, p, q) for p, q in zip(x, y))
    if x is None and y is None:
        return None
    if isinstance(x, str) and x == y:
        return x
    if isinstance(x, Arr) and isinstance(y, Arr) and len(x.shape) == len(y.shape) and all(S_same(a, b) for a, b in zip(x.shape, y.shape)):
        rx, ry = x.reader(), y.reader()
        dt = promote(x.dtype, y.dtype)
        return new_arr(x.shape, dt, lambda idx: T.ite(c, cast(rx(idx), x.dtype, dt), cast(ry(idx), y.dtype, dt)))
    raise Unsupported("merge of %r and %r" % (type(x), type(y)))


def S_same(a, b):
    if T.is_t(a) and T.is_t(b):
        return a.eq(b)
    return not T.is_t(a) and not T.is_t(b) and a == b


def conc_items(E, v):
    """list of items if the length is concrete, else None"""
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, PList):
        if isinstance(v.items, SymSeq):
            n = T.conc(v.items.n)
            if T.is_t(n):
                return None
            return [v.items.item(k) for k in range(n)]
        return list(v.items)
    if isinstance(v, (PDict, PSet)):
        return list(v.d.keys())
    if isinstance(v, str):
        return list(v)
    if isinstance(v, bytes):
        return list(v)
    if isinstance(v, IterV):
        p = v.d["pos"]
        if isinstance(v.items, SymSeq):
            n = T.conc(v.items.n)
            if T.is_t(n):
                return None
            return [v.items.item(k) for k in range(p, n)]
        return v.items[p:]
    if isinstance(v, RangeV):
        n = range_len(E, v)
        if T.is_t(n):
            return None
        return [T.add(v.start, T.mul(k, v.step)) for k in range(n)]
    if isinstance(v, Arr):
        if v.ndim == 0:
            E.fail("TypeError", "iteration over a 0-d array")
        n = T.conc(v.shape[0])
        if T.is_t(n):
            n2 = E.np.fix_dim(E, v.shape[0])
            if n2 is None:
                return None
            n = n2
        return [E.np.getitem_raw(E, v, (k,)) for k in range(n)]
    if isinstance(v, SymSeq):
        n = T.conc(v.n)
        if T.is_t(n):
            return None
        return [v.item(k) for k in range(n)]
    if hasattr(v, "py_items"):
        return v.py_items(E)
    if isinstance(v, Opaque):
        raise Unsupported("iteration over " + v.name)
    if isinstance(v, Obj):
        m, _ = v.cls.lookup("__iter__")
        if m is not MISSING:
            return conc_items(E, E.call(BoundM(v, m), [], {}))
    if isinstance(v, SymStr) or hasattr(v, "py_seq"):
        return None
    E.fail("TypeError", "object is not iterable")


def to_list(E, v):
    r = conc_items(E, v)
    if r is None:
        raise Unsupported("symbolic length where a concrete one is needed")
    return r


def unpack(E, v, n):
    if isinstance(v, Opaque):
        return [Opaque(v.name + "[]") for _ in range(n)]
    if isinstance(v, Arr):
        if v.ndim == 0:
            E.fail("TypeError", "cannot unpack")
        if not E.branch(T.eq(v.shape[0], n)):
            E.fail("ValueError", "unpack")
        return [E.np.getitem_raw(E, v, (k,)) for k in range(n)]
    s = v.items if isinstance(v, PList) else v
    if isinstance(s, SymSeq):
        if not E.branch(T.eq(s.n, n)):
            E.fail("ValueError", "unpack")
        return [s.item(k) for k in range(n)]
    items = conc_items(E, v)
    if items is None:
        raise Unsupported("unpack of symbolic")
    if len(items) != n:
        E.fail("ValueError", "unpack %d into %d" % (len(items), n))
    return items


def norm_index(E, i, n, what="index"):
    """index with wraparound and bounds check; raises IndexError / obliges in njit"""
    i = E.unbox(i)
    if T.sortof(i) == "r":
        E.fail("IndexError" if not E.njit else "TypeError", "only integers are valid indices")
    i = T.toint_num(i)
    if not T.is_t(i) and not T.is_t(n):
        j = i + n if i < 0 else i
        if j < 0 or j >= n:
            if E.njit:
                E.oblige(False, "in-bounds " + what)
            E.fail("IndexError", "index %d out of range %d" % (i, n))
        return j
    if not T.is_t(i):
        j = T.add(i, n) if i < 0 else i
        if not T.is_t(j) or i < 0:
            ok = T.and_(T.ge(j, 0), T.lt(j, n))
            if E.njit:
                E.oblige(ok, "in-bounds " + what)
            elif not E.branch(ok):
                E.fail("IndexError", "index out of range")
            return j
    # symbolic index
    if E.feasible(T.lt(i, 0)):
        if not E.entails(T.ge(i, 0)):
            if E.branch(T.lt(i, 0)):
                i = T.add(i, n)
    ok = T.and_(T.ge(i, 0), T.lt(i, n))
    if E.njit:
        E.oblige(ok, "in-bounds " + what)
        return i
    if E.entails(ok):
        return i
    if not E.branch(ok):
        E.fail("IndexError", "index out of range")
    return i


def norm_slice(E, s, n):
    """-> (start, count, step) terms"""
    step = s.step if s.step is not None else 1
    step = E.unbox(step)
    if T.is_t(step):
        raise Unsupported("symbolic slice step")
    if not isinstance(step, int):
        E.fail("TypeError", "slice step")
    if step == 0:
        E.fail("ValueError", "slice step cannot be zero")

    def clip(x, lo, hi):
        x = E.unbox(x)
        if T.sortof(x) == "r":
            E.fail("TypeError", "slice indices must be integers")
        x = T.toint_num(x)
        if T.is_t(x):
            if E.entails(T.ge(x, 0)):
                pass
            elif E.branch(T.lt(x, 0)):
                x = T.add(x, n)
        elif x < 0:
            x = T.add(x, n)
        if T.is_t(x) or T.is_t(lo) or T.is_t(hi):
            if not E.entails(T.ge(x, lo)):
                x = T.max_(x, lo)
            if not E.entails(T.le(x, hi)):
                x = T.min_(x, hi)
            return x
        return max(lo, min(hi, x))
    if step > 0:
        a = 0 if s.start is None else clip(s.start, 0, n)
        b = n if s.stop is None else clip(s.stop, 0, n)
        c = T.sub(b, a) if step == 1 else T.idiv(T.add(T.sub(b, a), step - 1), step)
    else:
        n1 = T.sub(n, 1)
        a = n1 if s.start is None else clip(s.start, -1, n1)
        b = -1 if s.stop is None else clip(s.stop, -1, n1)
        c = T.sub(a, b) if step == -1 else T.idiv(T.add(T.sub(a, b), -step - 1), -step)
    if T.is_t(c):
        c = const_poly(c)
    if T.is_t(c):
        if not E.entails(T.ge(c, 0)):
            c = T.max_(c, 0)
    else:
        c = max(0, c)
    return a, T.conc(c), step


def const_poly(c):
    """c as a number where its variables cancel"""
    from . import solver as S
    try:
        m = S.glin().poly(c).m
    except S.Budget:
        return c
    if all(not k for k in m):
        v = sum(m.values())
        if v == int(v):
            return int(v)
    return c


def getitem(E, o, k):
    if isinstance(o, Arr):
        return E.np.getitem(E, o, k)
    k = E.unbox(k) if not isinstance(k, (slice, tuple)) else k
    if isinstance(o, (PList, tuple, str, bytes, SymSeq)):
        seq = o.items if isinstance(o, PList) else o
        if isinstance(seq, SymSeq):
            if isinstance(k, slice):
                a, c, st = norm_slice(E, k, seq.n)
                r = SymSeq(c, lambda j: seq.item(T.add(a, T.mul(st, j))))
                if not T.is_t(c):
                    return PList([r.item(j) for j in range(c)]) if isinstance(o, PList) else r
                return PList(r) if isinstance(o, PList) else r
            if not T.is_num(k):
                E.fail("TypeError", "list indices must be integers")
            i = norm_index(E, k, seq.n)
            return seq.item(i)
        if isinstance(k, slice):
            if any(T.is_t(x) for x in (k.start, k.stop, k.step) if x is not None):
                ks = [T.conc(x) if x is not None else None for x in (k.start, k.stop, k.step)]
                if any(T.is_t(x) for x in ks):
                    if isinstance(o, (PList, tuple)):
                        q = to_seq(E, o)
                        a, c, st = norm_slice(E, k, q.n)
                        return PList(SymSeq(c, lambda j: q.item(T.add(a, T.mul(st, j)))))
                    raise Unsupported("symbolic slice")
                k = slice(*ks)
            if any(isinstance(x, Fraction) for x in (k.start, k.stop, k.step)):
                E.fail("TypeError", "slice indices must be integers")
            r = seq[k]
            return PList(r) if isinstance(o, PList) else r
        if not T.is_num(k):
            E.fail("TypeError", "indices must be integers")
        if T.sortof(k) == "r":
            E.fail("TypeError", "indices must be integers")
        i = norm_index(E, k, len(seq))
        if T.is_t(i):
            items = list(seq)
            if all(T.is_num(x) for x in items):
                return to_seq(E, items).item(i)
            # select the object by case distinction
            for j in range(len(items) - 1):
                if E.branch(T.eq(i, j)):
                    return items[j]
            return items[-1]
        return seq[i]
    if isinstance(o, PDict):
        kk = hkey(E, k)
        if o.hook:
            return o.hook.getitem(E, o, kk)
        if T.is_t(kk):
            for q in list(o.d):
                if T.is_num(q) and E.branch(T.eq(kk, q)):
                    return o.d[q]
            E.fail("KeyError", kk)
        v = o.d.get(kk, MISSING)
        if v is MISSING:
            if T.is_num(kk):
                for q in list(o.d):
                    if T.is_t(q) and E.branch(T.eq(kk, q)):
                        return o.d[q]
            E.fail("KeyError", kk)
        return v
    if hasattr(o, "py_getitem"):
        return o.py_getitem(E, k)
    if isinstance(o, Obj):
        m, _ = o.cls.lookup("__getitem__")
        if m is not MISSING:
            return E.call(BoundM(o, m), [k], {})
    if isinstance(o, (TypeV, ClassV)):
        return o
    if isinstance(o, Opaque):
        return Opaque(o.name + "[]")
    if isinstance(o, SymStr):
        raise Unsupported("index of unknown string")
    E.fail("TypeError", "object is not subscriptable")


def setitem(E, o, k, v):
    if isinstance(o, Arr):
        return E.np.setitem(E, o, k, v)
    if isinstance(o, PList):
        if isinstance(k, slice):
            if isinstance(o.items, SymSeq):
                raise Unsupported("slice assignment to symbolic list")
            items = list(o.items)
            items[k] = to_list(E, v)
            o.mutate(items)
            return
        k = E.unbox(k)
        if not T.is_num(k) or T.sortof(k) == "r":
            E.fail("TypeError", "list indices must be integers")
        if isinstance(o.items, SymSeq):
            seq = o.items
            i = norm_index(E, k, seq.n)

            def it(j, i=i, seq=seq, v=v):
                c = T.conc(T.eq(j, i))
                if c is True:
                    return v
                if c is False:
                    return seq.item(j)
                return merge_vals(c, v, seq.item(j))
            o.mutate(SymSeq(seq.n, it))
            return
        i = norm_index(E, k, len(o.items))
        items = list(o.items)
        if T.is_t(i):
            for j in range(len(items)):
                items[j] = merge_vals(T.eq(i, j), v, items[j])
        else:
            items[i] = v
        o.mutate(items)
        return
    if isinstance(o, PDict):
        kk = hkey(E, k)
        if o.hook:
            o.hook.setitem(E, o, kk, v)
            return
        if T.is_t(kk):
            for q in list(o.d):
                if T.is_num(q) and E.branch(T.eq(kk, q)):
                    o.set(q, v)
                    return
        o.set(kk, v)
        return
    if hasattr(o, "py_setitem"):
        return o.py_setitem(E, k, v)
    if isinstance(o, Obj):
        m, _ = o.cls.lookup("__setitem__")
        if m is not MISSING:
            return E.call(BoundM(o, m), [k, v], {})
    if isinstance(o, Opaque):
        return
    E.fail("TypeError", "object does not support item assignment")


def delitem(E, o, k):
    if isinstance(o, PList) and not isinstance(o.items, SymSeq):
        items = list(o.items)
        if isinstance(k, slice):
            del items[k]
        else:
            i = norm_index(E, k, len(items))
            if T.is_t(i):
                raise Unsupported("del")
            del items[i]
        o.mutate(items)
        return
    if isinstance(o, PDict):
        kk = hkey(E, k)
        if kk not in o.d:
            E.fail("KeyError", kk)
        o.delete(kk)
        return
    raise Unsupported("del item")


def enter(E, cm):
    if hasattr(cm, "py_enter"):
        return cm.py_enter(E)
    if isinstance(cm, Opaque):
        return cm
    if isinstance(cm, Obj):
        return E.call_method(cm, "__enter__", [])
    raise Unsupported("with %r" % (cm,))


def leave(E, cm):
    if hasattr(cm, "py_exit"):
        cm.py_exit(E)
    elif isinstance(cm, Obj):
        E.call_method(cm, "__exit__", [None, None, None])


# ------------------------------------------------------------------ attributes
def make_super(E, env):
    e = env
    while e is not None and "$func" not in e.d:
        e = e.parent
    f = e.d["$func"]
    owner = getattr(f, "ownercls", None)
    slf = e.d[f.node.args.args[0].arg]
    return SuperV(owner, slf)


class SuperV:
    def __init__(self, owner, slf):
        self.owner, self.slf = owner, slf


def getattr_(E, o, k):
    if isinstance(o, Obj):
        v, own = o.cls.lookup(k)
        if isinstance(v, PropV):
            return E.call(BoundM(o, v.fget), [], {})
        if k in o.d:
            r = o.d[k]
            if type(r).__name__ == "Dead":
                from .interp import DeadRead
                raise DeadRead(r, "attribute carried out of a loop: " + k)
            return r
        if k == "__class__":
            return o.cls
        if k == "__dict__":
            raise Unsupported("__dict__")
        if v is not MISSING:
            return bind(o, v)
        ga, _ = o.cls.lookup("__getattr__")
        if ga is not MISSING:
            return E.call(BoundM(o, ga), [k], {})
        E.fail("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, k))
    if isinstance(o, ModuleV):
        v = o.env.d.get(k, MISSING)
        if v is MISSING:
            if o.name.split(".")[0] in E.extmods:
                raise Unsupported("%s.%s" % (o.name, k))
            E.fail("AttributeError", "module %s has no attribute %s" % (o.name, k))
        return v
    if isinstance(o, SuperV):
        for c in (o.owner.bases if o.owner else []):
            v, own = c.lookup(k)
            if v is not MISSING:
                if isinstance(v, PropV):
                    return E.call(BoundM(o.slf, v.fget), [], {})
                return bind(o.slf, v)
        if k == "__init__":
            return Builtin("object.__init__", lambda E, a, kw: None)
        E.fail("AttributeError", k)
    if isinstance(o, ClassV):
        v, own = o.lookup(k)
        if v is MISSING:
            if k in ("__name__", "__qualname__"):
                return o.name
            E.fail("AttributeError", "type object '%s' has no attribute '%s'" % (o.name, k))
        if isinstance(v, StaticV):
            return BoundM(o, v.f) if v.cls else v.f
        return v
    if isinstance(o, Arr):
        return E.np.attr(E, o, k)
    if hasattr(o, "py_getattr"):
        return o.py_getattr(E, k)
    if isinstance(o, PropV) and k in ("setter", "getter", "deleter"):
        return BoundM(o, k)
    if isinstance(o, FuncV):
        if k == "__name__":
            return o.name
        if k == "__wrapped__" and o.cached:
            return o
        if k in ("cache_clear",) and o.cached:
            def clr(E, a, kw):
                for q in list(o.cache.d):
                    o.cache.delete(q)
            return Builtin("cache_clear", clr)
        if k == "py_func":
            return o
        if k == "__doc__":
            return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
        if k in o.attrs:
            return o.attrs[k]
        E.fail("AttributeError", k)
    if isinstance(o, TypeV):
        if k in o.attrs:
            return o.attrs[k]
        if k == "__name__":
            return o.name
        E.fail("AttributeError", k)
    if isinstance(o, Opaque):
        return E.lib.opaque_attr(E, o, k)
    if isinstance(o, ExcV):
        if k == "args":
            return tuple(o.args)
        return Opaque("exc." + k)
    if isinstance(o, slice):
        return {"start": o.start, "stop": o.stop, "step": o.step}[k]
    m = METHODS.get(type(o), {}).get(k)
    if m is not None:
        return BoundM(o, m)
    if T.is_num(o):
        if k == "real":
            return o
        if k in ("item",):
            return Builtin("item", lambda E, a, kw: o)
        if k == "is_integer":
            return Builtin("is_integer", lambda E, a, kw: T.eq(T.toreal(T.floor(o)), T.toreal(o)))
        if k == "astype":
            return Builtin("astype", lambda E, a, kw: E.np.cast_scalar(E, o, a[0]))
        if k in ("shape",) and T.is_t(o):
            return ()
        if k in ("copy",):
            return Builtin("copy", lambda E, a, kw: o)
        if k == "dtype":
            return E.np.DType("f8" if T.sortof(o) == "r" else "b1" if T.sortof(o) == "b" else "i8")
        if k == "ndim":
            return 0
    if T.is_num(o) or type(o).__name__ not in KNOWN_TYPES or hasattr(KNOWN_TYPES[type(o).__name__], k):
        raise Unsupported("%s.%s" % (tname(o), k))
    E.fail("AttributeError", "%s has no attribute %s" % (tname(o), k))


KNOWN_TYPES = {"PList": list, "PDict": dict, "PSet": set, "str": str, "SymStr": str, "tuple": tuple, "NoneType": type(None)}


def tname(o):
    return {PList: "list", PDict: "dict", PSet: "set", str: "str", SymStr: "str", tuple: "tuple", int: "int", Fraction: "float", bool: "bool", type(None): "NoneType"}.get(type(o), type(o).__name__)


def bind(o, v):
    if isinstance(v, (FuncV,)):
        return BoundM(o, v)
    if isinstance(v, StaticV):
        return BoundM(o.cls, v.f) if v.cls else v.f
    if isinstance(v, Builtin):
        return v
    return v


def setattr_(E, o, k, v):
    if isinstance(o, Obj):
        p, own = o.cls.lookup(k)
        if isinstance(p, PropV):
            if p.fset is None:
                E.fail("AttributeError", "can't set attribute " + k)
            E.call(BoundM(o, p.fset), [v], {})
            return
        o.set(k, v)
        return
    if isinstance(o, ClassV):
        o.set(k, v)
        return
    if isinstance(o, ModuleV):
        o.env.set(k, v)
        return
    if isinstance(o, Opaque):
        return
    if hasattr(o, "py_setattr"):
        o.py_setattr(E, k, v)
        return
    if isinstance(o, FuncV):
        o.attrs[k] = v
        return
    if isinstance(o, Arr):
        return E.np.setattr(E, o, k, v)
    E.fail("AttributeError", k)


# ------------------------------------------------------------------ methods
def _m(fn):
    return fn


def list_append(E, o, a, kw):
    if isinstance(o.items, SymSeq):
        seq = o.items
        v = a[0]

        def it(j, seq=seq, v=v):
            c = T.conc(T.eq(j, seq.n))
            if c is True:
                return v
            if c is False:
                return seq.item(j)
            return merge_vals(c, v, seq.item(j))
        q = SymSeq(T.add(seq.n, 1), it)
        q.appended = (seq, v)
        o.mutate(q)
        return None
    o.mutate(o.items + [a[0]])


def list_extend(E, o, a, kw):
    items = conc_items(E, a[0])
    if items is None or isinstance(o.items, SymSeq):
        o.mutate(seq_concat(to_seq(E, o), to_seq(E, a[0])))
        return None
    o.mutate(o.items + items)


def list_index(E, o, a, kw):
    for i, x in enumerate(to_list(E, o)):
        if E.branch(py_eq(E, x, a[0])):
            return i
    E.fail("ValueError", "not in list")


def list_sort(E, o, a, kw):
    o.mutate(py_sorted(E, o, kw).items)


def list_pop(E, o, a, kw):
    items = list(o.items) if not isinstance(o.items, SymSeq) else None
    if items is None:
        if a:
            raise Unsupported("pop")
        seq = o.items
        if not E.branch(T.gt(seq.n, 0)):
            E.fail("IndexError", "pop from empty list")
        r = seq.item(T.sub(seq.n, 1))
        o.mutate(SymSeq(T.sub(seq.n, 1), seq.item))
        return r
    if not items:
        E.fail("IndexError", "pop from empty list")
    i = norm_index(E, a[0], len(items)) if a else len(items) - 1
    r = items.pop(i)
    o.mutate(items)
    return r


def py_sorted(E, v, kw):
    items = to_list(E, v)
    key = kw.get("key")
    rev = kw.get("reverse", False)
    ks = [E.call(key, [x], {}) if key is not None else x for x in items]
    n = len(items)

    def conc_key(k):
        k = E.unbox(k)
        if isinstance(k, (str, int, Fraction)):
            return True
        if isinstance(k, tuple):
            return all(conc_key(x) for x in k)
        return False
    if all(conc_key(k) for k in ks):
        order = sorted(range(n), key=lambda i: _unb(E, ks[i]), reverse=truth(E, rev))
        return PList([items[i] for i in order])
    # insertion sort by symbolic comparison (stable)
    out = []
    for i in range(n):
        j = len(out)
        while j > 0 and lex_less(E, ks[i], ks[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    if truth(E, rev):
        out.reverse()
    return PList([items[i] for i in out])


def _unb(E, k):
    if isinstance(k, tuple):
        return tuple(_unb(E, x) for x in k)
    return E.unbox(k)


def lex_less(E, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if truth(E, compare(E, "Lt", x, y)):
                return True
            if not truth(E, py_eq(E, x, y)):
                return False
        return len(a) < len(b)
    return truth(E, compare(E, "Lt", a, b))


def _list_insert(E, o, a, kw):
    items = list(to_list(E, o))
    if T.is_t(a[0]):
        raise Unsupported("insert")
    items.insert(a[0], a[1])
    o.mutate(items)


def _list_remove(E, o, a, kw):
    i = list_index(E, o, a, kw)
    items = list(o.items)
    del items[i]
    o.mutate(items)


LIST = {
    "append": list_append, "extend": list_extend, "index": list_index, "sort": list_sort, "pop": list_pop,
    "copy": lambda E, o, a, kw: PList(o.items),
    "reverse": lambda E, o, a, kw: o.mutate(list(reversed(to_list(E, o)))),
    "insert": _list_insert, "remove": _list_remove,
    "clear": lambda E, o, a, kw: o.mutate([]),
    "count": lambda E, o, a, kw: _count(E, o, a[0]),
}


def _count(E, o, x):
    r = 0
    for y in to_list(E, o):
        r = T.add(r, T.ite(py_eq(E, x, y), 1, 0))
    return r


def dict_get(E, o, a, kw):
    kk = hkey(E, a[0])
    if o.hook or T.is_t(kk) or any(T.is_t(q) for q in o.d):
        c = contains(E, o, a[0]) if not o.hook else o.hook.contains(E, o, kk)
        if truth(E, c):
            return getitem(E, o, a[0])
        return a[1] if len(a) > 1 else None
    v = o.d.get(kk, MISSING)
    return (a[1] if len(a) > 1 else None) if v is MISSING else v


def dict_update(E, o, a, kw):
    if a:
        src = a[0]
        if isinstance(src, PDict):
            for k, v in list(src.d.items()):
                o.set(k, v)
        else:
            for p in to_list(E, src):
                k, v = unpack(E, p, 2)
                o.set(hkey(E, k), v)
    for k, v in kw.items():
        o.set(k, v)


def dict_pop(E, o, a, kw):
    kk = hkey(E, a[0])
    if kk in o.d:
        v = o.d[kk]
        o.delete(kk)
        return v
    if len(a) > 1:
        return a[1]
    E.fail("KeyError", kk)


def _setdefault(E, o, a, kw):
    kk = hkey(E, a[0])
    if kk in o.d:
        return o.d[kk]
    o.set(kk, a[1] if len(a) > 1 else None)
    return o.d[kk]


DICT = {
    "get": dict_get, "keys": lambda E, o, a, kw: PList(list(o.d.keys())), "values": lambda E, o, a, kw: PList(list(o.d.values())),
    "items": lambda E, o, a, kw: PList([(k, v) for k, v in o.d.items()]), "copy": lambda E, o, a, kw: _dcopy(o),
    "update": dict_update, "pop": dict_pop, "setdefault": _setdefault,
}


def _dcopy(o):
    d = PDict(o.d)
    d.hook = o.hook
    return d


SET = {
    "add": lambda E, o, a, kw: o.set(hkey(E, a[0]), True),
    "update": lambda E, o, a, kw: [o.set(hkey(E, x), True) for x in to_list(E, a[0])] and None,
    "discard": lambda E, o, a, kw: o.delete(hkey(E, a[0])),
    "union": lambda E, o, a, kw: PSet(list(o.d) + [hkey(E, y) for x in a for y in to_list(E, x)]),
    "difference": lambda E, o, a, kw: PSet([k for k in o.d if k not in [hkey(E, y) for x in a for y in to_list(E, x)]]),
    "intersection": lambda E, o, a, kw: PSet([k for k in o.d if k in [hkey(E, y) for x in a for y in to_list(E, x)]]),
    "issubset": lambda E, o, a, kw: all(k in [hkey(E, y) for y in to_list(E, a[0])] for k in o.d),
    "issuperset": lambda E, o, a, kw: all(hkey(E, y) in o.d for y in to_list(E, a[0])),
    "copy": lambda E, o, a, kw: PSet(o.d),
}


def _strm(name):
    def f(E, o, a, kw):
        a = [E.unbox(x) for x in a]
        if name == "join":
            parts = to_list(E, a[0])
            if parts and o == "" and any(isinstance(p, E.lib.SymBits) for p in parts):
                return E.lib.bits_concat(parts)
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.append(o)
                if not isinstance(p, (str, SymStr)):
                    E.fail("TypeError", "join expects str")
                out.append(p)
            return str_concat(out)
        if name == "format":
            return SymStr([("format", o, tuple(id(x) for x in a))])
        if any(isinstance(x, SymStr) or T.is_t(x) for x in a):
            raise Unsupported("str.%s with unknown argument" % name)
        aa = [list(x.items) if isinstance(x, PList) else x for x in a]
        try:
            r = getattr(o, name)(*aa, **kw)
        except ValueError as e:
            E.fail("ValueError", str(e))
        except TypeError as e:
            E.fail("TypeError", str(e))
        if isinstance(r, list):
            return PList(r)
        return r
    return f


STR = {n: _strm(n) for n in ("split", "join", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "lower", "upper", "zfill", "find", "rfind", "rsplit", "partition", "rpartition", "isdigit", "title", "capitalize", "format", "count", "index", "encode", "removesuffix", "removeprefix", "splitlines", "isalpha", "isnumeric", "center", "ljust", "rjust")}


def _symstrm(name):
    def f(E, o, a, kw):
        return E.lib.symstr_method(E, o, name, a, kw)
    return f


TUPLE = {
    "index": list_index,
    "count": LIST["count"],
}
METHODS = {PList: LIST, PDict: DICT, PSet: SET, str: STR, SymStr: {n: _symstrm(n) for n in STR}, tuple: TUPLE}


# ------------------------------------------------------------------ builtin functions
TY = {}


def pytype(E, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, bool):
        return TY["bool"]
    if isinstance(v, int):
        return TY["int"]
    if isinstance(v, Fraction):
        return TY["float"]
    if T.is_t(v):
        return TY[{"i": "int", "r": "float", "b": "bool"}[T.sortof(v)]]
    if isinstance(v, (str, SymStr)):
        return TY["str"]
    if isinstance(v, PList):
        return TY["list"]
    if isinstance(v, tuple):
        return TY["tuple"]
    if isinstance(v, PDict):
        return TY["dict"]
    if isinstance(v, PSet):
        return TY["set"]
    if isinstance(v, Arr):
        return TY["ndarray"]
    if isinstance(v, bytes):
        return TY["bytes"]
    if v is None:
        return TY["NoneType"]
    if isinstance(v, RangeV):
        return TY["range"]
    if hasattr(v, "py_type"):
        return v.py_type(E)
    if isinstance(v, (FuncV, Builtin, BoundM)):
        return TY["function"]
    return TypeV(type(v).__name__)


def isinstance_(E, v, c):
    if isinstance(c, tuple):
        return any(isinstance_(E, v, x) for x in c)
    if isinstance(c, Opaque):
        return False
    t = pytype(E, v)
    if isinstance(t, ClassV):
        return isinstance(c, ClassV) and c in t.mro()
    if t is c:
        return True
    if isinstance(c, TypeV):
        n = c.name
        if n == "object":
            return True
        if n == "int" and t.name == "bool":
            return True
        if n in ("np.integer", "np.number", "np.floating", "np.generic"):
            return False
        if n == "Number" or n == "numbers.Number":
            return t.name in ("int", "float", "bool")
        if n == "Iterable":
            return t.name in ("list", "tuple", "dict", "set", "str", "ndarray", "range")
        if n in ("Sequence",):
            return t.name in ("list", "tuple", "str", "range")
    return False


def make(E0):
    B = {}

    def bi(name):
        def d(fn):
            B[name] = Builtin(name, fn)
            return fn
        return d

    @bi("len")
    def _len(E, a, kw):
        v = a[0]
        if isinstance(v, Arr):
            if v.ndim == 0:
                E.fail("TypeError", "len() of unsized object")
            return v.shape[0]
        if isinstance(v, PList):
            return v.items.n if isinstance(v.items, SymSeq) else len(v.items)
        if isinstance(v, SymSeq):
            return v.n
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, (PDict, PSet)):
            return len(v.d)
        if isinstance(v, RangeV):
            return range_len(E, v)
        if hasattr(v, "py_len"):
            return v.py_len(E)
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__len__")
            if m is not MISSING:
                return E.call(BoundM(v, m), [], {})
        if isinstance(v, (Opaque, SymStr)):
            x = E.fresh("len", T.I)
            E.assume(x >= 0)
            return x
        E.fail("TypeError", "object has no len()")

    @bi("range")
    def _range(E, a, kw):
        a = [E.unbox(x) for x in a]
        for x in a:
            if not T.is_num(x) or T.sortof(x) == "r":
                E.fail("TypeError", "range() needs integers")
        a = [T.toint_num(T.conc(x)) for x in a]
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        if len(a) == 2:
            return RangeV(a[0], a[1], 1)
        return RangeV(a[0], a[1], a[2])

    @bi("enumerate")
    def _enum(E, a, kw):
        st = a[1] if len(a) > 1 else kw.get("start", 0)
        src = a[0]
        if isinstance(src, PList) and isinstance(src.items, SymSeq):
            # live view: the list may be changed while it is iterated over
            return SymSeq(src.items.n, lambda k: (T.add(st, k), src.items.item(k)), "live")
        items = conc_items(E, src)
        if items is None:
            s = to_seq(E, src)
            return SymSeq(s.n, lambda k: (T.add(st, k), s.item(k)))
        return IterV([(T.add(st, i), x) for i, x in enumerate(items)])

    @bi("zip")
    def _zip(E, a, kw):
        ls = [conc_items(E, x) for x in a]
        if any(l is None for l in ls):
            ss = [to_seq(E, x) for x in a]
            n = ss[0].n
            for s in ss[1:]:
                if not S_same(n, s.n):
                    if E.entails(T.eq(n, s.n)):
                        continue
                    n = T.min_(n, s.n)
            return SymSeq(n, lambda k: tuple(s.item(k) for s in ss))
        return IterV([tuple(t) for t in zip(*ls)])

    @bi("reversed")
    def _rev(E, a, kw):
        l = conc_items(E, a[0])
        if l is None:
            s = to_seq(E, a[0])
            return SymSeq(s.n, lambda k: s.item(T.sub(T.sub(s.n, 1), k)))
        return IterV(l[::-1])

    @bi("map")
    def _map(E, a, kw):
        ls = [conc_items(E, x) for x in a[1:]]
        if any(l is None for l in ls):
            raise Unsupported("map over symbolic sequence")
        return IterV([E.call(a[0], list(t), {}) for t in zip(*ls)])

    @bi("filter")
    def _filter(E, a, kw):
        return IterV([x for x in to_list(E, a[1]) if truth(E, E.call(a[0], [x], {}) if a[0] is not None else x)])

    @bi("iter")
    def _iter(E, a, kw):
        if isinstance(a[0], IterV):
            return a[0]
        return IterV(to_list(E, a[0]))

    @bi("next")
    def _next(E, a, kw):
        it = a[0]
        if not isinstance(it, IterV):
            raise Unsupported("next")
        p = it.d["pos"]
        items = it.items
        if isinstance(items, SymSeq):
            if not E.branch(T.lt(p, items.n)):
                if len(a) > 1:
                    return a[1]
                E.fail("StopIteration")
            it.set("pos", T.add(p, 1))
            return items.item(p)
        if p >= len(items):
            if len(a) > 1:
                return a[1]
            E.fail("StopIteration")
        it.set("pos", p + 1)
        return items[p]

    @bi("abs")
    def _abs(E, a, kw):
        v = a[0]
        if isinstance(v, Arr):
            return E.np.unary(E, "abs", v)
        return T.abs_(v)

    def minmax(name, f):
        @bi(name)
        def _mm(E, a, kw):
            key = kw.get("key")
            if len(a) == 1 and isinstance(a[0], Arr) and a[0].ndim == 1 and key is None and conc_items(E, a[0]) is None:
                return E.np.reduce(E, a[0], name, None)
            items = list(a) if len(a) > 1 else conc_items(E, a[0])
            if items is None:
                raise Unsupported(name + " of symbolic sequence")
            if not items:
                if "default" in kw:
                    return kw["default"]
                E.fail("ValueError", "empty sequence")
            items = [E.unbox(x) for x in items]
            if key is None and all(T.is_num(x) for x in items):
                r = items[0]
                for x in items[1:]:
                    r = T.ite(T.lt(x, r) if name == "min" else T.gt(x, r), x, r)
                return r
            ks = [E.call(key, [x], {}) if key is not None else x for x in items]
            bi_, bk = items[0], ks[0]
            for x, k in zip(items[1:], ks[1:]):
                if truth(E, compare(E, "Lt" if name == "min" else "Gt", k, bk)):
                    bi_, bk = x, k
            return bi_
        return _mm
    minmax("min", None)
    minmax("max", None)

    @bi("sum")
    def _sum(E, a, kw):
        r = a[1] if len(a) > 1 else kw.get("start", 0)
        items = conc_items(E, a[0])
        if items is None:
            s = to_seq(E, a[0])
            k0 = z3.FreshConst(T.I, "k")
            v = s.item(k0)
            if T.is_num(v):
                return T.add(r, T.apply_functional("SUM", [s.n], lambda k: T.toreal(s.item(k)))) if T.sortof(v) == "r" else E.np.int_sum(E, [s.n], lambda idx: s.item(idx[0]), r)
            if isinstance(v, Arr):
                return E.np.sum_arrays(E, s, r)
            raise Unsupported("sum")
        for x in items:
            r = binop(E, "Add", r, x)
        return r

    @bi("sorted")
    def _sorted(E, a, kw):
        return py_sorted(E, a[0], kw)

    @bi("any")
    def _any(E, a, kw):
        return T.or_(*[E.boolterm(x) for x in to_list(E, a[0])])

    @bi("all")
    def _all(E, a, kw):
        return T.and_(*[E.boolterm(x) for x in to_list(E, a[0])])

    @bi("isinstance")
    def _isi(E, a, kw):
        return isinstance_(E, a[0], a[1])

    @bi("issubclass")
    def _iss(E, a, kw):
        return isinstance(a[0], ClassV) and a[1] in a[0].mro()

    @bi("callable")
    def _callable(E, a, kw):
        return isinstance(a[0], (FuncV, Builtin, BoundM, ClassV, TypeV))

    @bi("print")
    def _print(E, a, kw):
        return None

    @bi("round")
    def _round(E, a, kw):
        v = E.unbox(a[0])
        if isinstance(v, Arr):
            return E.np.unary(E, "round", v)
        nd = a[1] if len(a) > 1 else None
        if not T.is_t(v):
            return round(v) if nd is None else round(v, nd)
        if T.sortof(v) == "i":
            return v
        if nd is None:
            # round half to even
            f = T.floor(v)
            d = T.sub(v, T.toreal(f))
            h = Fraction(1, 2)
            return T.ite(T.lt(d, h), f, T.ite(T.gt(d, h), T.add(f, 1), T.ite(T.eq(T.mod(f, 2), 0), f, T.add(f, 1))))
        E.abstract("round to digits")
        return E.fresh("round", T.R)

    @bi("divmod")
    def _divmod(E, a, kw):
        return (binop(E, "FloorDiv", a[0], a[1]), binop(E, "Mod", a[0], a[1]))

    @bi("pow")
    def _pow(E, a, kw):
        return binop(E, "Pow", a[0], a[1])

    @bi("hasattr")
    def _hasattr(E, a, kw):
        try:
            getattr_(E, a[0], a[1])
            return True
        except PyRaise as e:
            if e.cls == "AttributeError":
                return False
            raise

    @bi("getattr")
    def _getattr(E, a, kw):
        if len(a) > 2:
            try:
                return getattr_(E, a[0], a[1])
            except PyRaise as e:
                if e.cls == "AttributeError":
                    return a[2]
                raise
        return getattr_(E, a[0], a[1])

    @bi("setattr")
    def _setattr(E, a, kw):
        setattr_(E, a[0], a[1], a[2])

    @bi("id")
    def _id(E, a, kw):
        return Opaque("id")

    @bi("repr")
    def _repr(E, a, kw):
        return to_str(E, a[0])

    @bi("bin")
    def _bin(E, a, kw):
        if T.is_t(a[0]):
            return E.lib.SymBits(a[0], "0b")
        return bin(a[0])

    @bi("hex")
    def _hex(E, a, kw):
        return hex(a[0])

    @bi("chr")
    def _chr(E, a, kw):
        return chr(a[0])

    @bi("ord")
    def _ord(E, a, kw):
        return ord(a[0])

    @bi("open")
    def _open(E, a, kw):
        return E.lib.open_(E, a, kw)

    @bi("super")
    def _super(E, a, kw):
        return SuperV(a[0], a[1])

    @bi("exit")
    def _exit(E, a, kw):
        E.fail("SystemExit")

    @bi("input")
    def _input(E, a, kw):
        raise Unsupported("input")

    @bi("hash")
    def _hash(E, a, kw):
        raise Unsupported("hash")

    @bi("vars")
    def _vars(E, a, kw):
        raise Unsupported("vars")

    @bi("slice")
    def _slice(E, a, kw):
        return slice(*a)

    @bi("delattr")
    def _delattr(E, a, kw):
        a[0].delete(a[1])

    B["property"] = Builtin("property", lambda E, a, kw: PropV(a[0]))
    B["staticmethod"] = Builtin("staticmethod", lambda E, a, kw: StaticV(a[0]))
    B["classmethod"] = Builtin("classmethod", lambda E, a, kw: StaticV(a[0], True))

    def int_(E, a, kw):
        if not a:
            return 0
        v = E.unbox(a[0])
        if isinstance(v, str):
            base = a[1] if len(a) > 1 else kw.get("base", 10)
            try:
                return int(v, base)
            except ValueError as e:
                E.fail("ValueError", str(e))
        if hasattr(v, "py_int"):
            return v.py_int(E, a[1] if len(a) > 1 else kw.get("base", 10))
        if T.is_num(v):
            return int_conv(E, v)
        if isinstance(v, SymStr) and len(v.parts) == 1 and isinstance(v.parts[0], tuple) and v.parts[0][0] in ("str", "digit"):
            return v.parts[0][1]
        if isinstance(v, Arr):
            E.fail("TypeError", "only length-1 arrays can be converted")
        if isinstance(v, Opaque):
            E.abstract("int of " + v.name)
            return E.fresh("int", T.I)
        if isinstance(v, SymStr):
            raise Unsupported("int of unknown string")
        E.fail("TypeError", "int() argument must be a number")

    def float_(E, a, kw):
        if not a:
            return Fraction(0)
        v = E.unbox(a[0])
        if isinstance(v, str):
            try:
                float(v)
                return Fraction(v)
            except ValueError as e:
                E.fail("ValueError", str(e))
        if T.is_num(v):
            return T.toreal(v)
        if isinstance(v, Opaque):
            E.abstract("float of " + v.name)
            return E.fresh("float", T.R)
        E.fail("TypeError", "float() argument")

    def bool_(E, a, kw):
        if not a:
            return False
        v = E.unbox(a[0])
        if T.is_num(v):
            return T.truth(v)
        return truth(E, v)

    def list_(E, a, kw):
        if not a:
            return PList([])
        items = conc_items(E, a[0])
        if items is None:
            return PList(to_seq(E, a[0]))
        return PList(items)

    def tuple_(E, a, kw):
        if not a:
            return ()
        items = conc_items(E, a[0])
        if items is None:
            return to_seq(E, a[0])
        return tuple(items)

    def dict_(E, a, kw):
        d = PDict()
        dict_update(E, d, a, kw)
        return d

    def set_(E, a, kw):
        return PSet([hkey(E, x) for x in to_list(E, a[0])] if a else [])

    def str_(E, a, kw):
        return to_str(E, a[0]) if a else ""

    def type_(E, a, kw):
        return pytype(E, a[0])

    def bytes_(E, a, kw):
        if not a:
            return b""
        v = a[0]
        if isinstance(v, bytes):
            return v
        if hasattr(v, "py_bytes"):
            return v.py_bytes(E)
        return bytes(to_list(E, v))
    TY.clear()
    for n, c in (("int", int_), ("float", float_), ("bool", bool_), ("list", list_), ("tuple", tuple_), ("dict", dict_), ("set", set_), ("str", str_), ("type", type_), ("bytes", bytes_), ("bytearray", bytes_), ("frozenset", set_)):
        TY[n] = TypeV(n, c)
        B[n] = TY[n]
    TY["dict"].attrs["fromkeys"] = Builtin("dict.fromkeys", lambda E, a, kw: PDict({hkey(E, k): (a[1] if len(a) > 1 else None) for k in to_list(E, a[0])}))
    TY["str"].attrs["join"] = Builtin("str.join", lambda E, a, kw: _strm("join")(E, a[0], [a[1]], {}))
    TY["int"].attrs["from_bytes"] = Builtin("int.from_bytes", lambda E, a, kw: E.lib.int_from_bytes(E, a, kw))
    TY["list"].attrs["append"] = Builtin("list.append", lambda E, a, kw: list_append(E, a[0], a[1:], kw))
    for n in ("NoneType", "range", "function", "ndarray", "object", "complex"):
        TY[n] = TypeV(n)
    B["object"] = TY["object"]
    B["complex"] = TY["complex"]
    for n in EXC_PARENTS:
        if n not in ("LinAlgError",):
            B[n] = TypeV(n)
    B["NotImplemented"] = Opaque("NotImplemented")
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    return B


def int_conv(E, v):
    """int(v): truncation, using the path condition to avoid case splits"""
    if T.sortof(v) != "r":
        return T.toint_num(v)
    if not T.is_t(v):
        return int(v)
    x = T.as_int(v)
    if x is not None:
        return x
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV:
        ni, di = T.as_int(v.arg(0)), T.as_int(v.arg(1))
        if ni is not None and di is not None:
            q = T.idiv(ni, di)
            if T.is_t(di) and T._exact(T.tz(ni), di) is not None:
                return q
            if E.entails(T.and_(T.ge(ni, 0), T.gt(di, 0))):
                return q
    if E.entails(T.ge(v, 0)):
        return T.floor(v)
    return T.trunc(v)
