"""Symbolic back end of the contract language."""
import time
from fractions import Fraction
import z3
from . import terms as T
from . import solver as S
from .values import *
from .spec import Skip
from .order import permuted


def u(v):
    return v.t if isinstance(v, SV) else v


class SV:
    """a symbolic (or exact concrete) number or truth value"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = T.conc(t)

    def __add__(self, o): return SV(T.add(num(self.t), num(u(o))))
    def __radd__(self, o): return SV(T.add(num(u(o)), num(self.t)))
    def __sub__(self, o): return SV(T.sub(num(self.t), num(u(o))))
    def __rsub__(self, o): return SV(T.sub(num(u(o)), num(self.t)))
    def __mul__(self, o): return SV(T.mul(num(self.t), num(u(o))))
    def __rmul__(self, o): return SV(T.mul(num(u(o)), num(self.t)))
    def __truediv__(self, o): return SV(T.div(T.toreal(self.t), T.toreal(u(o))))
    def __rtruediv__(self, o): return SV(T.div(T.toreal(u(o)), T.toreal(self.t)))
    def __floordiv__(self, o): return SV(T.idiv(self.t, u(o)))
    def __rfloordiv__(self, o): return SV(T.idiv(u(o), self.t))
    def __mod__(self, o): return SV(T.mod(self.t, u(o)))
    def __rmod__(self, o): return SV(T.mod(u(o), self.t))
    def __neg__(self): return SV(T.neg(self.t))
    def __abs__(self): return SV(T.abs_(self.t))
    def __lt__(self, o): return SV(T.lt(self.t, u(o)))
    def __le__(self, o): return SV(T.le(self.t, u(o)))
    def __gt__(self, o): return SV(T.gt(self.t, u(o)))
    def __ge__(self, o): return SV(T.ge(self.t, u(o)))
    def __eq__(self, o): return SV(T.eq(self.t, u(o)))
    def __ne__(self, o): return SV(T.ne(self.t, u(o)))
    __hash__ = None

    def __bool__(self):
        v = self.t
        if T.is_t(v):
            raise Unsupported("branch on a symbolic value in a contract: use B.ite / B.branch")
        return bool(v)

    def __index__(self):
        if T.is_t(self.t):
            raise Unsupported("concrete int needed in a contract")
        return int(self.t)

    def __repr__(self):
        return "SV(%s)" % (self.t,)


def num(v):
    if isinstance(v, float):
        return Fraction(repr(v))
    return v


def _pick(tab, i):
    i = T.conc(i)
    if not T.is_t(i):
        return tab[i]
    r = tab[-1]
    for k in range(len(tab) - 2, -1, -1):
        r = T.ite(T.eq(i, k), tab[k], r)
    return r


class Sym:
    symbolic = True

    def __init__(self, E, prefix):
        self.E = E
        self.prefix = prefix
        self.inputs = {}
        self.raised = None
        self.npre = 0

    # ---------------------------------------------------------------- inputs
    def fork(self):
        return self

    def choice(self, name, opts):
        i = self.E.choose(range(len(opts)))
        self.inputs[name] = ("choice", i)
        return opts[i]

    def int(self, name, lo=None, hi=None, hint=None):
        c = z3.Int("in_" + name)
        self.inputs[name] = ("int", c)
        if lo is not None:
            self.assume(SV(c) >= lo)
        if hi is not None:
            self.assume(SV(c) <= hi)
        return SV(c)

    def real(self, name, lo=None, hi=None, hint=None, **kw):
        c = z3.Real("in_" + name)
        self.inputs[name] = ("real", c)
        if lo is not None:
            self.assume(SV(c) >= num(lo))
        if hi is not None:
            self.assume(SV(c) <= num(hi))
        return SV(c)

    def bool(self, name):
        c = z3.Bool("in_" + name)
        self.inputs[name] = ("bool", c)
        return SV(c)

    def array(self, name, shape, dtype="f8", lo=None, hi=None, **kw):
        shape = tuple(u(x) for x in shape)
        srt = self.E.np.sort_of_dt(dtype)
        f = z3.Function("in_" + name + "_" + dtype, *([T.I] * len(shape) + [srt]))
        if dtype in INTS and dtype != "i8":
            S.FUN_RANGE[f.name()] = INTS[dtype] if dtype != "u8" else (0, None)
        if (lo is not None or hi is not None) and dtype != "b1":
            ps = [z3.Int("$a%d" % i) for i in range(len(shape))]
            x = f(*ps)
            self.E.assume(S.FunAx(f.name(), ps, z3.And(*[c for c in ((x >= T.tz(num(lo))) if lo is not None else None, (x <= T.tz(num(hi))) if hi is not None else None) if c is not None])))
        self.inputs[name] = ("array", f, shape, dtype)
        return new_arr(shape, dtype, lambda idx: f(*[T.tz(i) for i in idx]), name)

    slack = 0

    def reals(self, name, n, lo=None, hi=None, **kw):
        """list of n real numbers (n may be symbolic)"""
        n = u(n)
        if not T.is_t(n):
            return [self.real("%s_%d" % (name, i), lo, hi) for i in range(n)]
        a = self.array(name, (n,), "f8", lo, hi)
        return PList(SymSeq(n, lambda i: a.get((i,))))

    def frozen(self, v):
        """the list as it is now"""
        return PList(v.items) if isinstance(v, PList) else list(v)

    def assume(self, c):
        self.E.assume(T.truth(u(c)))
        if T.is_t(T.conc(T.truth(u(c)))) and not self.E.feasible(True):
            raise Infeasible()

    def branch(self, c):
        """case split on a condition (both back ends)"""
        return self.E.branch(T.truth(u(c)))

    # ---------------------------------------------------------------- calling
    def new(self, path):
        """an instance of the class whose constructor has not run"""
        return Obj(self.fn(path))

    def median4(self, a, b, c, d):
        """upper median of four values (scipy's median_filter of size 2)"""
        f = z3.Function("MEDIAN_4", *([T.R] * 5))
        return SV(f(*[T.tz(T.toreal(num(u(x)))) for x in (a, b, c, d)]))

    def fn(self, path):
        return self.E.lookup(path) if path.startswith("micropolarray") else self.E.lookup("micropolarray." + path)

    def raw(self, v):
        if isinstance(v, SV):
            return v.t
        if isinstance(v, tuple):
            return tuple(self.raw(x) for x in v)
        if isinstance(v, list):
            return PList([self.raw(x) for x in v])
        if isinstance(v, dict):
            d = PDict()
            for k, x in v.items():
                d.d[k] = self.raw(x)
            return d
        if isinstance(v, float):
            return Fraction(repr(v))
        return v

    def wrap(self, v):
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.get(())
        if T.is_num(v) and not isinstance(v, SV):
            return SV(v)
        return v

    def try_call(self, f, *args, **kw):
        """-> (exception name or None, value)"""
        E = self.E
        if isinstance(f, str):
            f = self.fn(f)
        args = [self.raw(a) for a in args]
        kw = {k: self.raw(a) for k, a in kw.items()}
        try:
            v = E.call(f, args, kw)
        except PyRaise as e:
            self.last_raise = e
            return e.cls, None
        return None, self.wrap(v)

    def _noraise(self, ex, what):
        if ex is not None:
            e = self.last_raise
            self.oblige(False, "%s does not raise (%s at %s: %s)" % (what, ex, e.where, " ".join(str(a) for a in e.args_)[:80] if hasattr(e, "args_") else ""))
            raise Infeasible()

    def call(self, f, *args, **kw):
        what = f if isinstance(f, str) else getattr(f, "name", "call")
        ex, v = self.try_call(f, *args, **kw)
        self._noraise(ex, what)
        return v

    def raises(self, exc, f, *args, **kw):
        """the call must be refused with exception exc"""
        what = f if isinstance(f, str) else getattr(f, "name", "call")
        ex, v = self.try_call(f, *args, **kw)
        names = exc if isinstance(exc, tuple) else (exc,)
        ok = ex is not None and any(exc_isa(ex, n) for n in names)
        self.oblige(ok, "%s is refused with %s (got %s)" % (what, "/".join(names), ex))

    def method(self, obj, name, *args, **kw):
        return self.call(self._bound(obj, name), *args, **kw)

    def try_method(self, obj, name, *args, **kw):
        return self.try_call(self._bound(obj, name), *args, **kw)

    def method_raises(self, exc, obj, name, *args, **kw):
        return self.raises(exc, self._bound(obj, name), *args, **kw)

    def _bound(self, obj, name):
        E = self.E
        f = E.getattr(obj, name)
        return f

    def attr(self, obj, name):
        try:
            return self.wrap(self.E.getattr(obj, name))
        except PyRaise as e:
            self.last_raise = e
            self._noraise(e.cls, "attribute " + name)

    def setattr(self, obj, name, v):
        self.E.setattr(obj, name, self.raw(v))

    def item(self, obj, k):
        return self.wrap(self.E.getitem(obj, self.raw(k)))

    def setitem(self, obj, k, v):
        self.E.setitem(obj, self.raw(k), self.raw(v))

    def op(self, o, a, b):
        n = {"+": "Add", "-": "Sub", "*": "Mult", "/": "Div"}[o]
        a, b = self.raw(a), self.raw(b)
        try:
            return self.wrap(self.E.binop(n, a, b))
        except PyRaise as e:
            self.last_raise = e
            self._noraise(e.cls, "operator " + o)

    # ---------------------------------------------------------------- looking
    def shape(self, a):
        a = self._a(a)
        return tuple(SV(d) for d in a.shape)

    def ndim(self, a):
        return self._a(a).ndim

    def isarray(self, a):
        return isinstance(a, Arr)

    def _a(self, a):
        if isinstance(a, PList) or isinstance(a, tuple):
            a = self.E.np.np_array(self.E, a)
        if not isinstance(a, Arr):
            raise Unsupported("array expected in a contract, got %r" % (a,))
        return a

    def at(self, a, *idx):
        """element (indices are not wrapped around)"""
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        return SV(self._a(a).get(tuple(u(i) for i in idx)))

    def dtype(self, a):
        return self._a(a).dtype

    def snap(self, a):
        """frozen copy of an array's present content"""
        a = self._a(a)
        return new_arr(a.shape, a.dtype, a.reader())

    def items(self, v):
        """concrete list/tuple -> python list"""
        it = self.E.bm.conc_items(self.E, v)
        if it is None:
            raise Unsupported("list of symbolic length in a contract")
        return [self.wrap(x) for x in it]

    def length(self, v):
        return SV(self.E.bm.to_seq(self.E, v).n)

    def elem(self, v, i):
        return self.wrap(self.E.bm.to_seq(self.E, v).item(u(i)))

    def isnone(self, v):
        return v is None

    def text(self, v):
        if isinstance(v, str):
            return v
        return self.E.bm.to_str(self.E, v)

    # ---------------------------------------------------------------- terms
    def ite(self, c, a, b): return SV(T.ite(u(c) if not T.is_t(u(c)) else T.truth(u(c)), num(u(a)), num(u(b))))
    def and_(self, *cs): return SV(T.and_(*[T.truth(u(c)) if T.is_t(u(c)) else bool(u(c)) for c in cs]))
    def or_(self, *cs): return SV(T.or_(*[T.truth(u(c)) if T.is_t(u(c)) else bool(u(c)) for c in cs]))
    def not_(self, c): return SV(T.not_(T.truth(u(c)) if T.is_t(u(c)) else bool(u(c))))
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def eq(self, a, b, tol=None): return SV(T.eq(num(u(a)), num(u(b))))
    def same_int(self, a, b): return SV(T.eq(num(u(a)), num(u(b))))
    def min(self, a, b): return SV(T.min_(num(u(a)), num(u(b))))
    def max(self, a, b): return SV(T.max_(num(u(a)), num(u(b))))
    def sqrt(self, a): return SV(T.sqrt(T.toreal(u(a))))
    def real_of(self, a): return SV(T.toreal(num(u(a))))
    def trunc(self, a): return SV(T.trunc(u(a)))
    def floor(self, a): return SV(T.floor(u(a)))

    def const(self, x):
        """a decimal literal, the way the interpreter reads the same literal in the code"""
        return SV(num(x))

    def np1(self, name, *args):
        """a numpy function of scalars, as the engine models it"""
        f = self.E.extmods["numpy"].env.d[name]
        return self.wrap(self.E.call(f, [self.raw(a) for a in args], {}))

    def np(self, name, *args, **kw):
        """a numpy function applied by the contract itself (oracle)"""
        f = self.E.extmods["numpy"].env.d[name]
        return self.wrap(self.E.call(f, [self.raw(a) for a in args], {k: self.raw(v) for k, v in kw.items()}))

    @property
    def pi(self): return SV(T.PI)

    def sum(self, n, f):
        """sum_{0<=i<n} f(i) as a real"""
        return SV(T.sum_term(u(n), lambda k: T.toreal(u(f(SV(k))))))

    def sum2(self, n, m, f):
        return SV(self.E.np.nested_sum([u(n), u(m)], lambda ix: T.toreal(num(u(f(SV(ix[0]), SV(ix[1])))))))

    def red(self, name, dims, fn):
        """reduction (mean, std, median, min, max, any, all) of fn over an index box, engine theory"""
        return SV(self.E.np.red_scalar(self.E, name, [u(d) for d in dims], lambda ix: T.toreal(num(u(fn(*[SV(i) for i in ix])))), "f8"))

    def mk(self, shape, fn, dtype="f8"):
        return new_arr(tuple(u(s) for s in shape), dtype, lambda ix: num(u(fn(*[SV(i) for i in ix]))))

    # ---------------------------------------------------------------- obligations
    def oblige(self, c, msg, timeout=None):
        E = self.E
        n0 = len(E.obligations)
        ok = E.oblige(T.truth(u(c)) if T.is_t(u(c)) else bool(u(c)), "%s: %s" % (self.prefix, msg), timeout=timeout or 10000)
        for o in E.obligations[n0:]:
            o.inputs = dict(self.inputs)
        return ok

    def ensure(self, c, msg):
        return self.oblige(c, msg)

    def ensure_eq(self, a, b, msg, tol=None):
        return self.oblige(self.eq(a, b), msg)

    def forall(self, shape, name="i"):
        """fresh indices inside the box (the obligation is then for all of them)"""
        E = self.E
        vs = []
        for d in shape:
            v = E.fresh(name, T.I)
            E.assume(v >= 0)
            E.assume(T.lt(v, u(d)))
            vs.append(SV(v))
        if not E.feasible(True):
            return None
        return vs

    def ensure_forall(self, shape, fn, msg, tol=None):
        """for every index of the box: fn(idx) (a condition or a pair to be equal)"""
        E = self.E
        n0 = len(E.pc)
        vs = self.forall(shape)
        if vs is None:
            del E.pc[n0:]
            return True
        c = fn(*vs)
        if isinstance(c, tuple):
            c = self.eq(*c)
        ok = self.oblige(c, msg)
        keep = [p for p in E.pc[n0:] if False]
        del E.pc[n0:]
        return ok

    def ensure_shape(self, a, shape, msg):
        a = self._a(a)
        if a.ndim != len(shape):
            return self.oblige(False, msg + " (number of axes)")
        return self.oblige(self.and_(*[SV(x) == y for x, y in zip(a.shape, shape)]) if shape else SV(True), msg + " (shape)")

    def ensure_array(self, a, shape, fn, msg, tol=None):
        ok = self.ensure_shape(a, shape, msg)
        if not ok:
            return False
        a = self._a(a)
        return self.ensure_forall(shape, lambda *ix: (self.at(a, *ix), fn(*ix)), msg, tol)

    def ensure_same(self, a, b, msg):
        """two arrays equal in shape and content"""
        b = self._a(b)
        return self.ensure_array(a, self.shape(b), lambda *ix: self.at(b, *ix), msg)

    def ensure_unshared(self, a, b, msg):
        """no storage in common"""
        return self.oblige(not (isinstance(a, Arr) and isinstance(b, Arr) and a.buf is b.buf), msg)

    def shares(self, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.buf is b.buf
        return a is b

    def lemma(self, c, msg):
        """proved, then available"""
        return self.oblige(c, "lemma " + msg)

    def reach(self):
        """vacuity guard"""
        r, m = S.satisfiable(self.E.hyps(), timeout=3000)
        return r

    # ---------------------------------------------------------------- files (a modelled file system)
    def path(self, rel):
        return self.E.world.norm(rel)

    def mkdir(self, rel):
        self.E.world.mkdirs(self.path(rel))

    def put_fits(self, rel, arr, header=None):
        from engine import libmodel as L
        h = L.Header()
        L.set_axes(self.E, h, arr)
        for k, v in (header or {}).items():
            h.d[k.upper()] = self.raw(v)
        self.E.world.add(rel, {"kind": "fits", "data": self.E.np.np_array(self.E, arr), "header": dict(h.d)})

    def put_bytes(self, rel, arr):
        """a file whose bytes are the given 1-dimensional u1 array"""
        from engine import libmodel as L
        rd = arr.reader()
        self.E.world.add(rel, {"kind": "bytes", "content": L.BytesV(arr.shape[0], lambda k: rd((k,)))})

    def read_bytes(self, rel):
        """the content of a file as bytes"""
        return self.E.world.file(self.path(rel))["content"]

    def put_text(self, rel):
        """some other file"""
        self.E.world.add(rel, {"kind": "other"})

    def exists(self, rel):
        return self.E.world.file(rel) is not None

    def get_fits(self, rel):
        """pixels of a FITS file, which must be there"""
        r = self.E.world.file(rel)
        if r is None or r["kind"] != "fits":
            self.oblige(False, "file %s is written (there are: %s)" % (rel, ", ".join(sorted(self.files()))[:200]))
            raise Infeasible()
        return r["data"]

    def get_header(self, rel, key):
        r = self.E.world.file(rel)
        if r is None or r["kind"] != "fits":
            self.oblige(False, "file %s is written" % rel)
            raise Infeasible()
        v = r["header"].get(key.upper())
        return self.wrap(v)

    def files(self):
        """relative names of all files"""
        w = self.E.world
        c = w.d["cwd"].rstrip("/") + "/"
        return [f[len(c):] if f.startswith(c) else f for f in w.files()]

    def listing_order(self, name="order", pin=None):
        """the order directories are listed in: some sample orders (the real one is unspecified)"""
        k = self.choice(name, [0, 1, 2, 3] if pin is None else [4, 5])
        self.E.world.d["order"] = lambda names: permuted(names, k, pin)

    def fit_stub(self):
        """the fit of a pixel: some function of what it is given, that may also fail"""
        def hook(E, a, kw):
            f, rest = a[0], list(a[1:])
            names = ["xdata", "ydata", "p0"]
            for k, v in kw.items():
                names.append(k)
                rest.append(v)
            els, tag = [], [getattr(f, "qual", None) or repr(f)]
            for nm, v in zip(names, rest):
                v = E.unbox(v) if not isinstance(v, bool) else v
                if isinstance(v, (Arr, PList, tuple)):
                    x = E.np.np_array(E, v) if not isinstance(v, Arr) else v
                    dims = [T.conc(d) for d in x.shape]
                    if any(T.is_t(d) for d in dims):
                        raise Unsupported("curve_fit of an unknown number of points")
                    rd = x.reader()
                    import itertools
                    els += [T.tz(T.toreal(rd(ix))) for ix in itertools.product(*[range(d) for d in dims])]
                    tag.append("%s%s" % (nm, "x".join(map(str, dims))))
                elif T.is_num(v) and T.is_t(v):
                    els.append(T.tz(T.toreal(v)))
                    tag.append(nm)
                else:
                    tag.append("%s=%s" % (nm, v))
            name = "fit_" + "_".join(tag)
            uf = lambda k, srt=T.R: z3.Function("%s_%s" % (name, k), *([T.R] * len(els) + [srt]))(*els)
            if E.truth(uf("fails", T.Bo)):
                E.fail("RuntimeError", "the fit does not converge")
            n = 3
            pick = lambda tab, ix: _pick(tab, ix)
            popt = [uf("p%d" % i) for i in range(n)]
            cov = [[uf("c%d%d" % (i, j)) for j in range(n)] for i in range(n)]
            return (new_arr((n,), "f8", lambda ix: _pick(popt, ix[0])), new_arr((n, n), "f8", lambda ix: _pick([_pick(r, ix[1]) for r in cov], ix[0])))
        self.E.hooks["curve_fit"] = hook

    def fail_writes(self):
        """from now on writing a FITS file fails"""
        self.E.world.set("fail_writes", True)

    def removals(self):
        """[(name, names of the files there when it was removed)]"""
        w = self.E.world
        c = w.d["cwd"].rstrip("/") + "/"
        rel = lambda f: f[len(c):] if f.startswith(c) else f
        return [(rel(e[1]), [rel(f) for f in e[2]]) for e in w.d["log"] if e[0] == "remove"]

    def watch_removals(self):
        pass
