"""Concrete back end of the contract language: runs the contracts against the
real package.  Used to replay counterexamples and for the concrete battery."""
import glob as _glob
import importlib
import json
import math
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
import numpy as np
from engine.spec import REG, Skip

warnings.simplefilter("ignore")
np.seterr(all="ignore")

NPD = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32, "i2": np.int16, "i1": np.int8,
       "u8": np.uint64, "u4": np.uint32, "u2": np.uint16, "u1": np.uint8, "b1": np.bool_}
DN = {np.dtype(v): k for k, v in NPD.items()}


class Violation(Exception):
    pass


class Gone(Skip):
    """the function named by the contract is not there any more"""


class Limit(Exception):
    pass


def num(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v[()]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return np.float64(v)
    return v


def exc_names(e):
    return [c.__name__ for c in type(e).__mro__]


class Con:
    symbolic = False

    def __init__(self, values=None, rng=None, style=0, scratch=None):
        self.values = values          # replay
        self.rng = rng or random.Random(0)
        self.style = style
        self.used = {}
        self.scale = 1.0
        self.checks = 0
        self.root_ = scratch
        self.events_ = []
        self.prefix = ""

    # ---------------------------------------------------------------- inputs
    def choice(self, name, opts):
        if self.values is not None:
            i = int(self.values.get(name, 0))
        else:
            i = self.rng.randrange(len(opts))
        self.used[name] = i
        return opts[i]

    def int(self, name, lo=None, hi=None, hint=None):
        if self.values is not None:
            v = int(self.values.get(name, lo if lo is not None else 0))
        else:
            a, b = hint if hint else (lo if lo is not None else (hi - 8 if hi is not None else -8), None)
            if b is None:
                b = hi if hi is not None and hi - a < 12 else a + 8
            r = self.rng.random()
            if r < 0.25:
                v = a
            elif r < 0.35:
                v = b
            else:
                v = self.rng.randint(a, b)
        if lo is not None and v < num(lo) or hi is not None and v > num(hi):
            raise Skip()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, hint=None, edges=()):
        if self.values is not None:
            v = float(self.values.get(name, 0))
        else:
            a, b = hint if hint else (lo if lo is not None else -10.0, hi if hi is not None else (float(lo) + 20 if lo is not None else 10.0))
            r = self.rng.random()
            if edges and r < 0.35:
                v = self.rng.choice(list(edges))
            elif r < 0.45:
                v = a
            elif r < 0.5:
                v = b
            elif r < 0.75 and math.floor(b) >= math.ceil(a):
                v = float(self.rng.randint(math.ceil(a), math.floor(b)))
            else:
                v = self.rng.uniform(a, b)
        v = float(v)
        if lo is not None and v < float(lo) or hi is not None and v > float(hi):
            raise Skip()
        self.used[name] = v
        self.scale = max(self.scale, abs(v))
        return np.float64(v)

    def bool(self, name):
        v = bool(self.values.get(name, False)) if self.values is not None else self.rng.random() < 0.5
        self.used[name] = v
        return v

    coarse = False      # single precision inputs

    def array(self, name, shape, dtype="f8", lo=None, hi=None, hint=None, edges=()):
        self.coarse = self.coarse or dtype == "f4"
        shape = tuple(int(num(s)) for s in shape)
        n = 1
        for s in shape:
            n *= s
        if n > 4_000_000:
            raise Skip()
        if self.values is not None:
            spec = self.values.get(name)
            a = np.zeros(shape, NPD[dtype])
            if lo is not None and float(lo) > 0:
                a[...] = lo
            if isinstance(spec, dict) and "npy" in spec:
                a = np.array(spec["npy"], dtype=NPD[dtype]).reshape(shape)
            elif isinstance(spec, dict):
                if spec.get("default") is not None:
                    a[...] = spec["default"]
                for k, v in spec.get("at", []):
                    if all(0 <= i < s for i, s in zip(k, shape)):
                        a[tuple(k)] = v
        else:
            g = np.random.default_rng(self.rng.getrandbits(60))
            if dtype == "b1":
                a = g.random(shape) < g.choice([0.5, 0.5, 0.9, 0.1, 1.0, 0.0])
            elif dtype[0] in "iu":
                info = np.iinfo(NPD[dtype])
                a0, b0 = hint if hint else (max(info.min, -50), min(info.max, 200))
                if hint is None and g.random() < 0.35:
                    a0, b0 = int(info.min), int(info.max)
                if hint is None and g.random() < 0.25:
                    a0, b0 = (-2 if info.min < 0 else 0), 3
                if lo is not None:
                    a0 = max(a0, int(lo))
                if hi is not None:
                    b0 = min(b0, int(hi))
                a = g.integers(a0, b0, endpoint=True, size=shape, dtype=NPD[dtype])
            else:
                a0, b0 = hint if hint else (float(lo) if lo is not None else -20.0, float(hi) if hi is not None else (float(lo) + 50.0 if lo is not None else 40.0))
                k = g.integers(0, 5)
                if k == 0 and np.floor(b0) >= np.ceil(a0):
                    a = g.integers(int(np.ceil(a0)), int(np.floor(b0)), endpoint=True, size=shape).astype(float)
                elif k == 1:
                    a = np.full(shape, g.uniform(a0, b0))
                    if n:
                        a.reshape(-1)[g.integers(0, n)] = g.uniform(a0, b0)
                else:
                    a = g.uniform(a0, b0, size=shape)
                if k == 3 and n and a0 <= 0 <= b0:
                    m = g.random(shape) < 0.3
                    a[m] = 0.0
                if edges and g.random() < 0.5:
                    m = g.random(shape) < 0.4
                    a[m] = g.choice(np.array(edges, float), size=shape)[m]
                a = a.astype(NPD[dtype])
        if lo is not None and a.size and float(a.min()) < float(lo) or hi is not None and a.size and float(a.max()) > float(hi):
            raise Skip()
        self.used[name] = {"npy": a.tolist(), "shape": list(shape)} if a.size <= 4000 else {"big": list(shape)}
        if a.size and dtype != "b1":
            self.scale = max(self.scale, float(np.max(np.abs(a.astype(float)))))
        return a

    slack = 1e-9

    def reals(self, name, n, lo=None, hi=None, hint=None, edges=()):
        a = self.array(name, (n,), "f8", lo, hi, hint, edges)
        return [float(x) for x in a]

    def frozen(self, v):
        return list(v)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def branch(self, c):
        return bool(c)

    # ---------------------------------------------------------------- calling
    def new(self, path):
        c = self.fn(path)
        return c.__new__(c)

    def median4(self, *v):
        return sorted(float(x) for x in v)[2]

    def fn(self, path):
        try:
            return self._fn(path)
        except (ImportError, AttributeError):
            if path.startswith("?"):
                raise
            raise Gone(path)

    def _fn(self, path):
        if not path.startswith("micropolarray"):
            path = "micropolarray." + path
        parts = path.split(".")
        for i in range(len(parts), 0, -1):
            try:
                m = importlib.import_module(".".join(parts[:i]))
            except ModuleNotFoundError as e:
                if e.name and ".".join(parts[:i]).startswith(e.name):
                    continue
                raise
            # a name imported in the package may hide the sub-module
            v = m
            for q in parts[i:]:
                v = getattr(v, q)
            return v
        raise ImportError(path)

    def raw(self, v):
        return v

    wrap = raw

    def try_call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        try:
            v = f(*args, **kw)
        except Limit:
            raise
        except SystemExit as e:
            self.last = e
            return "SystemExit", None
        except Exception as e:
            self.last = e
            return type(e).__name__, None
        return None, v

    def _noraise(self, ex, what):
        if ex is not None:
            tb = traceback.extract_tb(self.last.__traceback__)[-1]
            raise Violation("%s: %s raises %s: %s (%s:%s)" % (self.prefix, what, ex, str(self.last)[:200], os.path.basename(tb.filename), tb.lineno))

    def call(self, f, *args, **kw):
        what = f if isinstance(f, str) else getattr(f, "__name__", str(f))
        ex, v = self.try_call(f, *args, **kw)
        self._noraise(ex, what)
        return v

    def raises(self, exc, f, *args, **kw):
        what = f if isinstance(f, str) else getattr(f, "__name__", str(f))
        names = exc if isinstance(exc, tuple) else (exc,)
        ex, v = self.try_call(f, *args, **kw)
        self.checks += 1
        if ex is None or not any(n in exc_names(self.last) for n in names):
            raise Violation("%s: %s is not refused with %s (got %s)" % (self.prefix, what, "/".join(names), ex))

    def method(self, obj, name, *args, **kw):
        return self.call(getattr(obj, name), *args, **kw)

    def try_method(self, obj, name, *args, **kw):
        return self.try_call(getattr(obj, name), *args, **kw)

    def method_raises(self, exc, obj, name, *args, **kw):
        return self.raises(exc, getattr(obj, name), *args, **kw)

    def attr(self, obj, name):
        try:
            return getattr(obj, name)
        except Exception as e:
            self.last = e
            self._noraise(type(e).__name__, "attribute " + name)

    def setattr(self, obj, name, v):
        setattr(obj, name, v)

    def item(self, obj, k):
        return obj[k]

    def setitem(self, obj, k, v):
        obj[k] = v

    def op(self, o, a, b):
        import operator
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[o]
        return self.call(f, a, b)

    # ---------------------------------------------------------------- looking
    def shape(self, a):
        return tuple(np.asarray(a).shape)

    def ndim(self, a):
        return np.asarray(a).ndim

    def isarray(self, a):
        return isinstance(a, np.ndarray)

    def _a(self, a):
        return a if isinstance(a, np.ndarray) else np.asarray(a)

    def at(self, a, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        idx = tuple(int(i) for i in idx)
        a = self._a(a)
        # specifications may mention cells guarded by ite: clip
        if a.size and any(i < 0 or i >= s for i, s in zip(idx, a.shape)):
            idx = tuple(min(max(i, 0), s - 1) for i, s in zip(idx, a.shape))
        return num(a[idx])

    def dtype(self, a):
        return DN.get(self._a(a).dtype, str(self._a(a).dtype))

    def snap(self, a):
        return np.array(a, copy=True)

    def items(self, v):
        return list(v)

    def length(self, v):
        return len(v)

    def elem(self, v, i):
        return v[int(i)]

    def isnone(self, v):
        return v is None

    def text(self, v):
        return str(v)

    # ---------------------------------------------------------------- terms
    def ite(self, c, a, b): return num(a) if c else num(b)
    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not bool(c)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def min(self, a, b): return min(num(a), num(b))
    def max(self, a, b): return max(num(a), num(b))
    def sqrt(self, a): return np.sqrt(np.float64(a))
    def real_of(self, a): return np.float64(a)
    def trunc(self, a): return int(a)
    def floor(self, a): return int(math.floor(a))
    def same_int(self, a, b): return num(a) == num(b)

    def eq(self, a, b, tol=None):
        a, b = num(a), num(b)
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return a == b
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and tol is None:
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        if tol is None:
            tol = 1e-6 if self.coarse else 1e-9
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) + 1e-10 * self.scale

    def const(self, x):
        return np.float64(x)

    def np1(self, name, *args):
        return num(getattr(np, name)(*args))

    def np(self, name, *args, **kw):
        return getattr(np, name)(*args, **kw)

    @property
    def pi(self): return np.float64(np.pi)

    def sum(self, n, f):
        r = np.float64(0)
        for i in range(int(n)):
            r += np.float64(f(i))
        return r

    def sum2(self, n, m, f):
        r = np.float64(0)
        for i in range(int(n)):
            for j in range(int(m)):
                r += np.float64(f(i, j))
        return r

    def red(self, name, dims, fn):
        a = np.array([np.float64(fn(*ix)) for ix in np.ndindex(*[int(d) for d in dims])])
        return num(getattr(np, name)(a))

    def mk(self, shape, fn, dtype="f8"):
        shape = tuple(int(s) for s in shape)
        a = np.zeros(shape, NPD[dtype])
        for ix in np.ndindex(*shape):
            a[ix] = fn(*ix)
        return a

    # ---------------------------------------------------------------- obligations
    def oblige(self, c, msg, **kw):
        self.checks += 1
        if not bool(c):
            raise Violation("%s: %s" % (self.prefix, msg))
        return True

    def ensure(self, c, msg):
        return self.oblige(c, msg)

    lemma = ensure

    def ensure_eq(self, a, b, msg, tol=None):
        self.checks += 1
        if not self.eq(a, b, tol):
            raise Violation("%s: %s: got %r, expected %r" % (self.prefix, msg, num(a), num(b)))
        return True

    def forall(self, shape, name="i"):
        shape = [int(s) for s in shape]
        if any(s <= 0 for s in shape):
            return None
        return [self.rng.randrange(s) for s in shape]

    def ensure_forall(self, shape, fn, msg, tol=None):
        shape = [int(s) for s in shape]
        n = 1
        for s in shape:
            n *= max(0, s)
        its = np.ndindex(*shape)
        if n > 3000:
            its = [tuple(self.rng.choice([0, s - 1, self.rng.randrange(s), self.rng.randrange(s)]) for s in shape) for _ in range(600)]
        for ix in its:
            ix = tuple(int(i) for i in ix)
            c = fn(*ix)
            self.checks += 1
            if isinstance(c, tuple):
                if not self.eq(c[0], c[1], tol):
                    raise Violation("%s: %s at %s: got %r, expected %r" % (self.prefix, msg, list(ix), num(c[0]), num(c[1])))
            elif not bool(c):
                raise Violation("%s: %s at %s" % (self.prefix, msg, list(ix)))
        return True

    def ensure_shape(self, a, shape, msg):
        self.checks += 1
        s1, s2 = tuple(np.asarray(a).shape), tuple(int(s) for s in shape)
        if s1 != s2:
            raise Violation("%s: %s: shape %s, expected %s" % (self.prefix, msg, s1, s2))
        return True

    def ensure_array(self, a, shape, fn, msg, tol=None):
        self.ensure_shape(a, shape, msg)
        a = self._a(a)
        return self.ensure_forall(shape, lambda *ix: (a[ix], fn(*ix)), msg, tol)

    def ensure_same(self, a, b, msg):
        b = self._a(b)
        return self.ensure_array(a, b.shape, lambda *ix: b[ix], msg)

    def ensure_unshared(self, a, b, msg):
        self.checks += 1
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b):
            raise Violation("%s: %s" % (self.prefix, msg))

    def shares(self, a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            return bool(np.shares_memory(a, b))
        return a is b

    def reach(self):
        return "sat"

    # ---------------------------------------------------------------- files (inside the case's scratch directory)
    def path(self, rel):
        return os.path.join(self.root_, rel)

    def _dir(self, rel):
        os.makedirs(os.path.dirname(self.path(rel)), exist_ok=True)

    def mkdir(self, rel):
        os.makedirs(self.path(rel), exist_ok=True)

    def put_fits(self, rel, arr, header=None):
        from astropy.io import fits
        self._dir(rel)
        h = fits.Header()
        for k, v in (header or {}).items():
            h[k] = v
        fits.PrimaryHDU(np.array(arr), header=h).writeto(self.path(rel), overwrite=True)

    def put_bytes(self, rel, arr):
        self._dir(rel)
        with open(self.path(rel), "wb") as f:
            f.write(np.asarray(arr, np.uint8).tobytes())

    def read_bytes(self, rel):
        with open(self.path(rel), "rb") as f:
            return f.read()

    def put_text(self, rel):
        self._dir(rel)
        with open(self.path(rel), "w") as f:
            f.write("other")

    def exists(self, rel):
        return os.path.isfile(self.path(rel))

    def get_fits(self, rel):
        from astropy.io import fits
        if not self.exists(rel):
            self.oblige(False, "file %s is written (there are: %s)" % (rel, ", ".join(sorted(self.files()))[:200]))
        with fits.open(self.path(rel)) as f:
            return np.array(f[0].data)

    def get_header(self, rel, key):
        from astropy.io import fits
        if not self.exists(rel):
            self.oblige(False, "file %s is written" % rel)
        with fits.open(self.path(rel)) as f:
            return f[0].header.get(key)

    def files(self):
        out = []
        for d, _, fs in os.walk(self.root_):
            out += [os.path.relpath(os.path.join(d, f), self.root_) for f in fs]
        return out

    def listing_order(self, name="order", pin=None):
        from engine.order import permuted as perm
        k = self.choice(name, [0, 1, 2, 3] if pin is None else [4, 5])
        permuted = lambda names, k: perm(names, k, pin)
        g, ig, ls, sc, it, pg = _glob.glob, _glob.iglob, os.listdir, os.scandir, pathlib.Path.iterdir, pathlib.Path.glob

        def scandir(*a, **kw):
            with sc(*a, **kw) as s:
                es = {e.name: e for e in s}
            return _Scan(es[n] for n in permuted(list(es), k))
        _glob.glob = lambda *a, **kw: permuted(g(*a, **kw), k)
        _glob.iglob = lambda *a, **kw: iter(permuted(ig(*a, **kw), k))
        os.listdir = lambda *a, **kw: permuted(ls(*a, **kw), k)
        os.scandir = scandir
        pathlib.Path.iterdir = lambda s: iter(permuted(list(it(s)), k))
        pathlib.Path.glob = lambda s, *a, **kw: iter(permuted(list(pg(s, *a, **kw)), k))
        mods = [(m, n) for m in list(sys.modules.values()) if getattr(m, "__name__", "").startswith("micropolarray") for n, v in list(vars(m).items()) if v is g]
        for m, n in mods:
            setattr(m, n, _glob.glob)

        def back():
            _glob.glob, _glob.iglob, os.listdir, os.scandir = g, ig, ls, sc
            pathlib.Path.iterdir, pathlib.Path.glob = it, pg
            for m, n in mods:
                setattr(m, n, g)
        self.undo.append(back)

    def fit_stub(self):
        import hashlib
        import scipy.optimize
        real = scipy.optimize.curve_fit

        def curve_fit(f, xdata, ydata, p0=None, sigma=None, **kw):
            txt = repr([np.round(np.asarray(v, float), 7).tolist() for v in (ydata, p0, sigma if sigma is not None else 0)])
            r = np.random.default_rng(int(hashlib.sha256(txt.encode()).hexdigest()[:12], 16))
            u = r.random()
            if u < 0.06:
                raise RuntimeError("Optimal parameters not found")
            if u < 0.08:
                raise ValueError("`x0` is infeasible")
            if u < 0.10:
                raise np.linalg.LinAlgError("SVD did not converge")
            p = np.asarray(p0, float) + r.normal(0, 0.1, len(p0))
            if u < 0.13:
                p[1] = 1e-6
            return p, r.normal(0, 1, (len(p0), len(p0)))
        mods = [(m, n) for m in list(sys.modules.values()) if getattr(m, "__name__", "").startswith(("micropolarray", "scipy.optimize")) for n, v in list(vars(m).items()) if v is real]
        for m, n in mods:
            setattr(m, n, curve_fit)

        def back():
            for m, n in mods:
                setattr(m, n, real)
        self.undo.append(back)

    def fail_writes(self):
        from astropy.io import fits
        cs = [fits.PrimaryHDU, fits.HDUList]
        own = [(c, c.__dict__.get("writeto")) for c in cs]

        def bad(self, *a, **kw):
            raise OSError(28, "No space left on device")
        for c in cs:
            c.writeto = bad

        def back():
            for c, f in own:
                if f is None:
                    del c.writeto
                else:
                    c.writeto = f
        self.undo.append(back)

    def removals(self):
        return list(self.events_)

    def watch_removals(self):
        rm, ul, pu = os.remove, os.unlink, pathlib.Path.unlink

        def note(p):
            q = os.path.abspath(os.fspath(p))
            if not q.startswith(self.root_ + os.sep):
                raise Violation("%s: a file outside the working directory is removed: %s" % (self.prefix, q))
            self.events_.append((os.path.relpath(q, self.root_), [f for f in self.files() if os.path.join(self.root_, f) != q]))

        def remove(p, *a, **kw):
            note(p)
            return rm(p, *a, **kw)

        def unlink(s, *a, **kw):
            note(s)
            return rm(s)
        os.remove, os.unlink, pathlib.Path.unlink = remove, remove, unlink

        def back():
            os.remove, os.unlink, pathlib.Path.unlink = rm, ul, pu
        self.undo.append(back)


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


# ------------------------------------------------------------------ drivers
def load(prop):
    importlib.import_module("contracts.%s" % prop.lower())
    return REG[prop]


def run_case(c, values=None, seed=None, style=0):
    """-> (status, message, used values)"""
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="mpcase_"))
    old = os.getcwd()
    B = Con(values, random.Random(seed) if seed is not None else None, style, scratch)
    B.prefix = c.name
    os.chdir(scratch)
    undo = []
    B.undo = undo
    try:
        try:
            c.fn(B)
            return ("ok", None, B.used, B.checks)
        except Skip:
            return ("skip", None, B.used, 0)
        except Violation as e:
            return ("violation", str(e), B.used, B.checks)
    finally:
        for f in reversed(undo):
            f()
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)


def jsonable(v):
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--mult", type=int, default=1)
    ap.add_argument("--out", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    out = a.out

    def put(d):
        with open(out + ".tmp", "w") as f:
            json.dump(jsonable(d), f)
        os.replace(out + ".tmp", out)
    if a.replay:
        r = json.load(open(a.replay))
        cs = {c.name: c for c in load(r["property"])}
        if r["contract"] not in cs:
            put({"status": "unknown contract"})
            return
        c = cs[r["contract"]]
        put({"status": "running", "contract": c.name})
        try:
            if r.get("values") is not None:
                st = run_case(c, values=r["values"])
            else:
                st = run_case(c, seed=r["seed"], style=r.get("style", 0))
            put({"status": st[0], "message": st[1], "checks": st[3]})
        except Exception as e:
            put({"status": "error", "message": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]})
        return
    t0 = time.time()
    cs = [c for c in load(a.prop) if c.battery and (not a.only or c.name == a.only)]
    stats = {c.name: {"cases": 0, "nontrivial": 0, "skipped": 0, "checks": 0, "distinct": 0} for c in cs}
    seen = {c.name: set() for c in cs}
    samples, viol = [], []
    state = {"status": "running", "stats": stats, "samples": samples, "violations": viol, "current": None}
    rnd = 0
    dead = set()
    while cs and len(dead) < len(cs):
        for c in cs:
            if c.name in dead:
                continue
            want = c.battery if isinstance(c.battery, int) and not isinstance(c.battery, bool) else 40
            want *= a.mult
            if a.cases:
                want = a.cases
            chunk = 4
            for j in range(chunk):
                i = rnd * chunk + j
                if i >= want:
                    dead.add(c.name)
                    break
                if time.time() - t0 > a.budget and stats[c.name]["nontrivial"] >= 2:
                    dead.add(c.name)
                    break
                seed = "%d/%s/%d" % (a.seed, c.id, i)
                state["current"] = {"contract": c.name, "seed": seed, "style": i, "since": time.time()}
                put(state)
                try:
                    st = run_case(c, seed=seed, style=i)
                except Exception as e:
                    state["status"] = "error"
                    state["message"] = "%s case %s: %s" % (c.name, seed, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
                    put(state)
                    return
                stats[c.name]["cases"] += 1
                if st[0] == "skip":
                    stats[c.name]["skipped"] += 1
                    continue
                stats[c.name]["checks"] += st[3]
                if st[3]:
                    stats[c.name]["nontrivial"] += 1
                    h = hash(json.dumps(jsonable(st[2]), sort_keys=True))
                    if h not in seen[c.name]:
                        seen[c.name].add(h)
                        stats[c.name]["distinct"] += 1
                if st[0] == "violation":
                    if a.verbose:
                        print(st[1])
                    viol.append({"contract": c.name, "seed": seed, "style": i, "message": st[1], "values": st[2]})
                    dead.add(c.name)
                    break
                if len(samples) < 6 and rnd == 0 and j == 0:
                    s = json.dumps(jsonable(st[2]))
                    samples.append({"contract": c.name, "seed": seed, "values": s[:300]})
        rnd += 1
    state["status"] = "done"
    state["current"] = None
    state["wall_s"] = time.time() - t0
    put(state)
    if a.verbose:
        print(json.dumps(jsonable(stats), indent=0))


if __name__ == "__main__":
    main()
