"""Obligation discharge: lemma generation + z3 / cvc5.

A query is  pc |- goal.  Functional terms (sums, medians, ...) carry lambdas;
before a query is sent they are abstracted to constants after extensionality
lemmas (proved by recursive queries) have been added.  Floor division by a
symbolic divisor is axiomatised by Euclid's lemma instances; nonlinear integer
products are normalised to monomials with sign/monotonicity lemmas.
"""
import itertools
import math
import time
from fractions import Fraction
import os

import z3
from . import terms as T

SCALE = float(os.environ.get("MPV_SCALE", "1"))
STATS = {"queries": 0, "z3_s": 0.0, "cvc5_s": 0.0, "by": {}, "feas": 0, "feas_s": 0.0, "ext": 0}
FUN_RANGE = {}       # function name -> (lo, hi) for integer array contents
FUN_DEF = {}         # name of defined skolem function -> (decl, axiom builder)
CACHE = {}
KEEP = []            # keep terms alive so that ids stay unique
DEADLINE = [None]


class Budget(Exception):
    pass


class Univ:
    """universally quantified hypothesis: for all ints k: fn(k)"""

    def __init__(self, fn, arity=1, tag=""):
        self.fn, self.arity, self.tag = fn, arity, tag


class FunAx(Univ):
    """hypothesis about an uninterpreted function: at every ground application
    name(args) the fact holds with params replaced by args"""

    def __init__(self, name, params, fact):
        self.name, self.params, self.fact = name, list(params), fact
        self.arity, self.tag = 0, name

    def at(self, args):
        if len(args) != len(self.params):
            return None
        return T.subst(self.fact, list(zip(self.params, args)))


class WitAx(FunAx):
    """for all ix and k: fact(ix, k), about the function name(ix): instantiated at every
    ground application and the int terms of the goal"""

    def __init__(self, name, params, k, fact):
        FunAx.__init__(self, name, params, fact)
        self.k = k

    def at(self, args, ks=()):
        if len(args) != len(self.params):
            return None
        f = T.subst(self.fact, list(zip(self.params, args)))
        return T.and_(*[T.subst(f, [(self.k, c)]) for c in ks])


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Budget("time budget of the check used up")


# ------------------------------------------------------------------ traversal
_KIDS = {}           # term id -> (term, children); the term is kept, so ids stay unique


def kids(x):
    r = _KIDS.get(x.get_id())
    if r is None:
        if len(_KIDS) > 600000:
            _KIDS.clear()
        r = _KIDS[x.get_id()] = (x, () if z3.is_quantifier(x) else tuple(x.children()))
    return r[1]


def collect(ts):
    """all ground sub-terms (not under binders) of the formulas, list"""
    seen = {}
    st = list(ts)
    get = _KIDS.get
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        r = get(i)
        st.extend(r[1] if r is not None else kids(x))
    return list(seen.values())


_HV = {}


def has_var(t):
    """does a bound variable occur free of a quantifier in t (memoised: terms are
    shared DAGs)"""
    r = _HV.get(t.get_id())
    if r is not None:
        return r[0]
    st = [(t, None)]
    while st:
        x, it = st[-1]
        i = x.get_id()
        if it is None:
            if i in _HV:
                st.pop()
                continue
            if z3.is_var(x):
                _HV[i] = (True, x)
                st.pop()
                continue
            if z3.is_quantifier(x):
                _HV[i] = (False, x)
                st.pop()
                continue
            it = kids(x)
            st[-1] = (x, it)
            st.extend((c, None) for c in it if c.get_id() not in _HV)
        else:
            _HV[i] = (any(_HV[c.get_id()][0] for c in it), x)
            st.pop()
    return _HV[t.get_id()][0]


# ------------------------------------------------------------------ polynomials
class Poly:
    """polynomial over opaque atoms; dict monomial(tuple of atom ids) -> Fraction"""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m or {}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c != 0 else {})

    def add(self, o, f=1):
        m = dict(self.m)
        for k, v in o.m.items():
            n = m.get(k, 0) + v * f
            if n == 0:
                m.pop(k, None)
            else:
                m[k] = n
        return Poly(m)

    def mul(self, o):
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                n = m.get(k, 0) + v1 * v2
                if n == 0:
                    m.pop(k, None)
                else:
                    m[k] = n
        return Poly(m)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()}) if c != 0 else Poly()

    def is_const(self):
        return all(k == () for k in self.m)

    def c(self):
        return self.m.get((), Fraction(0))

    def deg(self):
        return max((len(k) for k in self.m), default=0)


def content(p):
    g = 0
    for c in p.m.values():
        g = math.gcd(g, int(c.numerator))
    return g or 1


class Lin:
    """linearising transformer with an atom table"""

    def __init__(self):
        self.atoms = {}      # id -> transformed atom term
        self.memo = {}
        self.pmemo = {}
        self.mon = {}        # monomial key (sorted ids, isreal) -> const
        self.keep = []
        self.monkey = {}     # monomial const id -> key
        self.mmemo, self.rmemo, self.bmemo, self.plmemo, self.smemo = {}, {}, {}, {}, {}

    def tr(self, t):
        """transform any term (Bool or arith)"""
        i = t.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r
        self.keep.append(t)
        if t.sort() in (T.I, T.R) and not z3.is_var(t):
            r = self.from_poly(self.poly(t), t.sort() == T.R)
        elif z3.is_quantifier(t) or z3.is_var(t) or t.num_args() == 0:
            r = t
        else:
            ch = [self.tr(c) for c in kids(t)]
            k = t.decl().kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and t.arg(0).sort() in (T.I, T.R):
                d = self.poly(t.arg(0)).add(self.poly(t.arg(1)), -1)
                isr = t.arg(0).sort() == T.R
                if d.is_const():
                    c = d.c()
                    v = {z3.Z3_OP_EQ: c == 0, z3.Z3_OP_LE: c <= 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GT: c > 0}[k]
                    r = z3.BoolVal(v)
                else:
                    lhs = self.from_poly(d, isr)
                    z = z3.RealVal(0) if isr else z3.IntVal(0)
                    r = {z3.Z3_OP_EQ: lhs == z, z3.Z3_OP_LE: lhs <= z, z3.Z3_OP_GE: lhs >= z, z3.Z3_OP_LT: lhs < z, z3.Z3_OP_GT: lhs > z}[k]
            else:
                r = t.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT) else (z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else z3.Distinct(*ch))
        self.memo[i] = r
        self.keep.append(r)
        return r

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        self.keep.append(t)
        return Poly({(i,): Fraction(1)})

    def poly(self, t):
        i = t.get_id()
        r = self.pmemo.get(i)
        if r is not None:
            return r
        self.keep.append(t)
        r = self._poly(t)
        self.pmemo[i] = r
        return r

    def _poly(self, t):
        v = T.conc(t)
        if not T.is_t(v):
            return Poly.const(Fraction(v))
        if z3.is_var(t):
            return self.atom(t)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = Poly()
            for c in kids(t):
                r = r.add(self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            ch = kids(t)
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = r.add(self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.poly(t.arg(0)).scale(-1)
        if k == z3.Z3_OP_MUL:
            ps = [self.poly(c) for c in kids(t)]
            r = ps[0]
            for p in ps[1:]:
                r = r.mul(p)
                if len(r.m) > 400:
                    raise Budget("polynomial too large")
            return r
        if k == z3.Z3_OP_DIV:   # real division
            d = T.conc(t.arg(1))
            if not T.is_t(d) and d != 0:
                return self.poly(t.arg(0)).scale(Fraction(1) / Fraction(d))
            n, dd = self.tr(t.arg(0)), self.tr(t.arg(1))
            return self.atom(n / dd if False else z3.Function("rdiv", T.R, T.R, T.R)(n, dd))
        if k == z3.Z3_OP_TO_REAL:
            p = self.poly(t.arg(0))
            # distribute ToReal over the integer polynomial
            m = {}
            for mk, c in p.m.items():
                nk = tuple(sorted(self._real_atom(a) for a in mk))
                m[nk] = m.get(nk, 0) + c
            return Poly({a: b for a, b in m.items() if b != 0})
        if k == z3.Z3_OP_ITE:
            c, a, b = self.tr(t.arg(0)), self.tr(t.arg(1)), self.tr(t.arg(2))
            if z3.is_true(c):
                return self.poly(t.arg(1))
            if z3.is_false(c):
                return self.poly(t.arg(2))
            if a.eq(b):
                return self.poly(t.arg(1))
            return self.atom(z3.If(c, a, b))
        if t.num_args() == 0:
            return self.atom(t)
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            c = T.conc(t.arg(1))
            if T.is_t(c):
                raise Budget("symbolic z3 div")
            if c > 0:
                # (c*u + v) div c = u + v div c;  x mod c = x - c*(x div c)
                p = self.poly(t.arg(0))
                u, v = {}, {}
                for mk, co in p.m.items():
                    if co.denominator != 1:
                        raise Budget("fractional integer polynomial")
                    q, r = divmod(int(co), c)
                    if q:
                        u[mk] = Fraction(q)
                    if r:
                        v[mk] = Fraction(r)
                v = Poly(v)
                if v.is_const():
                    q = Poly(u).add(Poly.const(int(v.c()) // c))
                else:
                    q = Poly(u).add(self.atom(self.from_poly(v, False) / z3.IntVal(c)))
                return q if k == z3.Z3_OP_IDIV else p.add(q, -c)
        ch = [self.tr(c) for c in kids(t)]
        return self.atom(t.decl()(*ch))

    def _real_atom(self, i):
        a = self.atoms[i]
        if a.sort() == T.I:
            t = z3.ToReal(a)
            self.atoms[t.get_id()] = t
            self.keep.append(t)
            return t.get_id()
        return i

    def monomial(self, key, isreal):
        if len(key) == 1:
            return self.atoms[key[0]]
        if isreal:
            # an all-integer monomial seen as real: share the integer constant
            ats = [self.atoms[i] for i in key]
            if all(z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL for a in ats):
                ik = []
                for a in ats:
                    b = a.arg(0)
                    self.atoms[b.get_id()] = b
                    ik.append(b.get_id())
                return z3.ToReal(self.monomial(tuple(sorted(ik)), False))
        m = self.mon.get((key, isreal))
        if m is None:
            m = z3.Const("m!%d" % len(self.mon), T.R if isreal else T.I)
            self.mon[(key, isreal)] = m
            self.monkey[m.get_id()] = (key, isreal)
        return m

    def from_poly(self, p, isreal):
        if not p.m:
            return z3.RealVal(0) if isreal else z3.IntVal(0)
        # integer polynomials may have fractional coefficients only by construction errors
        ts = []
        for k in sorted(p.m):
            c = p.m[k]
            cv = z3.RealVal(c) if isreal else z3.IntVal(int(c))
            if not isreal and c.denominator != 1:
                raise Budget("fractional integer polynomial")
            if k == ():
                ts.append(cv)
            else:
                m = self.monomial(k, isreal)
                if isreal and m.sort() == T.I:
                    m = z3.ToReal(m)
                ts.append(m if c == 1 else cv * m)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    # -------------------------------------------------------------- lemmas
    def mons_of(self, f):
        """monomials used in a transformed formula"""
        i = f.get_id()
        r = self.mmemo.get(i)
        if r is None:
            r = {}
            for t in collect([f]):
                if z3.is_const(t):
                    k = self.monkey.get(t.get_id())
                    if k is not None:
                        r[k] = 1
            r = self.mmemo[i] = tuple(r)
            self.keep.append(f)
        return r

    def cofs_of(self, f):
        """(atom, cofactor polynomial) pairs of the integer comparisons of a formula:
        the comparison a*d + rest ~ 0 gives (a, d) and (a, -d) for every atom a
        of a nonlinear monomial"""
        i = f.get_id()
        r = self.rmemo.get(i)
        if r is None:
            r = {}
            for t in collect([f]):
                if not (z3.is_app(t) and t.num_args() == 2 and t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and t.arg(0).sort() == T.I):
                    continue
                try:
                    d = self.poly(t.arg(0)).add(self.poly(t.arg(1)), -1)
                except Budget:
                    continue
                ats = {}
                for mk in d.m:
                    if len(mk) > 1:
                        for x in mk:
                            ats[x] = 1
                for x in ats:
                    if self.atoms[x].sort() != T.I:
                        continue
                    cof, pos, neg = {}, {}, {}
                    for mk, c in d.m.items():
                        if x in mk:
                            rest = list(mk)
                            rest.remove(x)
                            cof[tuple(rest)] = c
                            if rest:
                                pos[tuple(rest)] = abs(c)
                    for mk, c in pos.items():
                        q = Poly({mk: c})
                        r[(x, tuple(sorted(q.m.items())))] = q
                    q = Poly(cof)
                    if cof[min(cof)] < 0:
                        q = q.scale(-1)
                    r[(x, tuple(sorted(q.m.items())))] = q
            self.rmemo[i] = r
            self.keep.append(f)
        return r

    def block(self, a, d):
        """sign / monotonicity facts of the product atom a * polynomial d"""
        key = (a, tuple(sorted(d.m.items())))
        r = self.bmemo.get(key)
        if r is None:
            b = Poly({(a,): Fraction(1)})
            bt = self.from_poly(b, False)
            dt = self.from_poly(d, False)
            pt = self.from_poly(d.mul(b), False)
            r = []
            for c in (1, 2):
                r.append((lambda bv, dv, pv, c=c: not (bv >= 0 and dv >= c) or pv >= c * bv, z3.Implies(z3.And(bt >= 0, dt >= c), pt >= c * bt)))
                r.append((lambda bv, dv, pv, c=c: not (bv >= 0 and dv <= -c) or pv <= -c * bv, z3.Implies(z3.And(bt >= 0, dt <= -c), pt <= -c * bt)))
            r.append((lambda bv, dv, pv: dv != 0 or pv == 0, z3.Implies(dt == 0, pt == 0)))
            r.append((lambda bv, dv, pv: not (bv >= 0 and dv >= 0) or pv >= 0, z3.Implies(z3.And(bt >= 0, dt >= 0), pt >= 0)))
            r.append((lambda bv, dv, pv: not (bv >= 0 and dv <= 0) or pv <= 0, z3.Implies(z3.And(bt >= 0, dt <= 0), pt <= 0)))
            r.append((lambda bv, dv, pv: not (bv <= 0 and dv >= 0) or pv <= 0, z3.Implies(z3.And(bt <= 0, dt >= 0), pt <= 0)))
            r.append((lambda bv, dv, pv: not (bv <= 0 and dv <= 0) or pv >= 0, z3.Implies(z3.And(bt <= 0, dt <= 0), pt >= 0)))
            r.append((lambda bv, dv, pv: bv != 1 or pv == dv, z3.Implies(bt == 1, pt == dt)))
            self.bmemo[key] = r
        return r

    def syms(self, f):
        i = f.get_id()
        r = self.smemo.get(i)
        if r is None:
            r = self.smemo[i] = frozenset(t.get_id() for t in collect([f]) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)
            self.keep.append(f)
        return r

    def candidates(self, fs):
        """product candidates (a, d), every monomial of a*d occurring in the
        formulas; those sharing most symbols with fs[0] (the goal) first"""
        fs = list(fs)
        g = self.syms(fs[0])
        fs = fs[:1] + sorted(fs[1:], key=lambda f: len(self.syms(f) - g))
        sig = tuple(f.get_id() for f in fs)
        r = self.plmemo.get(sig)
        if r is not None:
            return r
        fac = {}
        for f in fs:
            for (a, key), d in self.cofs_of(f).items():
                if not d.is_const():
                    fac.setdefault(a, {})[key] = d
        out = []
        for a, cof in fac.items():
            cs = list(cof.values())[:16]
            done = set()
            cands = list(cs)
            for p, q in itertools.combinations(cs, 2):
                cands.append(p.add(q, -1))
                cp, cq = content(p), content(q)
                if cp != cq:
                    g = math.gcd(cp, cq)
                    cands.append(p.scale(cq // g).add(q.scale(cp // g), -1))
            for d in cands:
                k = tuple(sorted(d.m.items()))
                if k not in done and not d.is_const():
                    done.add(k)
                    out.append((a, d, d.mul(Poly({(a,): Fraction(1)}))))
        self.plmemo[sig] = out
        KEEP.extend(fs)
        return out


def lin_solve(fs, timeout, rounds=14, extra=()):
    """unsat / sat / unknown / weak for the linearised formulas; products are
    refined by sign and monotonicity lemmas that the candidate model violates.
    'sat' is only said when the model is consistent with every integer product."""
    L = glin()
    lf = [L.tr(f) for f in list(fs) + list(extra)]
    s = z3.Solver()
    s.set("timeout", int(max(50, timeout) * SCALE))
    for f in lf:
        s.add(f)
    t0 = time.time()
    nl = any(L.mons_of(f) for f in lf)
    cand = None
    added = set()
    res = "unknown"
    try:
        for rd in range(rounds):
            r = s.check()
            if r != z3.sat:
                res = str(r)
                break
            if not nl:
                res = "sat"
                break
            if cand is None:
                cand = L.candidates(fs)
            m = s.model()
            vals = {}

            def val(p):
                v = 0
                for mk, c in p.m.items():
                    x = vals.get(mk)
                    if x is None:
                        if mk == ():
                            x = 1
                        else:
                            t = L.atoms[mk[0]] if len(mk) == 1 else L.mon.get((mk, False))
                            if t is None:
                                return None
                            e = T.conc(m.eval(t, model_completion=True))
                            if T.is_t(e):
                                return None
                            x = e
                        vals[mk] = x
                    v += c * x
                return v
            new = []
            for a, d, pd in cand:
                bv, dv = val(Poly({(a,): Fraction(1)})), val(d)
                if bv is None or dv is None:
                    continue
                pv = val(pd)
                if pv is None or pv == bv * dv:
                    continue
                for ok, f in L.block(a, d):
                    if not ok(bv, dv, pv) and f.get_id() not in added:
                        added.add(f.get_id())
                        new.append(f)
                        break
                if len(new) >= 24:
                    break
            if not new:
                res = "weak"
                break
            for f in new:
                s.add(f)
            left = timeout - (time.time() - t0) * 1000
            if left <= 0:
                break
            s.set("timeout", int(max(50, left) * SCALE))
    except z3.Z3Exception:
        res = "unknown"
    STATS["z3_s"] += time.time() - t0
    return res


GL = None


def glin():
    global GL
    if GL is None:
        GL = Lin()
    return GL


# ------------------------------------------------------------------ axioms
_APPS = {}


def apps(f):
    """ground applications of uninterpreted functions (and pi) in f, memoised"""
    i = f.get_id()
    r = _APPS.get(i)
    if r is None:
        r = []
        for t in collect([f]):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.num_args() > 0 or t.decl().name() == "pi") and not has_var(t):
                r.append((t.get_id(), t.decl().name(), t))
        _APPS[i] = r
        KEEP.append(f)
    return r


_TAX = {}


def _term_ax(i, n, t):
    r = _TAX.get(i)
    if r is not None:
        return r
    new = []
    if n in ("ediv", "emod"):
        a, b = t.arg(0), t.arg(1)
        key = ("dm", a.get_id(), b.get_id())
        r = _TAX.get(key)
        if r is not None:
            _TAX[i] = r
            return r
        q, r = T.EDIV(a, b), T.EMOD(a, b)
        new.append(z3.Implies(b != 0, a == b * q + r))
        new.append(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
        new.append(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
        new.append(z3.Implies(z3.And(b > 0, a >= 0), q >= 0))
        new.append(z3.Implies(z3.And(b > 0, a >= 0), q <= a))
        new.append(z3.Implies(z3.And(b > 0, a >= 0, a < b), q == 0))
        _TAX[key] = new
    elif n == "sqrt":
        x = t.arg(0)
        new.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        new.append(z3.Implies(x > 0, t > 0))
    elif n in ("sin", "cos"):
        x = t.arg(0)
        s, c = T.SIN(x), T.COS(x)
        new.append(s * s + c * c == 1)
        new.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
        if x.decl().name() == "atan2":
            ay, ax = x.arg(0), x.arg(1)
            r = T.tz(T.sqrt(T.conc(ax * ax + ay * ay)))
            new.append(z3.And(c * r == ax, s * r == ay))
    elif n == "atan2":
        new.append(z3.And(t <= T.PI, t > -T.PI))
        y, x = t.arg(0), t.arg(1)
        new.append(z3.Implies(y > 0, t > 0))
        new.append(z3.Implies(y < 0, t < 0))
        new.append(z3.Implies(z3.And(y == 0, x >= 0), t == 0))
        new.append(z3.Implies(z3.And(y == 0, x < 0), t == T.PI))
    elif n == "pi":
        new.append(z3.And(t > z3.RealVal("3.14159265358"), t < z3.RealVal("3.14159265359")))
    elif n == "rdiv":
        a, b = t.arg(0), t.arg(1)
        new.append(z3.Implies(b != 0, b * t == a))
        new.append(z3.Implies(z3.And(b > 0, a >= 0), t >= 0))
        new.append(z3.Implies(z3.And(b > 0, a <= b), t <= 1))
    elif n == "rmod":
        a, b = t.arg(0), t.arg(1)
        k = z3.Function("rmodk", T.R, T.R, T.I)(a, b)
        new.append(z3.Implies(b != 0, a == b * z3.ToReal(k) + t))
        new.append(z3.Implies(b > 0, z3.And(t >= 0, t < b)))
    elif n in FUN_RANGE:
        lo, hi = FUN_RANGE[n]
        if lo is not None:
            new.append(t >= lo)
        if hi is not None:
            new.append(t <= hi)
        if n not in FUN_DEF:
            return new           # ranges may still be registered: not memoised
    if n in FUN_DEF:
        return new + list(FUN_DEF[n](t))
    if not new:
        return new               # a range may still be registered: not memoised
    _TAX[i] = new
    KEEP.append((t, new))
    return new


def ground_axioms(ts):
    """axioms for ediv/emod/sqrt/trig/pi/range-typed contents occurring in ts"""
    ax = []
    seen, done = set(), set()
    cur = ts
    for _ in range(4):
        new = {}
        for f in cur:
            for i, n, t in apps(f):
                if i in seen:
                    continue
                seen.add(i)
                for x in _term_ax(i, n, t):
                    if x.get_id() not in done:
                        done.add(x.get_id())
                        new[x.get_id()] = x
        if not new:
            break
        cur = list(new.values())
        KEEP.extend(cur)
        ax.extend(cur)
    return ax


_EUC = {}


def euclid_lemmas(ts):
    """uniqueness / monotonicity across pairs of ediv with the same divisor,
    and between a quotient and plain bounds"""
    out = []
    by = {}
    for f in ts:
        for i, n, t in apps(f):
            if n == "ediv":
                by.setdefault(t.arg(1).get_id(), {})[i] = t
    for g in by.values():
        l = list(g.values())[:6]
        for p, q in itertools.combinations(l, 2):
            key = (p.get_id(), q.get_id())
            r = _EUC.get(key)
            if r is None:
                b = p.arg(1)
                r = [z3.Implies(z3.And(b > 0, p < q), b * p + b <= b * q),
                     z3.Implies(z3.And(b > 0, q < p), b * q + b <= b * p),
                     z3.Implies(z3.And(b > 0, p.arg(0) <= q.arg(0)), p <= q),
                     z3.Implies(z3.And(b > 0, q.arg(0) <= p.arg(0)), q <= p)]
                _EUC[key] = r
                KEEP.append((p, q, r))
            out.extend(r)
    # quotient of a product: ediv(b*x + c, b)
    for g in by.values():
        for t in list(g.values())[:8]:
            key = t.get_id()
            r = _EUC.get(key)
            if r is None:
                r = []
                a, b = t.arg(0), t.arg(1)
                L = glin()
                try:
                    pa, pb = L.poly(a), L.poly(b)
                    x = _divides(pa, pb)
                    if x is not None:
                        qt, rt = poly_term(x[0], L), poly_term(x[1], L)
                        if qt is not None and rt is not None:
                            r = [z3.Implies(z3.And(b > 0, rt >= 0, rt < b), z3.And(t == qt, T.EMOD(a, b) == rt)),
                                 z3.Implies(b > 0, b * (t - qt) + T.EMOD(a, b) == rt),
                                 z3.Implies(z3.And(b > 0, t - qt >= 1), b * (t - qt) >= b),
                                 z3.Implies(z3.And(b > 0, t - qt <= -1), b * (t - qt) <= -b)]
                except Budget:
                    pass
                _EUC[key] = r
                KEEP.append((t, r))
            out.extend(r)
    return out


def _divides(pa, pb):
    """pa = pb*q + r, extracting the monomials of pa divisible by the (single-monomial) pb"""
    if len(pb.m) != 1:
        return None
    (kb, cb), = pb.m.items()
    if kb == ():
        return None
    q, r = {}, {}
    for k, c in pa.m.items():
        rest = list(k)
        ok = True
        for a in kb:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
                break
        if ok and (c / cb).denominator == 1:
            q[tuple(rest)] = c / cb
        else:
            r[k] = c
    if not q:
        return None
    return Poly(q), Poly(r)


def poly_term(p, L):
    ts = []
    for k, c in sorted(p.m.items()):
        if c.denominator != 1:
            return None
        t = z3.IntVal(int(c))
        for a in k:
            if L.atoms[a].sort() != T.I:
                return None
            t = t * L.atoms[a]
        ts.append(t)
    if not ts:
        return z3.IntVal(0)
    return z3.simplify(z3.Sum(ts)) if len(ts) > 1 else z3.simplify(ts[0])


def native_divs(ts):
    """replace ediv/emod by z3's own div/mod (correct for positive divisors;
    for negative ones the definition is spelt out)"""
    subs = [t for t in collect(ts) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("ediv", "emod")]
    if not subs:
        return ts
    v0, v1 = z3.Var(0, T.I), z3.Var(1, T.I)
    dq = z3.If(v1 > 0, v0 / v1, (-v0) / (-v1))
    dm = z3.If(v1 > 0, v0 % v1, -((-v0) % (-v1)))
    return [z3.substitute_funs(t, (T.EDIV, dq), (T.EMOD, dm)) for t in ts]


# ------------------------------------------------------------------ rational functions
class Rat:
    """algebraic identity check modulo sqrt(x)^2=x, sin^2+cos^2=1"""

    def __init__(self, prover):
        self.L = Lin()
        self.pr = prover
        self.dens = []

    sub = None

    def rat(self, t):
        v = T.conc(t)
        one = Poly.const(1)
        if self.sub is not None and T.is_t(v) and not (z3.is_app(t) and t.decl().kind() in ARITH + (z3.Z3_OP_TO_REAL,)):
            t = self.sub(t)
            v = T.conc(t)
        if not T.is_t(v):
            return Poly.const(Fraction(v)), one
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            n, d = Poly(), one
            for c in kids(t):
                n2, d2 = self.rat(c)
                n, d = self.plus(n, d, n2, d2, 1)
            return n, d
        if k == z3.Z3_OP_SUB:
            ch = kids(t)
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rat(c)
                n, d = self.plus(n, d, n2, d2, -1)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(t.arg(0))
            return n.scale(-1), d
        if k == z3.Z3_OP_MUL:
            n, d = one, one
            for c in kids(t):
                n2, d2 = self.rat(c)
                n, d = self.red(n.mul(n2)), self.red(d.mul(d2))
                if len(n.m) > 3000:
                    raise Budget("rat")
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.rat(t.arg(0))
            n2, d2 = self.rat(t.arg(1))
            if not n2.is_const() or not n2.m:
                self.dens.append(t.arg(1))
            return self.red(n.mul(d2)), self.red(d.mul(n2))
        if k == z3.Z3_OP_TO_REAL:
            x = t.arg(0)
            kk = x.decl().kind()
            if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                ch = [z3.ToReal(c) if T.is_t(T.conc(c)) else z3.RealVal(T.conc(c)) for c in x.children()]
                if kk == z3.Z3_OP_MUL:
                    y = ch[0]
                    for c in ch[1:]:
                        y = y * c
                elif kk == z3.Z3_OP_ADD:
                    y = z3.Sum(ch)
                elif kk == z3.Z3_OP_SUB:
                    y = ch[0]
                    for c in ch[1:]:
                        y = y - c
                else:
                    y = -ch[0]
                return self.rat(y)
            if self.sub is not None:
                t = z3.ToReal(self.sub(x))
                if not t.arg(0).eq(x):
                    return self.rat(t)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() not in ("sqrt", "sin", "cos"):
            ch = [glin().tr(c) if c.sort() == T.I else c for c in t.children()]
            t = t.decl()(*ch)
        return self.L.atom(t), one

    def plus(self, n, d, n2, d2, f):
        if d.m == d2.m:
            return n.add(n2, f), d
        return self.red(n.mul(d2).add(n2.mul(d), f)), self.red(d.mul(d2))

    def red(self, p):
        """rewrite squares of sqrt / sin atoms"""
        for _ in range(12):
            changed = False
            m = Poly()
            for k, c in p.m.items():
                rep = None
                for a in set(k):
                    if k.count(a) >= 2:
                        t = self.L.atoms[a]
                        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                            nm = t.decl().name()
                            if nm == "sqrt":
                                x = t.arg(0)
                                if self.pr(x >= 0):
                                    n, d = self.rat(x)
                                    if d.is_const():
                                        rep = (a, n.scale(1 / d.c()))
                                        break
                            elif nm == "sin":
                                cp = self.L.atom(T.COS(t.arg(0)))
                                rep = (a, Poly.const(1).add(cp.mul(cp), -1))
                                break
                if rep is None:
                    m = m.add(Poly({k: c}))
                else:
                    a, q = rep
                    rest = list(k)
                    rest.remove(a)
                    rest.remove(a)
                    m = m.add(Poly({tuple(rest): c}).mul(q))
                    changed = True
            p = m
            if not changed:
                return p
        return p

    def equal(self, a, b):
        n1, d1 = self.rat(a)
        n2, d2 = self.rat(b)
        diff = self.red(n1.mul(d2).add(n2.mul(d1), -1))
        if diff.m:
            return False
        for d in self.dens:
            if not self.pr(d != 0):
                return False
        return True


_HASDIV = {}


def has_div(t):
    """a real division by a non-constant, outside quantifiers"""
    i = t.get_id()
    r = _HASDIV.get(i)
    if r is None:
        r = False
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_DIV and T.is_t(T.conc(t.arg(1))):
                r = True
            else:
                r = any([has_div(c) for c in kids(t)])
        _HASDIV[i] = r
        KEEP.append(t)
    return r


RDIV = z3.Function("rdiv", T.R, T.R, T.R)
ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV)


class Fractions:
    """quotients with a provably nonzero denominator in one normal form: exact
    polynomial quotients are carried out, floor(n/d) of integers becomes n div d,
    what remains is rdiv(n, d) with n = d*rdiv(n, d)"""

    def __init__(self, pc):
        self.pc = [p for p in pc if not isinstance(p, Univ) and not has_div(p)]
        self.memo = {}
        self.nz = {}

    def nonzero(self, d):
        i = d.get_id()
        r = self.nz.get(i)
        if r is None:
            r = quick_false(self.pc, d == 0) or (prove(self.pc, d > 0, 3, 1200, True)[0] == "proved") or prove(self.pc, d != 0, 3, 1200, True)[0] == "proved"
            self.nz[i] = r
        return r

    def go(self, t):
        if not has_div(t):
            return t
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self._go(t)
            KEEP.append((t, r))
        return r

    def _go(self, t):
        k = t.decl().kind()
        if t.sort() == T.R and k in ARITH:
            r = self.frac(t)
            if r is not None:
                return r
        if k == z3.Z3_OP_TO_INT:
            q = self.frac(t.arg(0), parts=True)
            if q is not None:
                r = self.floor(*q)
                if r is not None:
                    return r
        ch = [self.go(c) for c in kids(t)]
        if k == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        return rebuild_app(t, ch)

    def frac(self, t, parts=False):
        rt = Rat(lambda f: prove(self.pc, f, 3, 800, True)[0] == "proved")
        rt.L = glin()
        rt.sub = self.go
        try:
            n, d = rt.rat(t)
        except Budget:
            return None
        for x in rt.dens:
            if not self.nonzero(x):
                return None
        L = rt.L
        n, d = canon_frac(n, d)
        q = exact_div(n, d)
        if q is not None:
            n, d = q, Poly.const(1)
        if parts:
            return n, d, L
        if d.is_const():
            return real_term(n.scale(1 / d.c()), L)
        return RDIV(real_term(n, L), real_term(d, L))

    def floor(self, n, d, L):
        ni, di = int_term(n, L), int_term(d, L)
        if ni is None or di is None:
            return None
        c = 1
        for p in (n, d):
            for x in p.m.values():
                c = c * x.denominator // __import__("math").gcd(c, x.denominator)
        ni, di = int_term(n.scale(c), L), int_term(d.scale(c), L)
        dv = T.conc(di)
        if not T.is_t(dv) and dv == 1:
            return ni
        r = T.idiv(T.conc(ni), dv)
        return T.tz(r)


def rebuild_app(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return t.decl()(*ch)


def canon_frac(n, d):
    """scaled so that the first monomial of d has coefficient 1"""
    if not d.m:
        raise Budget("zero denominator")
    k = min(d.m, key=lambda m: (-len(m), m))
    c = d.m[k]
    return n.scale(1 / c), d.scale(1 / c)


def lead(p):
    return max(p.m, key=lambda m: (len(m), m))


def exact_div(n, d):
    """polynomial quotient n/d if there is no remainder"""
    if d.is_const():
        return n.scale(1 / d.c())
    q = Poly()
    ld = lead(d)
    for _ in range(60):
        if not n.m:
            return q
        ln = lead(n)
        rest = list(ln)
        for a in ld:
            if a not in rest:
                return None
            rest.remove(a)
        f = Poly({tuple(rest): n.m[ln] / d.m[ld]})
        q = q.add(f)
        n = n.add(f.mul(d), -1)
    return None


def real_term(p, L):
    ts = []
    for k, c in sorted(p.m.items()):
        t = z3.RealVal(str(c))
        for a in k:
            x = L.atoms[a]
            t = (z3.ToReal(x) if x.sort() == T.I else x) if z3.is_rational_value(t) and c == 1 else t * (z3.ToReal(x) if x.sort() == T.I else x)
            c = 0
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def int_term(p, L):
    """the polynomial over integer atoms (coefficients may be fractions: None if an atom is real)"""
    ts = []
    for k, c in sorted(p.m.items()):
        t = z3.IntVal(int(c)) if c.denominator == 1 else z3.IntVal(1)
        for a in k:
            x = L.atoms[a]
            if x.sort() == T.R:
                if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL):
                    return None
                x = x.arg(0)
            t = x if z3.is_int_value(t) and t.as_long() == 1 else t * x
        ts.append(t)
    if not ts:
        return z3.IntVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


# ------------------------------------------------------------------ main entry
def _run_z3(fs, timeout, want_model=False, nl=False):
    s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
    s.set("timeout", int(timeout * SCALE))
    for f in fs:
        s.add(f)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_s"] += time.time() - t0
    if r == z3.sat and want_model:
        try:
            return "sat", s.model()
        except z3.Z3Exception:
            return "unknown", None
    return str(r), None


def _run_cvc5(fs, timeout):
    import cvc5
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        tm = cvc5.TermManager()
        sl = cvc5.Solver(tm)
        sl.setOption("tlimit-per", str(int(timeout)))
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(sl, sm)
            o = str(o).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception as e:  # parse trouble etc.: no verdict
        return "unknown"
    finally:
        STATS["cvc5_s"] += time.time() - t0


class Ctx:
    """one proof attempt with recursion control"""

    def __init__(self, depth=0):
        self.depth = depth


def _split_goal(pc, goal):
    """move antecedents of the goal into pc; returns list of (pc, goal)"""
    goal = T.tz(goal)
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out.extend(_split_goal(pc, c))
        return out
    if z3.is_implies(goal):
        return _split_goal(pc + _conj(goal.arg(0)), goal.arg(1))
    if z3.is_or(goal):
        ch = goal.children()
        # (not a) or b
        pos = [c for c in ch if not z3.is_not(c)]
        negs = [c.arg(0) for c in ch if z3.is_not(c)]
        if len(pos) == 1 and negs:
            p2 = list(pc)
            for n in negs:
                p2 += _conj(n)
            return _split_goal(p2, pos[0])
    return [(pc, goal)]


def _conj(t):
    if z3.is_and(t):
        out = []
        for c in t.children():
            out.extend(_conj(c))
        return out
    return [t]


def _key(pc, goal):
    ids = tuple(sorted(set(p.get_id() if z3.is_expr(p) else id(p) for p in pc)))
    return ids, goal.get_id()


def instantiate(pc, ts):
    """plain hypotheses + instances of universal ones at the ground int terms of ts"""
    plain = [p for p in pc if not isinstance(p, Univ)]
    us = [p for p in pc if isinstance(p, Univ) and not isinstance(p, FunAx)]
    fa = [p for p in pc if isinstance(p, FunAx)]
    if not us and not fa:
        return plain
    out = list(plain)
    if us or any(isinstance(f, WitAx) for f in fa):
        cands = {}
        for t in collect(list(ts) + plain):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                for c in t.children():
                    if c.sort() == T.I and not has_var(c):
                        cands[c.get_id()] = c
            elif z3.is_const(t) and t.sort() == T.I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                cands[t.get_id()] = t
        cl = list(cands.values())
        # terms of the goal first
        gids = {t.get_id() for t in collect(list(ts))}
        cl.sort(key=lambda c: c.get_id() not in gids)
        for u in us:
            ar = max(1, u.arity)
            lim = {1: 14, 2: 9, 3: 5}.get(ar, 3)
            for cs in itertools.product(cl[:lim], repeat=ar):
                x = T.conc(u.fn(*cs))
                if T.is_t(x):
                    out.append(x)
    if fa:
        by = {}
        for f in fa:
            by.setdefault(f.name, []).append(f)
        seen = set()
        work = collect(list(ts) + out)
        for _ in range(3):
            new = []
            for t in work:
                if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    continue
                i = t.get_id()
                if i in seen or has_var(t):
                    continue
                seen.add(i)
                for f in by.get(t.decl().name(), ()):
                    x = T.conc(f.at(t.children(), cl[:10]) if isinstance(f, WitAx) else f.at(t.children()))
                    if x is not None and T.is_t(x):
                        new.append(x)
            if not new or len(out) > 400:
                break
            KEEP.extend(new)
            out.extend(new)
            work = collect(new)
    return out


def ext_lemmas(pc, goal, depth):
    """equalities between functional terms whose arguments are provably equal"""
    plain = [p for p in pc if not isinstance(p, Univ)]
    gsub = functionals(goal)
    psub = [t for f in plain for t in functionals(f)]
    allf = {}
    for t in gsub + psub:
        allf.setdefault(t.decl().name(), {})[t.get_id()] = t
    gids = {t.get_id() for t in gsub}
    lem = []
    for nm, g in allf.items():
        l = list(g.values())
        for a, b in itertools.combinations(l, 2):
            if a.get_id() not in gids and b.get_id() not in gids:
                continue
            if len(lem) > 30:
                break
            if functional_equal(pc, a, b, depth):
                lem.append(a == b)
                STATS["ext"] += 1
    # congruence on sqrt / atan2 etc. with provably equal real arguments
    return lem


_FEQ = {}


def functional_equal(pc, a, b, depth):
    if depth > 4:
        return False
    key = (a.get_id(), b.get_id(), depth, tuple(sorted(p.get_id() if z3.is_expr(p) else id(p) for p in pc)))
    if key not in _FEQ:
        KEEP.extend([a, b, list(pc)])
        _FEQ[key] = _functional_equal(pc, a, b, depth)
    return _FEQ[key]


def canon(t):
    """And/Or flattened, with their parts in a fixed order (only to compare two terms)"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_var(x):
            r = "v%d" % z3.get_var_index(x)
        elif z3.is_quantifier(x):
            r = "l%d(%s)" % (x.num_vars(), go(x.body()))
        elif not x.num_args():
            r = x.sexpr()
        else:
            if z3.is_and(x) or z3.is_or(x):
                k = x.decl().kind()
                st, cs = x.children(), []
                while st:
                    y = st.pop()
                    if z3.is_app(y) and y.decl().kind() == k:
                        st.extend(y.children())
                    else:
                        cs.append(go(y))
                cs = sorted(set(cs))
            else:
                cs = [go(c) for c in x.children()]
                if z3.is_add(x) or z3.is_mul(x) or z3.is_eq(x):
                    cs = sorted(cs)
            r = "(%s %s)" % (x.decl().name(), " ".join(cs))
        if len(r) > 200:
            r = _sym(r)
        memo[i] = r
        return r
    return go(t)


_SYM = {}


def _sym(r):
    return "#%d" % _SYM.setdefault(r, len(_SYM))


def _functional_equal(pc, a, b, depth):
    n = a.num_args()
    nd = 0
    for i in range(n):
        if z3.is_quantifier(a.arg(i)) or a.arg(i).sort_kind() == z3.Z3_ARRAY_SORT:
            break
        nd += 1
    for i in range(n):
        x, y = a.arg(i), b.arg(i)
        if i == nd:
            continue
        if x.eq(y):
            continue
        if prove(pc, x == y, depth=depth + 1, timeout=1500, lemma=True)[0] != "proved":
            return False
    la, lb = a.arg(nd), b.arg(nd)
    if la.eq(lb):
        return True
    if not (z3.is_quantifier(la) and z3.is_quantifier(lb)):
        return False
    if canon(la) == canon(lb):
        return True
    ks = [z3.Const("xk!%d_%d" % (depth, i), T.I) for i in range(nd)]
    rng = [z3.And(k >= 0, k < a.arg(i)) for i, k in enumerate(ks)]
    ba = z3.substitute_vars(la.body(), *reversed(ks))
    bb = z3.substitute_vars(lb.body(), *reversed(ks))
    if ba.eq(bb) or canon(ba) == canon(bb):
        return True
    if prove(pc + rng, ba == bb, depth=depth + 1, timeout=3000, lemma=True)[0] == "proved":
        return True
    return False


def fubini_lemmas(ts):
    """SUM_k SUM_l f = SUM_l SUM_k f for nested sums with independent bounds"""
    out = []
    for t in collect(ts):
        if T.is_functional(t) and t.decl().name().startswith("FN_SUM_1_0") and z3.is_quantifier(t.arg(1)) and not has_var(t):
            k = z3.FreshConst(T.I, "fk")
            body = z3.substitute_vars(t.arg(1).body(), k)
            if T.is_functional(body) and body.decl().name().startswith("FN_SUM_1_0") and z3.is_quantifier(body.arg(1)):
                m = body.arg(0)
                if T.contains(m, {k.decl().name()}):
                    continue
                l = z3.FreshConst(T.I, "fl")
                inner = z3.substitute_vars(body.arg(1).body(), l)
                t2 = T.apply_functional("SUM", [m], lambda lv: T.apply_functional("SUM", [t.arg(0)], lambda kv: z3.substitute(inner, (l, lv), (k, kv))))
                if not t2.eq(t):
                    out.append((t, t2))
    return out


_FUNS, _ABS = {}, {}


def functionals(f):
    """ground functional terms of a formula, memoised"""
    i = f.get_id()
    r = _FUNS.get(i)
    if r is None:
        r = [t for t in collect([f]) if T.is_functional(t) and not has_var(t)]
        _FUNS[i] = r
        KEEP.append(f)
    return r


def abstract_functionals(fs):
    m, out = {}, []
    for f in fs:
        l = functionals(f)
        if not l:
            out.append(f)
            continue
        # outermost first: substitute simultaneously (z3.substitute replaces outermost match)
        pairs = []
        for t in l:
            c = z3.Const("fn!%d" % t.get_id(), t.sort())
            m[c.decl().name()] = t
            pairs.append((t, c))
        g = _ABS.get(f.get_id())
        if g is None:
            g = _ABS[f.get_id()] = z3.substitute(f, *pairs)
        out.append(g)
    return out, m


def sum_axioms(fs):
    """small facts about sums: empty sum, one-term sum, nonnegativity of counts"""
    out = []
    for t in [t for f in fs for t in functionals(f)]:
        if t.decl().name().startswith("FN_SUM_1_0_Real") and z3.is_quantifier(t.arg(1)):
            n = t.arg(0)
            body0 = z3.substitute_vars(t.arg(1).body(), z3.IntVal(0))
            out.append(z3.Implies(n <= 0, t == 0))
            out.append(z3.Implies(n == 1, t == body0))
    return out


_NORM = {}
CMP = (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


def norm_divs(t):
    """carry out divisions by numbers, and the comparisons and branches this decides"""
    def go(x):
        i = x.get_id()
        r = _NORM.get(i)
        if r is not None:
            return r[0], r[2]
        ch = False
        if z3.is_quantifier(x) or not z3.is_app(x) or not x.num_args():
            y = x
        else:
            cs = []
            for c in kids(x):
                d, b = go(c)
                ch = ch or b
                cs.append(d)
            k = x.decl().kind()
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(cs[1]) and cs[1].as_long() > 0:
                d = T._divmod_const(cs[0], cs[1].as_long())
                if d is not None:
                    y, ch = T.tz(d[0 if k == z3.Z3_OP_IDIV else 1]), True
                else:
                    y = x.decl()(*cs) if ch else x
            elif not ch:
                y = x
            elif k in CMP and cs[0].sort() == T.I:
                y = x.decl()(*cs)
                z = z3.simplify(y)
                if z3.is_true(z) or z3.is_false(z):
                    y = z
            elif k == z3.Z3_OP_ITE:
                y = cs[1] if z3.is_true(cs[0]) else cs[2] if z3.is_false(cs[0]) else x.decl()(*cs)
            elif k == z3.Z3_OP_AND:
                y = T.tz(T.and_(*[T.conc(c) for c in cs]))
            elif k == z3.Z3_OP_OR:
                y = T.tz(T.or_(*[T.conc(c) for c in cs]))
            elif k == z3.Z3_OP_NOT:
                y = T.tz(T.not_(T.conc(cs[0])))
            elif z3.is_add(x):
                y = T.conc(z3.Sum(cs))
                y = T.tz(y)
            elif z3.is_mul(x):
                y = z3.Product(cs)
            else:
                y = x.decl()(*cs)
        _NORM[i] = (y, x, ch)
        return y, ch
    y, ch = go(t)
    return y if ch else t


def prove(pc, goal, depth=0, timeout=8000, lemma=False, want_model=False):
    """-> (status, model_or_reason, backend); status in proved/refuted/unknown"""
    check_deadline()
    goal = T.conc(goal)
    if goal is True:
        return "proved", None, "syntactic"
    if goal is False:
        goal = z3.BoolVal(False)
    elif not T.is_t(goal):
        return ("proved", None, "syntactic") if goal else prove(pc, z3.BoolVal(False), depth, timeout, lemma, want_model)
    goal = T.conc(norm_divs(goal))
    if goal is True:
        return "proved", None, "syntactic"
    goal = T.tz(goal)
    parts = _split_goal(list(pc), goal)
    if len(parts) > 1:
        worst = ("proved", None, "z3")
        for p, g in parts:
            r = prove(p, g, depth, timeout, lemma, want_model)
            if r[0] != "proved":
                return r
            worst = r
        return worst
    pc, goal = parts[0]
    if z3.is_true(goal):
        return "proved", None, "syntactic"
    key = _key(pc, goal) + (want_model,)
    if key in CACHE:
        return CACHE[key]
    KEEP.append(goal)
    KEEP.append(list(pc))
    r = _prove(pc, goal, depth, timeout, lemma, want_model)
    CACHE[key] = r
    return r


def settle_witnesses(pc, goal, depth):
    """replace the iteration named by a witness function by the int term it is equal to
    (proved), then drop the ite branches decided by the hypotheses"""
    for _ in range(3):
        done = False
        for f in [p for p in pc if isinstance(p, WitAx)]:
            for t in [x for x in collect_all([goal]) if z3.is_app(x) and x.decl().name() == f.name and not has_var(x)]:
                plain = [p for p in pc if not isinstance(p, WitAx)]
                ks = {}
                for x in collect([goal] + [p for p in plain if not isinstance(p, Univ)]):
                    if z3.is_const(x) and x.sort() == T.I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(x.eq(a) for a in t.children()):
                        ks[x.decl().name()] = x
                ks = sorted(ks.values(), key=lambda x: (not x.decl().name().startswith("i!"), "!" not in x.decl().name(), x.decl().name()))
                inst = T.subst(f.fact, list(zip(f.params, t.children())))
                for c in ks[:6]:
                    eq = t == c
                    ante = T.subst(inst, [(f.k, c)])
                    if opaque_unsat([p for p in plain if not isinstance(p, Univ)] + [ante, z3.Not(eq)], 600):
                        goal = T.tz(z3.substitute(goal, (t, c)))
                        done = True
                        break
                if done:
                    break
            if done:
                break
        if not done:
            break
    else:
        return goal
    return goal


def collect_all(ts):
    """all sub-terms, also under binders"""
    seen = {}
    st = list(ts)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(kids(x))
    return list(seen.values())


def decide_ites(pc, goal, depth, limit=12):
    """drop ite branches decided by the hypotheses"""
    tried = set()
    for _ in range(limit):
        c = None
        for x in collect([goal]):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not has_var(x) and x.arg(0).get_id() not in tried and T.is_t(T.conc(x.arg(0))):
                g = x.arg(0)
                if c is None or len(collect([g])) < len(collect([c])):
                    c = g
        if c is None:
            return goal
        tried.add(c.get_id())
        KEEP.append(c)
        for v in (True, False):
            if opaque_unsat([p for p in pc if not isinstance(p, Univ)] + [z3.Not(c) if v else c], 400):
                goal = z3.substitute(goal, (c, z3.BoolVal(v)))
                goal = T.tz(T.conc(drop_ite(goal)))
                break
        if not T.is_t(T.conc(goal)) or z3.is_true(goal) or z3.is_false(goal):
            return goal
    return goal


def drop_ite(t):
    """fold ites with a constant condition (nothing else is rewritten)"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_quantifier(x) or not z3.is_app(x) or x.num_args() == 0:
            r = x
        elif x.decl().kind() == z3.Z3_OP_ITE:
            c = go(x.arg(0))
            r = go(x.arg(1)) if z3.is_true(c) else go(x.arg(2)) if z3.is_false(c) else None
            if r is None:
                r = x.decl()(c, go(x.arg(1)), go(x.arg(2)))
        else:
            ch = [go(c) for c in kids(x)]
            r = x if all(a.eq(b) for a, b in zip(ch, kids(x))) else z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else x.decl()(*ch)
            if r is not x and (z3.is_and(x) or z3.is_or(x) or z3.is_not(x)):
                r = T.tz(T.conc(z3.simplify(r))) if all(z3.is_true(c) or z3.is_false(c) for c in ch) else r
        memo[i] = (r, x)
        return r
    return go(t)


def unify_indices(pc, goal, depth):
    """goal with its integer sub-expressions (indices) named by constants, the same one
    (plus a number) for those that are provably equal; None when there are none"""
    def complex_int(x):
        return any(z3.is_app(y) and (y.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV) or y.decl().name() == "ediv") for y in collect([x]))

    def split(x):
        """(base, offset)"""
        if z3.is_add(x):
            off, rest = 0, []
            for c in kids(x):
                if z3.is_int_value(c):
                    off += c.as_long()
                else:
                    rest.append(c)
            return (z3.Sum(rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(0)), off
        return x, 0
    reps, names = [], {}

    def name(x):
        b, off = split(x)
        i = b.get_id()
        if i not in names:
            KEEP.append(b)
            for r, c in reps:
                for d in (0, 1, -1):
                    if prove(pc, b == r + d if d else b == r, depth + 1, 700, True)[0] == "proved":
                        names[i] = (c, d)
                        break
                if i in names:
                    break
            else:
                c = z3.FreshConst(T.I, "ai")
                reps.append((b, c))
                names[i] = (c, 0)
        c, d = names[i]
        d += off
        return c + d if d else c
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(x) or not z3.is_app(x) or not x.num_args():
            r = x
        elif x.sort() == T.I and not (x.decl().kind() in ARITH and x.decl().kind() != z3.Z3_OP_DIV):
            r = name(x) if complex_int(x) else x
        else:
            ch = [go(c) for c in kids(x)]
            r = x if all(a.eq(b) for a, b in zip(ch, kids(x))) else z3.Sum(ch) if z3.is_add(x) else z3.Product(ch) if z3.is_mul(x) else z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else x.decl()(*ch)
        memo[i] = r
        return r
    ts = {}
    for x in collect([goal]):
        if x.sort() == T.I and complex_int(x) and not has_var(x):
            ts[x.get_id()] = x
    if not ts or len(ts) > 60:
        return None
    goal = decide_reals(pc, goal)
    if not z3.is_eq(goal):
        return None
    g = go(goal)
    return None if g.eq(goal) or not z3.is_eq(g) else g


def decide_reals(pc, goal):
    """drop the branches of real-valued ites that the hypotheses decide at once"""
    tried = set()
    for _ in range(12):
        c = None
        for x in collect([goal]):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() == T.R and not has_var(x) and x.arg(0).get_id() not in tried:
                c = x.arg(0)
                break
        if c is None:
            return goal
        tried.add(c.get_id())
        KEEP.append(c)
        hy = [p for p in pc if not isinstance(p, Univ)]
        for v in (True, False):
            if opaque_unsat(hy + [z3.Not(c) if v else c], 400):
                goal = T.tz(T.conc(drop_ite(z3.substitute(goal, (c, z3.BoolVal(v))))))
                break
        if not z3.is_app(goal) or not z3.is_eq(goal):
            return goal
    return goal


HARD = ("sqrt", "atan2", "rmod", "sin", "cos", "exp", "log", "pow", "emod", "ediv")


def opaque_unsat(fs, timeout=250):
    """a quick attempt: applications of uninterpreted functions are taken as unknown numbers"""
    memo = {}
    extra = []
    subs = collect(fs)
    for x in subs:
        if z3.is_app(x) and x.num_args() and not has_var(x):
            nm = x.decl().name()
            if nm == "sqrt":
                extra.append(x >= 0)
            elif nm == "ediv":
                n, d = x.children()
                extra.append(z3.Implies(d > 0, z3.And(x * d <= n, n < x * d + d)))
                cs = {}
                for y in subs:
                    if z3.is_mul(y) and any(c.eq(d) for c in y.children()):
                        for c in y.children():
                            if c.sort() == T.I and z3.is_const(c) and not z3.is_int_value(c):
                                cs[c.get_id()] = c
                for c in list(cs.values())[:6]:
                    extra.append(z3.Implies(d > 0, z3.And(z3.Implies(c >= x, c * d >= x * d), z3.Implies(c < x, c * d <= x * d - d))))

    def go(x, prod):
        i = x.get_id(), prod
        if i in memo:
            return memo[i][0]
        if z3.is_quantifier(x) or not z3.is_app(x) or x.num_args() == 0:
            r = x
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() in (T.I, T.R, T.Bo):
            r = z3.Const("opq!%d" % x.get_id(), x.sort())
        else:
            ch = [go(c, prod) for c in kids(x)]
            if prod and z3.is_mul(x):
                nums = [c for c in ch if z3.is_int_value(c) or z3.is_rational_value(c)]
                rest = sorted((c for c in ch if not (z3.is_int_value(c) or z3.is_rational_value(c))), key=lambda c: c.get_id())
                KEEP.extend(rest)
                if len(rest) > 1:
                    ch = nums + [z3.Const("opm!" + "_".join(str(c.get_id()) for c in rest), x.sort())]
                r = z3.Product(ch) if len(ch) > 1 else ch[0]
            else:
                r = x if all(a.eq(b) for a, b in zip(ch, kids(x))) else z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else z3.Sum(ch) if z3.is_add(x) else z3.Product(ch) if z3.is_mul(x) else z3.Distinct(*ch) if z3.is_distinct(x) else x.decl()(*ch)
        memo[i] = (r, x)
        return r
    for prod in ((True, False) if extra else (False,)):
        try:
            out = [go(f, prod) for f in list(fs) + extra]
        except z3.Z3Exception:
            return False
        if _run_z3(out, timeout)[0] == "unsat":
            return True
    return False


def _prove(pc, goal, depth, timeout, lemma, want_model):
    STATS["queries"] += 1
    if any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in HARD or T.is_functional(x)) for x in collect([goal] if not z3.is_false(goal) else [p for p in pc if not isinstance(p, Univ)])):
        if opaque_unsat([p for p in pc if not isinstance(p, Univ)] + [z3.Not(goal)]):
            return "proved", None, "z3"
    if depth == 0 and not lemma and any(isinstance(p, WitAx) for p in pc):
        names = {p.name for p in pc if isinstance(p, WitAx)}
        if any(z3.is_app(x) and x.decl().name() in names for x in collect_all([goal])):
            g2 = decide_ites(pc, settle_witnesses(pc, goal, depth), depth)
            if not g2.eq(goal):
                return prove(pc, g2, 1, timeout, lemma, want_model)
    fr = None
    if has_div(goal) and z3.is_eq(goal) and goal.arg(0).sort() == T.R:
        try:
            rt = Rat(lambda f: prove(pc, f, 3, 500, True)[0] == "proved") if depth < 3 else None
            if rt is not None and rt.equal(goal.arg(0), goal.arg(1)):
                return "proved", None, "algebra"
            if rt is not None and depth == 0:
                g2 = unify_indices(pc, goal, depth)
                if g2 is not None:
                    rt = Rat(lambda f: prove(pc, f, 3, 500, True)[0] == "proved")
                    if rt.equal(g2.arg(0), g2.arg(1)):
                        return "proved", None, "algebra"
        except (Budget, z3.Z3Exception):
            pass
    if depth < 3 and (has_div(goal) or any(not isinstance(p, Univ) and has_div(p) for p in pc)):
        fr = Fractions(pc)
        goal = fr.go(goal)
        v = T.conc(goal)
        if v is True:
            return "proved", None, "algebra"
        goal = T.tz(v)
    # 0. algebraic identity
    if z3.is_eq(goal) and goal.arg(0).sort() in (T.R,):
        a, b = goal.arg(0), goal.arg(1)
        if a.eq(b):
            return "proved", None, "syntactic"
        r = struct_eq(pc, a, b, depth)
        if r:
            return "proved", None, "z3"
        try:
            rt = Rat(lambda f: prove(pc, f, depth + 2, 1000, True)[0] == "proved")
            if rt.equal(a, b):
                return "proved", None, "algebra"
        except (Budget, z3.Z3Exception):
            pass
    if any(isinstance(p, Univ) and not isinstance(p, FunAx) for p in pc):
        # first without instances of the universal hypotheses
        r = _prove([p for p in pc if not isinstance(p, Univ) or isinstance(p, FunAx)], goal, depth, min(timeout, 1500), True, False)
        if r[0] == "proved":
            return r
    ng = z3.Not(goal)
    hyps = instantiate(pc, [goal])
    if fr is not None:
        hyps = [fr.go(h) for h in hyps]
    fs = hyps + [ng]
    hasfun = bool(functionals(goal))
    ext = []
    if hasfun and depth < 4:
        for t, t2 in fubini_lemmas([goal]):
            ext.append(t == t2)
        ext += ext_lemmas(pc, z3.And(goal, *ext) if ext else goal, depth)
    fs = fs + ext
    fs = fs + sum_axioms(fs)
    fs, fmap = abstract_functionals(fs)
    ax = ground_axioms(fs)
    fs = fs + ax
    nonlin = any(n in ("ediv", "emod") for f in fs for _i, n, _t in apps(f))
    # 1. linearised with lemmas
    try:
        el = euclid_lemmas(fs) if nonlin else []
        f2 = fs + el
        if el:
            f2 = f2 + ground_axioms(el)
        r = lin_solve([ng] + [f for f in fs if f is not ng], min(timeout, 4000), extra=f2[len(fs):])
        L = glin()
        isnl = any(L.mons_of(L.tr(f)) for f in f2)
        if r == "unsat":
            return "proved", None, "z3"
    except Budget:
        isnl = True
        r = "unknown"
    if lemma and not want_model and r == "sat" and not isnl:
        return "refuted", None, "z3"
    if lemma and isnl is False and r == "unknown":
        return "unknown", "timeout", "z3"
    # 2. native nonlinear
    nf = native_divs(fs)
    c = None if lemma else ite_guard(goal)
    r2, m2 = _run_z3(nf, min(timeout, 500) if lemma else min(timeout, 1000) if c is not None else timeout, want_model=True)
    if r2 == "unsat":
        return "proved", None, "z3"
    if r2 == "sat":
        return "refuted", (m2, fmap), "z3"
    if lemma:
        return "unknown", "timeout", "z3"
    if c is not None:
        # case split on an ite guard of the goal
        worst = ("proved", None, "z3")
        for cc, v in ((c, True), (z3.Not(c), False)):
            if T.conc(z3.simplify(cc)) is False or not feasible(pc, cc):
                continue
            g = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(v))))
            r = prove(list(pc) + [cc], g, depth, timeout, lemma, want_model)
            if r[0] == "refuted":
                return r
            if r[0] != "proved":
                worst = r
                break
        if worst[0] == "proved":
            return worst
        if depth > 0:
            return worst
        r2, m2 = _run_z3(nf, timeout, want_model=True)
        if r2 == "unsat":
            return "proved", None, "z3"
        if r2 == "sat":
            return "refuted", (m2, fmap), "z3"
    r3 = _run_cvc5(nf, timeout)
    if r3 == "unsat":
        return "proved", None, "cvc5"
    return "unknown", "z3 %s, cvc5 %s" % (r2, r3), "z3+cvc5"


_ITE = {}


def has_ite(t):
    """does t contain an ite (outside binders)? memoised"""
    r = _ITE.get(t.get_id())
    if r is not None:
        return r[1]
    st = [(t, None)]
    while st:
        x, it = st.pop()
        i = x.get_id()
        if i in _ITE:
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            _ITE[i] = (x, True)
            continue
        ch = kids(x)
        if it is None:
            st.append((x, 1))
            st.extend((c, None) for c in ch if c.get_id() not in _ITE)
        else:
            _ITE[i] = (x, any(_ITE[c.get_id()][1] for c in ch))
    return _ITE[t.get_id()][1]


def ite_guard(t):
    """a ground ite condition of t that contains no other ite"""
    best = None
    done = set()
    for x in collect([t]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not has_var(x):
            c = x.arg(0)
            if c.get_id() in done:
                continue
            done.add(c.get_id())
            if T.is_t(T.conc(c)) and not has_ite(c):
                sz = len(collect([c]))
                if best is None or sz < best[0]:
                    best = (sz, c)
    return best[1] if best else None


def struct_eq(pc, a, b, depth):
    """a == b by proving the arguments of the same outermost uninterpreted
    function equal (sqrt(x)==sqrt(y) if x==y, F(i,j)==F(k,l) if i==k, j==l, ...)"""
    if depth > 5:
        return False
    if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() > 0:
        k = a.decl().kind()
        if T.is_functional(a):
            return functional_equal(pc, a, b, depth)
        if k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_DIV:
            for x, y in zip(a.children(), b.children()):
                if x.eq(y):
                    continue
                if prove(pc, x == y, depth + 1, 2000, True)[0] != "proved":
                    return False
            return True
    return False


_BND = {}


def bound_fact(f):
    """(term id, lower bound) of a hypothesis t >= c, memoised; None otherwise"""
    i = f.get_id()
    r = _BND.get(i, 0)
    if r != 0:
        return r
    r = None
    g, neg = f, False
    if z3.is_not(g):
        g, neg = g.arg(0), True
    if z3.is_app(g) and g.num_args() == 2 and g.arg(0).sort() == T.I:
        k = g.decl().kind()
        a, b = g.arg(0), g.arg(1)
        if not T.is_t(T.conc(a)):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT}[k]
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            c = T.conc(b)
            if not T.is_t(c):
                r = (a.get_id(), c + (1 if k == z3.Z3_OP_GT else 0))
        elif k == z3.Z3_OP_EQ and not neg:
            c = T.conc(b)
            if not T.is_t(c):
                r = (a.get_id(), c)
    _BND[i] = r
    KEEP.append(f)
    return r


def low_bound(t, lbs, depth=0):
    """a syntactic lower bound of an integer term, or None"""
    v = T.conc(t)
    if not T.is_t(v):
        return v
    b = lbs.get(t.get_id())
    if b is not None:
        return b
    if depth > 12 or not z3.is_app(t):
        return None
    r = _low_struct(t, lbs, depth)
    if r is None and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_IDIV):
        try:
            L = glin()
            p = L.poly(t)
            r = 0
            for mk, c in p.m.items():
                if mk == ():
                    r += c
                    continue
                if c < 0:
                    return None
                v = 1
                for a in mk:
                    x = _low_struct(L.atoms[a], lbs, depth + 1) if L.atoms[a].num_args() else None
                    if x is None:
                        x = lbs.get(a)
                    if x is None or x < 0:
                        return None
                    v *= x
                r += c * v
            r = int(r)
        except Budget:
            return None
    return r


def _low_struct(t, lbs, depth):
    k = t.decl().kind()
    if k == z3.Z3_OP_IDIV:
        c = T.conc(t.arg(1))
        if not T.is_t(c) and c > 0:
            a = low_bound(t.arg(0), lbs, depth + 1)
            return None if a is None else a // c
        return None
    if k == z3.Z3_OP_MOD:
        c = T.conc(t.arg(1))
        return 0 if not T.is_t(c) and c > 0 else None
    if k == z3.Z3_OP_ADD:
        s = 0
        for c in kids(t):
            x = low_bound(c, lbs, depth + 1)
            if x is None:
                return None
            s += x
        return s
    if k == z3.Z3_OP_MUL:
        s = 1
        for c in kids(t):
            x = low_bound(c, lbs, depth + 1)
            if x is None or x < 0:
                return None
            s *= x
        return s
    if k == z3.Z3_OP_ITE:
        a, b = low_bound(t.arg(1), lbs, depth + 1), low_bound(t.arg(2), lbs, depth + 1)
        return None if a is None or b is None else min(a, b)
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 2:
        n = t.decl().name()
        if n in ("ediv", "emod"):
            d = low_bound(t.arg(1), lbs, depth + 1)
            if d is not None and d > 0:
                if n == "emod":
                    return 0
                a = low_bound(t.arg(0), lbs, depth + 1)
                if a is not None and a >= 0:
                    return 0
    return None


def quick_false(pc, cond):
    """cond contradicts the syntactic lower bounds of pc (t < c with t >= c known)"""
    lbs = None
    for c in _conj(cond):
        g, neg = c, False
        if z3.is_not(g):
            g, neg = g.arg(0), True
        if not (z3.is_app(g) and g.num_args() == 2 and g.arg(0).sort() == T.I):
            continue
        k = g.decl().kind()
        a, b = g.arg(0), g.arg(1)
        if not T.is_t(T.conc(a)):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
            k = {z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_EQ):
            continue
        v = T.conc(b)
        if T.is_t(v):
            continue
        if lbs is None:
            lbs = {}
            for f in pc:
                if isinstance(f, Univ):
                    continue
                r = bound_fact(f)
                if r is not None and lbs.get(r[0], r[1]) <= r[1]:
                    lbs[r[0]] = r[1]
        lo = low_bound(a, lbs)
        if lo is not None and (lo > v or (lo == v and k == z3.Z3_OP_LT)):
            return True
    return False


def forced_value(pc, t, small):
    """the value of t if the hypotheses force it to one of the small numbers"""
    for v in small:
        if not feasible(pc, T.tz(T.ne(t, v))):
            return v
    return None


def feasible(pc, cond, timeout=400):
    """False only if pc & cond is proved inconsistent"""
    check_deadline()
    cond = T.conc(cond)
    if cond is False:
        return False
    if T.is_t(cond) and quick_false(pc, cond):
        return False
    t0 = time.time()
    STATS["feas"] += 1
    g = z3.BoolVal(False)
    p = list(pc) + ([cond] if T.is_t(cond) else [])
    if T.is_t(cond):
        key = ("feas",) + _key(p, g)
        if key in CACHE:
            return CACHE[key]
        KEEP.append(p)
    else:
        key = None
    if any(isinstance(x, Univ) and not isinstance(x, FunAx) for x in p):
        if not feasible([x for x in p if not isinstance(x, Univ) or isinstance(x, FunAx)], True, timeout):
            if key is not None:
                CACHE[key] = False
            return False
    plist = [x for x in p if not isinstance(x, Univ)]
    fs = instantiate(p, [])
    fs, _ = abstract_functionals(fs)
    fs = fs + ground_axioms(fs)
    res = True
    if not fs:
        return True
    try:
        el = euclid_lemmas(fs)
        f2 = fs + el
        if el:
            f2 = f2 + ground_axioms(el)
        i = len(plist) - 1 if plist else 0
        r = lin_solve([fs[i]] + fs[:i] + fs[i + 1:], min(timeout, 250), rounds=6, extra=f2[len(fs):])
        if r == "unsat":
            res = False
    except Budget:
        pass
    STATS["feas_s"] += time.time() - t0
    if key is not None:
        CACHE[key] = res
    return res


def satisfiable(pc, extra=(), timeout=4000):
    """a model of pc if one is found"""
    fs = instantiate(list(pc) + list(extra), [])
    fs, fm = abstract_functionals(fs)
    fs = fs + ground_axioms(fs)
    r, m = _run_z3(native_divs(fs), timeout, want_model=True)
    return r, m
