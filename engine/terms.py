"""Term layer: smart constructors over z3 terms.

Scalars used by the interpreter are either concrete Python values (int, bool,
str, None, Fraction for a float) or z3 terms of sort Int / Real / Bool.
Floats are mathematical reals, Python ints mathematical integers.
"""
from fractions import Fraction
import z3

I, R, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()

PI = z3.Real("pi")            # symbolic constant, bounded in solver.py
EDIV = z3.Function("ediv", I, I, I)   # floor division, symbolic divisor
EMOD = z3.Function("emod", I, I, I)   # Python modulo, symbolic divisor
RMOD = z3.Function("rmod", R, R, R)   # Python float modulo
SQRT = z3.Function("sqrt", R, R)
F32 = z3.Function("f32", R, R)     # rounding to single precision
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)
ATAN2 = z3.Function("atan2", R, R, R)
EXP = z3.Function("exp", R, R)
POWF = z3.Function("powf", R, R, R)


def is_t(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (int, Fraction)) or (is_t(v) and v.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT, z3.Z3_BOOL_SORT))


def is_conc(v):
    return isinstance(v, (int, Fraction))


_ic = {}


def tz(v):
    """to a z3 term"""
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        r = _ic.get(v)
        if r is None:
            r = _ic[v] = z3.IntVal(v)
        return r
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise TypeError("not a scalar: %r" % (v,))


def conc(t):
    """z3 numeral -> Python value, else the term"""
    if not isinstance(t, z3.ExprRef):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def sortof(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, Fraction):
        return "r"
    k = v.sort().kind()
    return {z3.Z3_INT_SORT: "i", z3.Z3_REAL_SORT: "r", z3.Z3_BOOL_SORT: "b"}[k]


def toreal(v):
    s = sortof(v)
    if not is_t(v):
        return Fraction(int(v)) if s != "r" else v
    if s == "r":
        return v
    if s == "b":
        return ite(v, Fraction(1), Fraction(0))
    return z3.ToReal(v)


def toint_num(v):
    """bool -> int; ints unchanged"""
    s = sortof(v)
    if s == "b":
        return int(v) if not is_t(v) else ite(v, 1, 0)
    return v


def unify(a, b):
    sa, sb = sortof(a), sortof(b)
    if sa == "b":
        a = toint_num(a); sa = "i"
    if sb == "b":
        b = toint_num(b); sb = "i"
    if sa == sb:
        return a, b, sa
    return toreal(a), toreal(b), "r"


def is_zero(v):
    return is_conc(v) and v == 0


def is_one(v):
    return is_conc(v) and v == 1


def add(a, b):
    a, b, s = unify(a, b)
    if not is_t(a) and not is_t(b):
        return a + b
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    # constant folding of (x + c1) + c2
    if not is_t(b) and z3.is_add(a) and a.num_args() == 2:
        c = conc(a.arg(1))
        if not is_t(c):
            return add(a.arg(0), c + b)
    if not is_t(a):
        return add(b, a)
    return tz(a) + tz(b)


def neg(a):
    a = toint_num(a)
    if not is_t(a):
        return -a
    return mul(-1, a)


def sub(a, b):
    a, b, s = unify(a, b)
    if not is_t(a) and not is_t(b):
        return a - b
    if is_zero(b):
        return a
    if is_t(a) and is_t(b) and a.eq(b):
        return 0 if s == "i" else Fraction(0)
    if not is_t(b):
        return add(a, -b)
    if is_zero(a):
        return neg(b)
    return tz(a) - tz(b)


def mul(a, b):
    a, b, s = unify(a, b)
    if not is_t(a) and not is_t(b):
        return a * b
    if is_zero(a) or is_zero(b):
        return 0 if s == "i" else Fraction(0)
    if is_one(a):
        return b
    if is_one(b):
        return a
    return tz(a) * tz(b)


def div(a, b):
    """true division; b assumed nonzero by the caller where it matters"""
    a0, b0 = toint_num(a), toint_num(b)
    if not is_t(a0) and not is_t(b0):
        if b0 == 0:
            return tz(toreal(a0)) / tz(Fraction(0))
        return Fraction(a0) / Fraction(b0)
    a, b = toreal(a), toreal(b)
    if is_one(b):
        return a
    if is_zero(a) and not is_t(a) and False:
        return a
    return tz(a) / tz(b)


def _exact(a, b):
    """quotient term if the int term b divides the int term a identically"""
    from . import solver as S
    try:
        L = S.Lin()
        pb = L.poly(tz(b))
        if len(pb.m) != 1:
            return None
        pa = L.poly(expand_mod(tz(a)))
        if not pa.m:
            return 0
        r = S._divides(pa, pb)
    except S.Budget:
        return None
    if r is None or r[1].m:
        return None
    t = S.poly_term(r[0], L)
    return None if t is None else conc(t)


def expand_mod(a):
    """emod(x, m) -> x - m*ediv(x, m) in the linear structure of a"""
    if z3.is_app(a):
        k = a.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            ch = [expand_mod(c) for c in a.children()]
            if any(not x.eq(y) for x, y in zip(ch, a.children())):
                if k == z3.Z3_OP_UMINUS:
                    return -ch[0]
                r = ch[0]
                for c in ch[1:]:
                    r = r + c if k == z3.Z3_OP_ADD else r - c if k == z3.Z3_OP_SUB else r * c
                return r
            return a
        if k == z3.Z3_OP_UNINTERPRETED and a.decl().name() == "emod":
            x, m = a.arg(0), a.arg(1)
            return x - m * EDIV(x, m)
    return a


def _divmod_const(a, c):
    """(q, r) with a == c*q + r, 0 <= r < c a number, when a is c*X plus a constant"""
    q, r = 0, 0
    st = [(a, 1)]
    while st:
        t, f = st.pop()
        if z3.is_int_value(t):
            r += f * t.as_long()
            continue
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            st.extend((x, f) for x in reversed(t.children()))
            continue
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            st.extend([(x, -f) for x in reversed(ch[1:])] + [(ch[0], f)])
            continue
        if k == z3.Z3_OP_UMINUS:
            st.append((t.arg(0), -f))
            continue
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            st.append((t.arg(1), f * t.arg(0).as_long()))
            continue
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
            st.append((t.arg(0), f * t.arg(1).as_long()))
            continue
        if f % c:
            return None
        q = add(q, t if f == c else mul(f // c, t))
    return add(q, r // c), r % c


def idiv(a, b):
    """Python floor division on ints/reals"""
    a, b, s = unify(a, b)
    if s == "i" and is_t(b) and is_t(a) or s == "i" and is_t(b) and is_zero(a):
        q = _exact(a, b)
        if q is not None:
            return q
    if not is_t(a) and not is_t(b) and b != 0:
        r = a // b
        return r if s == "i" else Fraction(r)
    if s == "r":
        return toreal(floor(div(a, b)))
    if is_one(b):
        return a
    if not is_t(b):
        if b > 0:
            d = _divmod_const(tz(a), b)
            if d is not None:
                return d[0]
            return tz(a) / tz(b)          # z3 Int div: floor for positive divisor
        if b < 0:
            return tz(neg(a)) / tz(-b)
    return EDIV(tz(a), tz(b))


def mod(a, b):
    a, b, s = unify(a, b)
    if not is_t(a) and not is_t(b) and b != 0:
        return a % b
    if s == "r":
        return RMOD(tz(a), tz(b))
    if is_t(b) and _exact(a, b) is not None:
        return 0
    if not is_t(b):
        if b == 1:
            return 0
        if b > 0:
            d = _divmod_const(tz(a), b)
            if d is not None:
                return d[1]
            return tz(a) % tz(b)
        if b < 0:
            return neg(tz(neg(a)) % tz(-b))
    return EMOD(tz(a), tz(b))


def floor(a):
    s = sortof(a)
    if s != "r":
        return toint_num(a)
    if not is_t(a):
        return a.numerator // a.denominator
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        return a.arg(0)
    n = _int_ratio(a)
    if n is not None:
        return n
    return z3.ToInt(a)


def _int_ratio(a):
    """floor of ToReal(x)/c or ToReal(x)/ToReal(y) as integer division"""
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DIV:
        n, d = a.arg(0), a.arg(1)
        ni, di = as_int(n), as_int(d)
        if ni is not None and di is not None:
            return idiv(ni, di)
    return None


def as_int(t):
    """an int term equal to the real term t, if syntactically evident"""
    t = conc(t)
    if not is_t(t):
        if isinstance(t, int):
            return t
        return t.numerator if t.denominator == 1 else None
    if t.sort() == I:
        return t
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
        xs = [as_int(c) for c in t.children()]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = add(r, x) if k == z3.Z3_OP_ADD else mul(r, x) if k == z3.Z3_OP_MUL else sub(r, x)
        return r
    if k == z3.Z3_OP_UMINUS:
        x = as_int(t.arg(0))
        return None if x is None else neg(x)
    return None


def trunc(a):
    """int(a)"""
    s = sortof(a)
    if s != "r":
        return toint_num(a)
    if not is_t(a):
        return int(a)
    x = as_int(a)
    if x is not None:
        return x
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DIV:
        ni, di = as_int(a.arg(0)), as_int(a.arg(1))
        if ni is not None and di is not None:
            q = idiv(ni, di)
            return ite(ge(ni, 0), q, neg(idiv(neg(ni), di))) if not is_t(di) else \
                ite(or_(eq(mod(ni, di), 0), eq(ge(ni, 0), gt(di, 0))), q, add(q, 1))
    return ite(ge(a, 0), floor(a), neg(floor(neg(a))))


def ite(c, a, b):
    c = conc(c)
    if c is True:
        return a
    if c is False:
        return b
    if not is_t(a) and not is_t(b) and type(a) is type(b) and a == b:
        return a
    sa, sb = sortof(a), sortof(b)
    if sa != sb:
        a, b, _ = unify(a, b)
    if sortof(a) == "b":
        if a is True and b is False:
            return c
        if a is False and b is True:
            return not_(c)
    ta, tb = tz(a), tz(b)
    if ta.eq(tb):
        return a
    # ite(c, ite(c, x, y), b) -> ite(c, x, b)
    if z3.is_app(ta) and ta.decl().kind() == z3.Z3_OP_ITE and ta.arg(0).eq(c):
        ta = ta.arg(1)
    if z3.is_app(tb) and tb.decl().kind() == z3.Z3_OP_ITE and tb.arg(0).eq(c):
        tb = tb.arg(2)
    if ta.eq(tb):
        return ta
    return z3.If(c, ta, tb)


def not_(a):
    a = conc(a)
    if not is_t(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        x = conc(x)
        if x is False:
            return False
        if x is True:
            continue
        if not is_t(x):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    if any(z3.is_and(x) for x in out):
        flat, seen = [], set()
        for x in out:
            for y in (x.children() if z3.is_and(x) else [x]):
                if y.get_id() not in seen:
                    seen.add(y.get_id())
                    flat.append(y)
        out = flat
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        x = conc(x)
        if x is True:
            return True
        if x is False:
            continue
        if not is_t(x):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def truth(v):
    """numeric scalar -> Bool"""
    s = sortof(v)
    if s == "b":
        return v
    return ne(v, 0)


def eq(a, b):
    if sortof(a) == "b" and sortof(b) == "b":
        if not is_t(a) and not is_t(b):
            return a == b
        a, b = conc(a), conc(b)
        if a is True:
            return b
        if b is True:
            return a
        if a is False:
            return not_(b)
        if b is False:
            return not_(a)
        return True if a.eq(b) else a == b
    a, b, s = unify(a, b)
    if not is_t(a) and not is_t(b):
        return a == b
    ta, tb = tz(a), tz(b)
    if ta.eq(tb):
        return True
    return ta == tb


def ne(a, b):
    return not_(eq(a, b))


def _cmp(a, b, f):
    a, b, s = unify(a, b)
    if not is_t(a) and not is_t(b):
        return f(a, b)
    ta, tb = tz(a), tz(b)
    return f(ta, tb)


def lt(a, b):
    return _cmp(a, b, lambda x, y: x < y)


def le(a, b):
    return _cmp(a, b, lambda x, y: x <= y)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(ge(a, b), a, b)


def abs_(a):
    a = toint_num(a)
    if not is_t(a):
        return abs(a)
    return ite(ge(a, 0), a, neg(a))


def sqrt(a):
    a = toreal(a)
    if not is_t(a):
        from math import isqrt
        if a >= 0:
            n, d = isqrt(a.numerator), isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
    return SQRT(tz(a))


def f32(a):
    """rounding to single precision (uninterpreted where it is not the identity)"""
    a = toreal(a)
    if not is_t(a):
        n, d = abs(a.numerator), a.denominator
        if d & (d - 1) == 0 and d <= 2**100 and n.bit_length() - (n & -n).bit_length() < 24:
            return a
    elif z3.is_app(a) and a.decl().eq(F32):
        return a
    return F32(tz(a))


def power(a, b):
    if not is_t(b) and isinstance(b, (int, Fraction)):
        if Fraction(b).denominator == 1:
            n = int(b)
            isf = isinstance(b, Fraction)
            if 0 <= n <= 8:
                r = 1
                a2 = toint_num(a)
                if isf:
                    a2 = toreal(a2)
                    r = Fraction(1)
                for _ in range(n):
                    r = mul(r, a2)
                return r
            if -8 <= n < 0:
                return div(1, power(a, -n))
        if Fraction(b) == Fraction(1, 2):
            return sqrt(a)
    if not is_t(a) and not is_t(b):
        try:
            r = a ** b
            if isinstance(r, int) or isinstance(r, Fraction):
                return r
        except Exception:
            pass
    return POWF(tz(toreal(a)), tz(toreal(b)))


# ----------------------------------------------------------------- trigonometry
def lin_real(t):
    """real term -> ({atom_id: (atom, coef)}, const) linear combination"""
    out = {}
    const = [Fraction(0)]

    def rec(t, c):
        v = conc(t)
        if not is_t(v):
            const[0] += c * Fraction(v)
            return
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            for x in t.children():
                rec(x, c)
            return
        if k == z3.Z3_OP_SUB:
            xs = t.children()
            rec(xs[0], c)
            for x in xs[1:]:
                rec(x, -c)
            return
        if k == z3.Z3_OP_UMINUS:
            rec(t.arg(0), -c)
            return
        if k == z3.Z3_OP_TO_REAL:
            x = t.arg(0)
            kk = x.decl().kind()
            if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
                if kk == z3.Z3_OP_MUL:
                    cs = [conc(y) for y in x.children()]
                    nn = [y for y in cs if is_t(y)]
                    if len(nn) <= 1:
                        f = Fraction(1)
                        for y in cs:
                            if not is_t(y):
                                f *= y
                        if nn:
                            rec(z3.ToReal(nn[0]), c * f)
                        else:
                            const[0] += c * f
                        return
                elif kk == z3.Z3_OP_ADD:
                    for y in x.children():
                        rec(z3.ToReal(y) if is_t(conc(y)) else z3.RealVal(conc(y)), c)
                    return
                elif kk == z3.Z3_OP_SUB:
                    for n, y in enumerate(x.children()):
                        rec(z3.ToReal(y) if is_t(conc(y)) else z3.RealVal(conc(y)), c if n == 0 else -c)
                    return
        if k == z3.Z3_OP_MUL:
            f = Fraction(1)
            rest = []
            for x in t.children():
                v = conc(x)
                if is_t(v):
                    rest.append(x)
                else:
                    f *= Fraction(v)
            if len(rest) == 1:
                rec(rest[0], c * f)
                return
            if not rest:
                const[0] += c * f
                return
            if f != 1:
                m = rest[0]
                for x in rest[1:]:
                    m = m * x
                rec(m, c * f)
                return
            sums = [i for i, x in enumerate(rest) if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB)]
            if sums:
                i = sums[0]
                others = rest[:i] + rest[i + 1:]
                o = others[0]
                for x in others[1:]:
                    o = o * x
                xs = rest[i].children()
                for n, x in enumerate(xs):
                    rec(o * x, c if (n == 0 or z3.is_add(rest[i])) else -c)
                return
        if k == z3.Z3_OP_DIV:
            d = conc(t.arg(1))
            if not is_t(d) and d != 0:
                rec(t.arg(0), c / Fraction(d))
                return
        i = t.get_id()
        if i in out:
            out[i] = (t, out[i][1] + c)
        else:
            out[i] = (t, c)

    rec(tz(t), Fraction(1))
    return {i: (a, c) for i, (a, c) in out.items() if c != 0}, const[0]


_S2H = None


def sin_cos(t):
    """(sin t, cos t) with arguments expanded by the addition formulas.

    Atoms are halved/doubled so that every atom appears with a coefficient
    1/1 or an integer multiple of a base angle handled by the double-angle
    expansion; multiples of pi/4 are evaluated exactly (sqrt(2) kept as a term).
    """
    t = toreal(t)
    terms, const = lin_real(tz(t))
    s, c = Fraction(0), Fraction(1)

    def combine(s1, c1, s2, c2):
        return (add(mul(s1, c2), mul(c1, s2)), sub(mul(c1, c2), mul(s1, s2)))

    for i in (sorted(terms, key=lambda i: terms[i][0].sexpr()) if len(terms) > 1 else terms):
        a, k = terms[i]
        if a.eq(PI):
            q = k * 4
            if q.denominator == 1:
                n = int(q) % 8
                h = div(sqrt(Fraction(2)), 2)
                tab_s = [0, h, 1, h, 0, neg(h), -1, neg(h)]
                tab_c = [1, h, 0, neg(h), -1, neg(h), 0, h]
                s2, c2 = toreal(tab_s[n]), toreal(tab_c[n])
            else:
                s2, c2 = SIN(tz(mul(k, a))), COS(tz(mul(k, a)))
        elif k.denominator == 1 and 1 <= abs(k) <= 8:
            s1, c1 = SIN(a), COS(a)
            s2, c2 = s1, c1
            for _ in range(abs(int(k)) - 1):
                s2, c2 = combine(s2, c2, s1, c1)
            if k < 0:
                s2 = neg(s2)
        else:
            sg = 1 if k > 0 else -1
            s2, c2 = SIN(tz(mul(abs(k), a))), COS(tz(mul(abs(k), a)))
            if sg < 0:
                s2 = neg(s2)
        s, c = combine(s, c, s2, c2)
    if const:
        s, c = combine(s, c, SIN(z3.RealVal(const)), COS(z3.RealVal(const)))
    return s, c


# ----------------------------------------------------------------- functionals
_fun = {}


def functional(name, ndim, nextra=0, sort=R, lam_sort=R):
    key = (name, ndim, nextra, str(sort), str(lam_sort))
    f = _fun.get(key)
    if f is None:
        idx = [I] * ndim
        f = z3.Function("FN_%s_%d_%d_%s" % (name, ndim, nextra, lam_sort), *([I] * ndim + [z3.ArraySort(*(idx + [lam_sort]))] + [R] * nextra + [sort]))
        _fun[key] = f
    return f


def is_functional(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("FN_")


def apply_functional(name, dims, fn, extra=(), sort=R, lam_sort=None):
    """name(dims, lambda idx. fn(idx), extra)"""
    vs = [z3.FreshConst(I, "lb") for _ in dims]
    body = tz(fn(*vs))
    if lam_sort is None:
        lam_sort = body.sort()
    if lam_sort == R and body.sort() != R:
        body = tz(toreal(body))
    lam = mk_lambda(vs, body)
    f = functional(name, len(dims), len(extra), sort, lam_sort)
    return f(*([tz(d) for d in dims] + [lam] + [tz(toreal(e)) for e in extra]))


def lam_depth(t):
    d = 0
    seen = set()
    st = [(t, 0)]
    while st:
        x, k = st.pop()
        if (x.get_id(), k) in seen:
            continue
        seen.add((x.get_id(), k))
        if z3.is_quantifier(x):
            d = max(d, k + 1)
            st.append((x.body(), k + 1))
        elif z3.is_app(x):
            st.extend((c, k) for c in x.children())
    return d


def mk_lambda(vs, body):
    """Lambda with canonical bound names, so that equal lambdas are one term"""
    d = lam_depth(body)
    cs = [z3.Int("$b%d_%d" % (d, i)) for i in range(len(vs))]
    body = z3.substitute(body, *list(zip(vs, cs)))
    return z3.Lambda(cs, body)


_depth = [0]


def sum_term(n, fn):
    """sum_{k<n} fn(k), unrolled for small concrete n"""
    n = conc(n)
    if not is_t(n):
        if n <= 16:
            r = Fraction(0)
            for k in range(max(0, n)):
                r = add(r, fn(k))
            return r
    nm = "sum!probe%d" % _depth[0]
    p = z3.Const(nm, I)
    _depth[0] += 1
    try:
        b = toreal(fn(p))
    finally:
        _depth[0] -= 1
    if is_t(b):
        out, rest = [], []
        if z3.is_mul(b):
            for c in b.children():
                (rest if contains(c, {nm}) else out).append(c)
        elif z3.is_div(b) and not contains(b.arg(1), {nm}):
            return div(sum_term(n, lambda k: toreal(subst(b.arg(0), [(p, k)]))), conc(b.arg(1)))
        if out and rest and any(not z3.is_rational_value(c) for c in out):
            f = conc(out[0])
            for c in out[1:]:
                f = mul(f, conc(c))
            body = rest[0] if len(rest) == 1 else z3.Product(rest)
            return mul(f, sum_term(n, lambda k: toreal(subst(body, [(p, k)]))))
    return apply_functional("SUM", [n], lambda k: toreal(fn(k)))


_nf = [0]


def reset_fresh():
    _nf[0] = 0


def _sc(sort):
    return {z3.Z3_INT_SORT: "i", z3.Z3_REAL_SORT: "r", z3.Z3_BOOL_SORT: "b"}.get(sort.kind(), "x")


def fresh(prefix, sort):
    _nf[0] += 1
    nm = "%s!%s%d" % (prefix, _sc(sort), _nf[0])
    return z3.Const(nm, sort)


def fresh_fun(prefix, *sig):
    _nf[0] += 1
    return z3.Function("%s!%s%d" % (prefix, "".join(_sc(s) for s in sig), _nf[0]), *sig)


_NAMES = {}
_NKEEP = []
_EMPTY = frozenset()
_UNINT = z3.Z3_OP_UNINTERPRETED


def names_of(t):
    """names of the uninterpreted symbols of t (memoised over the shared term graph)"""
    r = _NAMES.get(t.get_id())
    if r is not None:
        return r
    _NKEEP.append(t)
    st = [(t, None)]
    while st:
        x, ch = st.pop()
        i = x.get_id()
        if ch is None:
            if i in _NAMES:
                continue
            ch = [x.body()] if z3.is_quantifier(x) else x.children() if z3.is_app(x) else []
            st.append((x, ch))
            st.extend((c, None) for c in ch if c.get_id() not in _NAMES)
            continue
        out = _EMPTY
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == _UNINT:
                out = frozenset((d.name(),))
        for c in ch:
            n = _NAMES[c.get_id()]
            if not n <= out:
                out = n if out <= n else out | n
        _NAMES[i] = out
    return _NAMES[t.get_id()]


def contains(t, xs):
    """does t contain any const/func decl in xs (set of decl names)?"""
    return not names_of(t).isdisjoint(xs)


def subst(t, pairs):
    """pairs: [(const term, value)]"""
    if not is_t(t):
        return t
    ps = [(a, tz(b)) for a, b in pairs]
    return conc(z3.substitute(t, *ps))
