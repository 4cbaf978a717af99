"""Loops: small concrete trip counts are unrolled (exact); symbolic trip counts
are summarised by inductively justified closed forms.

For a loop with index k the body is explored from a pre-state in which every
location the body may modify holds an unknown function of k (or, once found,
its closed form).  A closed form is accepted only when it follows for every k
from the merged effect of all paths of the body:
  unchanged; x + d(k) (affine or sum); last value; array cell written by at
  most one iteration (witness proved unique); accumulated array cell; list
  append.
Everything else stays an unknown function of k with its step equation.
"""
import ast
from collections import OrderedDict
from fractions import Fraction
import z3
from . import terms as T
from . import solver as S
from .values import *
from .values import _same
from .interp import Brk, Cont, Ret, Dead, DeadRead, UNROLL

STAT = {"sym_loops": 0, "rounds": 0, "opaque": 0}


class _Done(Exception):
    pass


# ------------------------------------------------------------------ entry points
def for_loop(E, st, it, env):
    items = E.bm.conc_items(E, it) if not (isinstance(it, SymSeq)) else (E.bm.conc_items(E, it))
    if items is not None and len(items) <= UNROLL:
        unrolled(E, st, items, env, it)
        return
    if items is not None and not isinstance(it, (RangeV, Arr)) and not all(T.is_num(x) for x in items):
        if len(items) <= 4096:
            unrolled(E, st, items, env, it)
            return
        raise Unsupported("long loop over objects")
    s = E.bm.to_seq(E, it if items is None or isinstance(it, (RangeV, Arr)) else PList(items))
    n = s.n
    sn = S_small(E, n)
    if sn is not None and sn <= UNROLL:
        unrolled(E, st, [s.item(k) for k in range(sn)], env, it)
        return

    def iteration(k):
        E.assign(st.target, s.item(k), env)
        try:
            E.exec_body(st.body, env)
        except Cont:
            pass
    sym_loop(E, n, iteration, env, st, None)


def S_small(E, n):
    n = T.conc(n)
    if not T.is_t(n):
        return n
    # the answer for the same count under the same facts about its symbols
    nm = {c.decl().name() for c in S.collect([n]) if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED}
    try:
        pk = tuple(sorted(S.glin().poly(n).m.items()))
    except S.Budget:
        pk = n.get_id()
    lv = {k.decl().name() for k in E.loopvars}
    key = ("small", pk, tuple(h.get_id() for h in E.hyps() if T.is_t(h) and T.contains(h, nm) and not T.contains(h, lv)))
    if key in S.CACHE:
        return S.CACHE[key]
    r = None
    for v in (1, 2, 4, 0):
        if not E.feasible(T.ne(n, v)):
            r = v
            break
    S.CACHE[key] = r
    return r


def open_guard(g, ps):
    """the guard fixes a coordinate of an array cell to some index (p == t):
    neither it nor its negation can be excluded by the context"""
    g = T.conc(g)
    if not T.is_t(g):
        return False
    if z3.is_not(g):
        g = g.arg(0)
    ids = {p.get_id() for p in ps if T.is_t(p)}
    for c in flat([g]):
        if z3.is_eq(c) and (c.arg(0).get_id() in ids) != (c.arg(1).get_id() in ids):
            return True
    return False


def unrolled(E, st, items, env, it=None):
    live = it if isinstance(it, PList) and not isinstance(it.items, SymSeq) else None
    for i, x in enumerate(items):
        if live is not None:
            if i >= len(live.items):
                break
            x = live.items[i]
        E.assign(st.target, x, env)
        try:
            E.exec_body(st.body, env)
        except Cont:
            continue
        except Brk:
            return
    if live is not None and len(live.items) > len(items):
        raise Unsupported("list grows while iterated over")
    E.exec_body(st.orelse, env)


def while_loop(E, st, env):
    # concrete unrolling while the condition is decided
    n = 0
    while n < 260:
        m = TRAIL.mark()
        c = eval_cond(E, st.test, env)
        if c is None:
            break
        if c is False:
            E.exec_body(st.orelse, env)
            return
        if isinstance(st.test, ast.Constant) and n >= 6:
            break
        n += 1
        try:
            E.exec_body(st.body, env)
        except Cont:
            continue
        except Brk:
            return
    if elementwise_while(E, st, env):
        return

    def iteration(k):
        if not E.truth(E.eval(st.test, env)):
            raise Infeasible()
        try:
            E.exec_body(st.body, env)
        except Cont:
            pass
    sym_loop(E, None, iteration, env, st, st.test)


def eval_cond(E, test, env):
    """the condition if it is decided without a case split, else None"""
    if isinstance(test, ast.Constant):
        return bool(test.value)
    res = []

    def run():
        v = E.eval(test, env)
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.get(())
        if T.is_t(v):
            return T.conc(T.truth(v))
        return E.truth(v)
    rs = E.explore(run)
    if len(rs) == 1 and rs[0].kind == "ok":
        v = rs[0].val
        if isinstance(v, bool):
            return v
        if T.is_t(v):
            if not E.feasible(v):
                return False
            if not E.feasible(T.not_(v)):
                return True
        return None
    vals = [r.val for r in rs if r.kind == "ok"]
    if len(vals) == len(rs) and all(v is True for v in vals):
        return True
    if len(vals) == len(rs) and all(v is False for v in vals):
        return False
    return None


def merged_truth(E, run):
    """Bool term of a truth value computed by run() (merging its paths)"""
    rs = E.explore(run)
    out = []
    for r in rs:
        if r.kind != "ok":
            raise Unsupported("exception in a loop condition")
        for f in r.facts:
            E.pc.append((f, False))
        v = r.val
        out.append((T.and_(*[d for d in r.dec if not isinstance(d, S.Univ)]), v))
    r = out[-1][1]
    for c, v in reversed(out[:-1]):
        r = T.ite(c, v, r)
    return r


# ------------------------------------------------------------------ locations
def loc_get(loc):
    cell, key = loc
    if isinstance(cell, Buf):
        return cell.reader()
    if isinstance(cell, PList):
        return cell.items
    return cell.d.get(key, MISSING)


def loc_set(loc, v):
    cell, key = loc
    if isinstance(cell, Buf):
        cell.replace(v)
    elif isinstance(cell, PList):
        cell.mutate(v)
    elif v is MISSING:
        if key in cell.d:
            cell.delete(key)
    else:
        cell.set(key, v)


def freeze(v):
    if isinstance(v, Arr):
        a = new_arr(v.shape, v.dtype, v.reader())
        a.buf.name = v.buf.name
        return a
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, PList):
        if not isinstance(v.items, SymSeq):
            return PList([freeze(x) for x in v.items])
        return PList(v.items)
    return v


def is_scalar(v):
    return T.is_num(v)


def subst_val(v, pairs):
    if T.is_t(v):
        return T.subst(v, pairs)
    if isinstance(v, Arr):
        rd = v.reader()
        sh = tuple(T.subst(d, pairs) if T.is_t(d) else d for d in v.shape)
        return new_arr(sh, v.dtype, lambda idx: T.subst(rd(idx), pairs))
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, PList):
        if isinstance(v.items, SymSeq):
            s = v.items
            return PList(SymSeq(T.subst(s.n, pairs) if T.is_t(s.n) else s.n, lambda j: subst_val(s.item(j), pairs)))
        return PList([subst_val(x, pairs) for x in v.items])
    if isinstance(v, SymSeq):
        s = v
        return SymSeq(T.subst(s.n, pairs) if T.is_t(s.n) else s.n, lambda j: subst_val(s.item(j), pairs))
    if v is None or isinstance(v, (bool, int, Fraction, str, bytes, FuncV, Builtin, ClassV, TypeV, ModuleV, Opaque)):
        return v
    from .libmodel import BytesV
    if isinstance(v, BytesV) and v.array is None:
        b = v.byte
        return BytesV(T.subst(v.n, pairs) if T.is_t(v.n) else v.n, lambda j: T.subst(b(j), pairs))
    raise Unsupported("value of %s carried out of a symbolic loop" % type(v).__name__)


class St:
    """what is known about a modified location: mode in
    'dead' (unknown at iteration start), 'havoc', 'cf' (closed form), 'temp', 'cache'"""

    def __init__(self, E, loc, k):
        self.loc = loc
        self.init = loc_get(loc)
        self.k = k
        self.mode = None
        self.cf = None
        self.cf_sym = None
        self.post = None
        self.f = None
        self.why = ""
        cell, key = loc
        if isinstance(cell, Buf):
            self.kind = "buf"
            self.shape, self.dtype = cell.shape, cell.dtype
        elif isinstance(cell, PList):
            self.kind = "list"
        elif cell.label == "cache":
            self.kind = "cache"
        else:
            v = self.init
            if isinstance(v, Arr) and v.ndim == 0:
                v = self.init = v.get(())
            if v is MISSING:
                self.kind = "temp"
            elif is_scalar(v):
                self.kind = "scalar"
            elif isinstance(v, Arr):
                self.kind = "arr"
                self.shape, self.dtype = v.shape, v.dtype
                self.init_rd = v.reader()
            else:
                self.kind = "other"
        if self.kind == "buf":
            self.init_rd = self.init
        self.mode = {"buf": "havoc", "scalar": "havoc", "list": "havoc", "temp": "dead", "arr": "dead", "other": "dead", "cache": "cache"}[self.kind]
        self.ps = None
        if self.kind in ("buf", "arr"):
            self.ps = [T.fresh("p", T.I) for _ in self.shape]
        self.lv = list(E.loopvars)

    def scalar_list(self):
        """a list of numbers whose items are read and overwritten: treat it like an array"""
        q = self.init if isinstance(self.init, SymSeq) else None
        if q is None:
            return False
        j = T.fresh("j", T.I)
        try:
            v = q.item(j)
        except (Unsupported, PyRaise):
            return False
        if not is_scalar(v) or T.sortof(v) == "b":
            return False
        self.kind = "slist"
        self.shape, self.dtype = (q.n,), ("f8" if T.sortof(v) == "r" else "i8")
        self.ps = [T.fresh("p", T.I)]
        self.init_rd = lambda ix: q.item(ix[0])
        self.f = None
        return True

    def name(self):
        cell, key = self.loc
        return "%s.%s" % (getattr(cell, "label", "?"), key) if self.kind != "buf" else cell.name

    def mkfun(self, E, sort):
        lv = self.lv + [self.k]
        if self.kind in ("buf", "arr", "slist"):
            self.f = T.fresh_fun("h", *([T.I] * (len(lv) + len(self.shape)) + [sort]))
            if self.dtype in INTS and self.dtype not in ("i8", "u8"):
                S.FUN_RANGE[self.f.name()] = INTS[self.dtype]
        else:
            self.f = T.fresh_fun("h", *([T.I] * len(lv) + [sort]))

    def sym(self, t, idx=()):
        return self.f(*([T.tz(x) for x in self.lv] + [T.tz(t)] + [T.tz(i) for i in idx]))

    def install(self, E, t):
        """pre-state at iteration t"""
        if self.mode == "cache":
            return
        if self.mode == "dead":
            if self.kind in ("buf", "list"):
                raise Unsupported("dead memory")
            self.loc[0].set(self.loc[1], Dead(self))
            return
        if self.mode == "cf":
            v = self.cf(t)
            loc_set(self.loc, v)
            return
        # havoc
        if self.kind == "scalar":
            if self.f is None:
                self.mkfun(E, {"i": T.I, "r": T.R, "b": T.Bo}[self.sort()])
            loc_set(self.loc, self.sym(t))
        elif self.kind == "buf":
            if self.f is None:
                self.mkfun(E, E.np.sort_of_dt(self.dtype))
            loc_set(self.loc, lambda idx: self.sym(t, idx))
        elif self.kind == "arr":
            if self.f is None:
                self.mkfun(E, E.np.sort_of_dt(self.dtype))
            loc_set(self.loc, new_arr(self.shape, self.dtype, lambda idx: self.sym(t, idx), "havoc"))
        elif self.kind == "slist":
            if self.f is None:
                self.mkfun(E, T.R if self.dtype == "f8" else T.I)
            loc_set(self.loc, SymSeq(self.shape[0], lambda j: self.sym(t, (j,))))
        elif self.kind == "list":
            # unknown list of symbolic length
            if self.f is None:
                lv = self.lv
                self.f = T.fresh_fun("hl", *([T.I] * (len(lv) + 2) + [T.R]))
                self.flen = T.fresh_fun("hlen", *([T.I] * (len(lv) + 1) + [T.I]))
            items = self.init
            n0 = items.n if isinstance(items, SymSeq) else len(items)
            ln = self.flen(*([T.tz(x) for x in self.lv] + [T.tz(t)]))
            E.assume(ln >= 0)
            d = Dead(self)

            def item(j):
                raise DeadRead(d, "list element carried by a loop")
            q = SymSeq(ln, item)
            q.base = self
            loc_set(self.loc, q)
        else:
            raise Unsupported("loop-carried %s" % self.kind)

    def sort(self):
        s = getattr(self, "sort_", None)
        return s or T.sortof(self.init)

    def open_names(self):
        if self.mode == "havoc" and self.f is not None:
            return {self.f.name()} | ({self.flen.name()} if self.kind == "list" else set())
        return set()


# ------------------------------------------------------------------ term helpers
def cases(t, guard=(), limit=160):
    """flatten top-level ite: [(guards, leaf)]"""
    out = []
    st = [(t, tuple(guard))]
    while st:
        x, g = st.pop()
        if T.is_t(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            # identical guard decided above?
            dec = None
            for q in g:
                if T.is_t(q) and q.eq(c):
                    dec = True
                elif T.is_t(q) and z3.is_not(q) and q.arg(0).eq(c):
                    dec = False
            if dec is not False:
                st.append((x.arg(1), g + ((c,) if dec is None else ())))
            if dec is not True:
                st.append((x.arg(2), g + ((T.tz(T.not_(c)),) if dec is None else ())))
        else:
            out.append((g, T.conc(x)))
        if len(out) + len(st) > limit:
            raise Unsupported("too many cases in a loop effect")
    return out


def rebuild(cs):
    r = cs[-1][1]
    for g, v in reversed(cs[:-1]):
        r = T.ite(T.and_(*g), v, r)
    return r


def has(t, names):
    return T.is_t(t) and T.contains(t, names)


def minus(t, h):
    """t - h with h cancelled, through ite; None if it does not cancel"""
    hn = {h.decl().name()}
    t = T.conc(t)
    if T.is_t(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        if has(t.arg(0), hn):
            return None
        a, b = minus(t.arg(1), h), minus(t.arg(2), h)
        if a is None or b is None:
            return None
        return T.ite(t.arg(0), a, b)
    if T.is_t(t) and t.eq(h):
        return 0 if h.sort() == T.I else Fraction(0)
    if not T.is_t(t) or h.sort() == T.Bo:
        return None
    # remove one additive occurrence syntactically
    r = _remove(t, h)
    if r is not None:
        return None if has(r, hn) else r
    d = T.conc(z3.simplify(T.tz(T.sub(t, h)), som=True))
    return None if has(d, hn) else d


def _remove(t, h):
    if t.eq(h):
        return 0 if h.sort() == T.I else Fraction(0)
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            ch = t.children()
            for i, c in enumerate(ch):
                r = _remove(c, h)
                if r is not None:
                    out = r
                    for j, o in enumerate(ch):
                        if j != i:
                            out = T.add(out, T.conc(o))
                    return out
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = _remove(ch[0], h)
            if r is not None:
                for o in ch[1:]:
                    r = T.sub(r, T.conc(o))
                return r
    return None


def merge_paths(vals):
    """[(dec, value)] -> merged value (last one unguarded)"""
    from .builtins_model import merge_vals
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        if v is r:
            continue
        r = merge_vals(c, v, r)
    return r


# ------------------------------------------------------------------ analysis
class Round:
    pass


class Summary:
    """closed state of the loop as a function of the iteration number"""

    def __init__(self, E, n, k, locs, rs):
        self.E, self.n, self.k, self.locs, self.rs = E, n, k, locs, rs


def dec_of(r):
    return T.and_(*[d for d in r.dec if not isinstance(d, S.Univ)])


def run_round(E, n, k, locs, iteration, birth0):
    def once():
        E.loopvars = E.loopvars + [k]
        E.assume(k >= 0)
        if n is not None:
            E.assume(T.lt(k, n))
        for s in list(locs.values()):
            s.install(E, k)
        return iteration(k)

    def capture(kind, val, m):
        out = OrderedDict()
        for loc, _ in TRAIL.log[m:]:
            c, key = loc
            if c.birth > birth0:
                continue
            if isinstance(c, Env) and key in ("$exc",):
                continue
            if getattr(c, "label", "") == "world":
                raise Unsupported("file system change in a symbolic loop")
            out[loc] = None
        for loc in out:
            v = loc_get(loc)
            out[loc] = freeze(v) if not callable(v) else v
        return out
    return E.explore(once, capture, limit=96)


def analyse(E, n, iteration, env, body_node):
    STAT["sym_loops"] += 1
    k = T.fresh("k", T.I)
    birth0 = BIRTH[0]
    locs = OrderedDict()
    saved = []
    oldcol = E.collecting
    nf = T._nf[0]
    nfmax = nf
    for loc in static_locs(E, env, body_node):
        locs[loc] = St(E, loc, k)
    final = False
    rounds = 0
    hyp = E.hyps()
    try:
        while True:
            rounds += 1
            STAT["rounds"] += 1
            if rounds > 14:
                raise Unsupported("loop summary does not converge")
            E.collecting = oldcol and final
            sk0 = E.skipped
            nob = len(E.obligations)
            fr0 = dict(E.functions_run)
            T._nf[0] = max(nf, max_nf(locs, nf))
            try:
                rs = run_round(E, n, k, locs, iteration, birth0)
            except DeadRead as d:
                s = d.loc
                if isinstance(s, St) and s.loc in locs and s.kind == "list" and s.scalar_list():
                    del E.obligations[nob:]
                    final = False
                    continue
                if isinstance(s, St) and s.loc in locs and s.mode == "dead" and s.kind == "arr":
                    s.mode = "havoc"
                    nfmax = max(nfmax, T._nf[0])
                    nf = nfmax
                    del E.obligations[nob:]
                    final = False
                    continue
                raise
            nfmax = max(nfmax, T._nf[0])
            nf = nfmax if any(s.f is not None and not getattr(s, "named", False) for s in locs.values()) else nf
            for s in locs.values():
                s.named = True
            new = []
            for r in rs:
                for loc in r.cap:
                    if loc not in locs and loc not in new:
                        new.append(loc)
            if new:
                for loc in new:
                    locs[loc] = St(E, loc, k)
                del E.obligations[nob:]
                final = False
                continue
            if final:
                break
            ok = [r for r in rs if r.kind == "ok"]
            changed = derive(E, n, k, locs, ok, hyp)
            if changed:
                nf = max(nf, T._nf[0])
                nfmax = max(nf, nfmax)
                saved.append(([(dec_of(r), list(r.facts)) for r in rs], len(rs), changed))
                if needs_round(E, locs, rs, changed):
                    continue
            if oldcol and E.skipped > sk0:
                final = True
                continue
            break
    finally:
        E.collecting = oldcol
        T._nf[0] = max(nfmax, T._nf[0])
    sm = Summary(E, n, k, locs, rs)
    sm.rounds = rounds
    sm.saved = saved
    return sm


def own_names(t, out):
    for x in S.collect([T.tz(t)]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
            out.add(x.decl().name())


def saved_facts(E, sm):
    """facts of the rounds in which a closed form was found (it may use symbols that
    were introduced there): stated with the closed forms in place of the unknown state"""
    k = sm.k
    tmpl = []
    opened = set()
    for s in sm.locs.values():
        if s.f is None:
            continue
        if s.mode != "cf":
            opened |= {s.f.name()}
            continue
        n = s.f.arity()
        cs = [T.fresh("sf", T.I) for _ in range(n)]
        t, idx = cs[len(s.lv)], cs[len(s.lv) + 1:]
        try:
            v = s.cf(t)
            v = v.item(idx[0]) if s.kind == "slist" else v(tuple(idx)) if s.kind == "buf" else v.get(tuple(idx)) if s.kind == "arr" else v
        except Unsupported:
            opened |= {s.f.name()}
            continue
        if not is_scalar(v):
            opened |= {s.f.name()}
            continue
        if s.f.range() == T.R:
            v = T.toreal(v)
        body = z3.substitute(T.tz(v), *[(c, z3.Var(i, T.I)) for i, c in enumerate(cs)])
        if s.lv:
            body = z3.substitute(body, *[(l, z3.Var(i, T.I)) for i, l in enumerate(s.lv)])
        tmpl.append((s.f, body))
    cur = set()
    for r in sm.rs:
        for f in list(r.facts) + list(r.dec):
            if T.is_t(f):
                own_names(f, cur)
    out = []
    for rs, npaths, changed in sm.saved:
        names = set()
        for s in changed:
            p = s.post
            for x in ([p] if not isinstance(p, list) else [v for _, v in p]):
                if T.is_t(x):
                    own_names(x, names)
        names -= cur | {s.f.name() for s in sm.locs.values() if s.f is not None} | {k.decl().name()}
        if not names:
            continue
        for dec, facts in rs:
            fs = [f for f in facts if T.is_t(f) and T.contains(f, names) and not T.contains(f, opened)]
            if not fs or T.is_t(dec) and T.contains(dec, opened):
                continue
            sub = lambda x: T.conc(z3.simplify(z3.substitute_funs(x, *tmpl))) if T.is_t(x) and tmpl else x
            r = PathLike([sub(dec)] if dec is not True else [], [x for x in (sub(f) for f in fs) if T.is_t(x)])
            out.append((r, npaths))
    return out


class PathLike:
    def __init__(self, dec, facts):
        self.dec, self.facts = dec, facts


def max_nf(locs, nf):
    return nf


def needs_round(E, locs, rs, changed):
    """does any recorded effect mention a location that has got a closed form since?"""
    names = set()
    for s in changed:
        if s.f is not None:
            names.add(s.f.name())
        if s.kind == "list":
            return True
        if s.mode == "cf" and s.f is None:
            return True
    for r in rs:
        for d in list(r.dec) + list(r.facts):
            if isinstance(d, S.FunAx):
                d = d.fact
            if isinstance(d, S.Univ):
                return True
            if T.contains(d, names):
                return True
        if r.kind in ("return",):
            return True
    for s in locs.values():
        if s.mode in ("havoc", "dead") and s.post is not None:
            return True
    return False


def static_locs(E, env, node):
    """locations assigned syntactically in the body: havoced from the start"""
    out = []
    if node is None:
        return out
    names, subs = [], []
    for st in node.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.append(x.id)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                subs.append(x.value.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                names.append(x.target.id)
    for nm in names:
        v = env.d.get(nm, MISSING)
        if v is not MISSING and is_scalar(v) and nm not in env.globals_decl and nm not in env.nonlocals:
            l = (env, nm)
            if l not in out:
                out.append(l)
        if isinstance(v, Arr) and nm in env.d:
            # x op= ... on an array writes in place
            l = (v.buf, "content")
            if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == nm for st in node.body for x in ast.walk(st)) and l not in out:
                out.append(l)
    for nm in subs:
        e = env
        v = MISSING
        while e is not None and v is MISSING:
            v = e.d.get(nm, MISSING)
            e = e.parent
        if isinstance(v, Arr):
            l = (v.buf, "content")
            if l not in out:
                out.append(l)
    return out


def derive(E, n, k, locs, ok, hyp):
    """find closed forms; returns the list of locations newly closed"""
    changed = []
    opened = set()
    for s in locs.values():
        opened |= s.open_names()
    for s in locs.values():
        if s.mode in ("cf", "cache"):
            continue
        if not ok:
            # the body never completes: state never advances
            s.post = None
            s.mode_final = "never"
            continue
        try:
            vals = []
            for r in ok:
                v = r.cap.get(s.loc, MISSING)
                vals.append((dec_of(r), v))
            r = derive_one(E, n, k, s, vals, opened, hyp)
        except Unsupported as e:
            s.why = str(e)
            r = None
            s.post = None
            s.opaque = str(e)
        if r is not None:
            s.mode = "cf"
            s.cf_sym = r
            s.cf = r
            changed.append(s)
    return changed


def last_k(E, t):
    return T.sub(t, 1)


def derive_one(E, n, k, s, vals, opened, hyp):
    if s.kind == "scalar":
        vs = [v for _, v in vals]
        vs = [E.unbox(v) for v in vs]
        if not all(is_scalar(v) for v in vs):
            if s.mode == "havoc":
                s.mode = "dead"
                s.kind = "other"
            s.post = vals
            return None
        h = s.sym(k)
        # widen int -> real
        srt = h.sort()
        wid = {"b": 0, "i": 1, "r": 2}
        mx = max([T.sortof(v) for v in vs], key=lambda q: wid[q])
        if wid[mx] > wid[s.sort()]:
            s.sort_ = mx
            s.init = T.toreal(s.init) if mx == "r" else T.toint_num(s.init)
            s.f = None
            s.named = False
            s.mkfun(E, {"i": T.I, "r": T.R, "b": T.Bo}[mx])
            s.post = True
            return None
        if s.sort() == "r":
            vs = [T.toreal(v) for v in vs]
        post = merge_paths([(c, v) for (c, _), v in zip(vals, vs)])
        s.post = post
        if T.is_t(post) and post.eq(h):
            init = s.init
            return lambda t: init
        d = minus(post, h) if T.is_t(post) else None
        if d is not None and not has(d, opened):
            init = s.init
            if not T.is_t(d) or not has(d, {k.decl().name()}):
                return lambda t: T.add(init, T.mul(d, t) if s.sort() == "i" else T.mul(T.toreal(d), T.toreal(t)))
            if s.sort() == "i":
                return lambda t: T.add(init, E.np.int_sum(E, [t], lambda ix: T.subst(d, [(k, ix[0])])))
            return lambda t: T.add(init, T.apply_functional("SUM", [t], lambda j: T.toreal(T.subst(d, [(k, j)]))))
        if not has(post, opened):
            init = s.init
            def cf(t, post=post, init=init):
                v = T.subst(post, [(k, T.sub(t, 1))]) if T.is_t(post) else post
                return T.ite(T.gt(t, 0), v, init)
            return cf
        # flag: h or c(k)  /  h and c(k)
        if s.sort() == "b":
            for neg in (False, True):
                # post == ite(c, not neg, h)
                cs = cases(post)
                if all((T.is_t(v) and v.eq(h)) or (isinstance(v, bool) and v == (not neg)) for _, v in cs) and not any(has(T.and_(*g), opened) for g, _ in cs):
                    c = T.or_(*[T.and_(*g) for g, v in cs if isinstance(v, bool)])
                    init = s.init

                    def cf(t, c=c, neg=neg, init=init):
                        anyc = E.np.red_scalar(E, "any", [t], lambda ix: T.subst(c, [(k, ix[0])]), "b1")
                        return T.and_(init, T.not_(anyc)) if neg else T.or_(init, anyc)
                    return cf
        return None
    if s.kind in ("buf", "arr", "slist"):
        return derive_array(E, n, k, s, vals, opened, hyp)
    if s.kind == "list":
        return derive_list(E, n, k, s, vals, opened, hyp)
    if s.kind in ("temp", "other"):
        s.post = vals
        return None
    return None


def derive_list(E, n, k, s, vals, opened, hyp):
    """every path appends exactly the same number of items"""
    base_ln = None
    app = []
    for c, items in vals:
        if items is MISSING:
            return None
        if isinstance(items, PList):
            items = items.items
        ch = []
        q = items
        while isinstance(q, SymSeq) and getattr(q, "base", None) is not s:
            if not hasattr(q, "appended"):
                raise Unsupported("list changed in a loop other than by append")
            ch.append(q.appended[1])
            q = q.appended[0]
        if not isinstance(q, SymSeq):
            raise Unsupported("list changed in a loop other than by append")
        app.append((c, ch[::-1]))
    cnt = len(app[0][1])
    if any(len(a) != cnt for _, a in app):
        raise Unsupported("conditional append in a symbolic loop")
    if cnt == 0:
        init = s.init
        return lambda t: init
    merged = [merge_paths([(c, freeze(a[i])) for c, a in app]) for i in range(cnt)]
    for mrg in merged:
        if has_val(mrg, opened):
            s.post = True
            return None
    init = s.init if isinstance(s.init, SymSeq) else E.bm.to_seq(E, list(s.init))
    n0 = init.n

    def cf(t):
        def item(j):
            j = T.conc(j)
            if not T.is_t(n0) and n0 == 0:
                jj = j
            else:
                jj = T.sub(j, n0)
            if cnt == 1:
                v = subst_val(merged[0], [(k, jj)])
            else:
                q = T.idiv(jj, cnt)
                r = T.mod(jj, cnt)
                v = subst_val(merged[-1], [(k, q)])
                from .builtins_model import merge_vals
                for i in range(cnt - 2, -1, -1):
                    v = merge_vals(T.eq(r, i), subst_val(merged[i], [(k, q)]), v)
            if not T.is_t(n0) and n0 == 0:
                return v
            from .builtins_model import merge_vals
            if not T.is_t(j) and not T.is_t(n0):
                return init.item(j) if j < n0 else v
            return merge_vals(T.lt(j, n0), init.item(j), v)
        return SymSeq(T.add(n0, T.mul(cnt, t)), item)
    return cf


def has_val(v, names):
    if T.is_t(v):
        return has(v, names)
    if isinstance(v, Arr):
        ps = [z3.FreshConst(T.I, "hv") for _ in v.shape]
        return any(has(d, names) for d in v.shape) or has(v.get(tuple(ps)), names)
    if isinstance(v, (tuple, list)):
        return any(has_val(x, names) for x in v)
    if isinstance(v, PList):
        return has_val(v.items.item(z3.FreshConst(T.I, "hv")), names) if isinstance(v.items, SymSeq) else any(has_val(x, names) for x in v.items)
    return False


def derive_array(E, n, k, s, vals, opened, hyp):
    ps = s.ps
    idx = tuple(ps)
    # same shape on every path
    rds = []
    for c, v in vals:
        if s.kind == "slist":
            v = v.items if isinstance(v, PList) else v
            if not isinstance(v, SymSeq) or hasattr(v, "appended") or not _same(v.n, s.shape[0]):
                raise Unsupported("list changed in a loop other than by overwriting its items")
            x = v.item(idx[0])
            if not is_scalar(x) or s.dtype == "i8" and T.sortof(x) != "i":
                raise Unsupported("list of mixed items in a loop")
            rds.append((c, T.toreal(x) if s.dtype == "f8" else x))
        elif s.kind == "buf":
            rds.append((c, v(idx) if callable(v) else v))
        else:
            if isinstance(v, Dead):
                if s.mode == "dead":
                    # value kept from the previous iteration on some path
                    raise DeadRead(v, "")
                raise Unsupported("dead array")
            if not isinstance(v, Arr):
                s.kind = "other"
                s.post = vals
                return None
            if v.ndim != len(s.shape) or not all(_same(a, b) or E.entails(T.eq(a, b)) for a, b in zip(v.shape, s.shape)):
                s.kind = "other"
                s.post = vals
                return None
            if v.dtype != s.dtype:
                pd = promote(v.dtype, s.dtype)
                if pd != s.dtype:
                    s.kind = "other"
                    s.post = vals
                    return None
            rds.append((c, cast(v.get(idx), v.dtype, s.dtype)))
    uniq = []
    for c, t in rds:
        uniq.append((c, t))
    post = merge_paths(uniq)
    s.post = post
    own = s.f.name() if s.f is not None else None
    self_t = s.sym(k, idx) if s.f is not None else None
    inb = [T.tz(T.and_(T.ge(p, 0), T.lt(p, d))) for p, d in zip(ps, s.shape)]
    inb = [c for c in inb if T.is_t(T.conc(c))]
    others = opened - ({own} if own else set())
    init_rd = s.init_rd
    ctx = hyp + inb + [k >= 0] + ([T.tz(T.lt(k, n))] if n is not None and T.is_t(T.conc(T.lt(k, n))) else [])
    many = len(rds) >= 6 and self_t is not None
    if many:
        # path by path, without multiplying out the paths
        cs = [((c,) + g, v) for c, t in rds for g, v in (cases(t) if T.is_t(t) else [((), t)])]
        live = []
        for g, v in cs:
            og = has(T.and_(*g), opened)
            if (og or has(v, opened)) and not (T.is_t(v) and v.eq(self_t)):
                if not S.feasible(ctx, T.tz(T.and_(*g))):
                    continue
                if og or has(v, others):
                    return None
            live.append((g, v))
        cs = live
    else:
        cs = cases(post) if T.is_t(post) else [((), post)]
        cs = [(g, v) for g, v in cs if open_guard(T.and_(*g), ps) or S.feasible(ctx, T.tz(T.and_(*g)) if g else True)]
    if not cs:
        raise Unsupported("no case of a loop effect is feasible")
    wr = [(g, v) for g, v in cs if not (self_t is not None and T.is_t(v) and v.eq(self_t))]
    keep = [(g, v) for g, v in cs if self_t is not None and T.is_t(v) and v.eq(self_t)]
    if not wr:
        if s.kind == "slist":
            return lambda t: s.init
        return (lambda t: init_rd) if s.kind == "buf" else (lambda t: arr_of(s, init_rd))
    allopen = opened
    if any(has(v, others) for g, v in wr):
        return None
    kn = {k.decl().name()}
    if any(has(T.and_(*g), allopen) for g, v in cs):
        if own is None or any(has(T.and_(*g), others) for g, v in wr):
            return None
        return own_guard(E, s, k, n, ps, wr, self_t, ctx, init_rd)
    G, val, G0 = by_path(rds, wr) if many else (T.or_(*[T.and_(*g) for g, v in wr]), rebuild(wr), None)

    def mk(content):
        """content(t, idx)"""
        if s.kind == "slist":
            return lambda t: SymSeq(s.shape[0], lambda j: content(t, (j,)))
        if s.kind == "buf":
            return lambda t: (lambda ix: content(t, ix))
        return lambda t: arr_of(s, lambda ix: content(t, ix))

    def at(term, ix, kk=None):
        if not T.is_t(term):
            return term
        prs = list(zip(ps, ix))
        if kk is not None:
            prs.append((k, kk))
        return T.subst(term, prs)
    selfuse = own is not None and has(val, {own})
    if selfuse:
        val = own_cell(s, k, ps, wr, self_t)
        selfuse = has(val, {own})
    d = None
    if selfuse:
        d = minus(val, self_t)
    gk = has(G, kn)
    # (a) unconditional on k: accumulate or last value
    if not gk:
        if d is not None:
            # sum over iterations
            def content(t, ix):
                dd = lambda j: at(d, ix, j)
                base = init_rd(ix)
                if not has(d, kn):
                    dv = at(d, ix)
                    tot = T.mul(dv, t) if dkind(s.dtype) != "f" else T.mul(T.toreal(dv), T.toreal(t))
                elif dkind(s.dtype) == "f":
                    tot = T.apply_functional("SUM", [t], lambda j: T.toreal(dd(j)))
                else:
                    tot = E.np.int_sum(E, [t], lambda q: dd(q[0]))
                return T.ite(at(G, ix), T.add(base, tot), base)
            return mk(content)
        if not selfuse:
            def content(t, ix):
                c = T.and_(T.gt(t, 0), at(G, ix))
                return T.ite(c, at(val, ix, T.sub(t, 1)), init_rd(ix))
            return mk(content)
    # (b) at most one iteration writes a cell
    for w in witnesses(G, k, ps):
        ok = S.prove(ctx + [T.tz(G if G0 is None else G0)], T.tz(T.eq(k, w)), timeout=2500, lemma=True)[0] == "proved"
        if not ok:
            continue
        v2 = val
        if selfuse:
            v2 = resolve_self(E, s, k, n, ps, G, w, val, self_t, ctx, init_rd)
            if v2 is None:
                continue
        # is the guard implied by the range of w?
        Gw = T.subst(T.tz(G), [(k, w)])
        Gs = T.conc(z3.simplify(T.tz(Gw))) if T.is_t(Gw) else Gw
        def content(t, ix, w=w, v2=v2, Gs=Gs):
            wi = at(w, ix)
            c = T.and_(T.ge(wi, 0), T.lt(wi, t), at(Gs, ix) if T.is_t(Gs) else Gs)
            c = simp(c)
            if c is False:
                return init_rd(ix)
            v = at(v2, ix, wi)
            return T.ite(c, v, init_rd(ix))
        return mk(content)
    # (b') the same without a formula for the iteration: a fresh function names it
    if gk and not selfuse and not s.lv and not E.loopvars and s.kind != "slist" and T.is_t(G):
        k2 = T.fresh("k", T.I)
        two = [h for h in ctx if not isinstance(h, S.Univ)]
        two = two + [T.subst(h, [(k, k2)]) for h in two if T.contains(h, kn)] + [T.tz(G), T.subst(T.tz(G), [(k, k2)]), k < k2]
        if S.prove([h for h in ctx if isinstance(h, S.Univ)] + two, z3.BoolVal(False), timeout=4000, lemma=True)[0] == "proved":
            wf = T.fresh_fun("wit", *([T.I] * (len(ps) + 1)))
            rng = T.and_(T.ge(k, 0), T.lt(k, n)) if n is not None else T.ge(k, 0)
            s.axioms = [S.WitAx(wf.name(), ps, k, T.tz(T.implies(T.and_(G, rng), T.eq(wf(*ps), k))))]

            def content(t, ix):
                wi = wf(*[T.tz(i) for i in ix])
                c = simp(T.and_(T.ge(wi, 0), T.lt(wi, t), at(G, ix, wi)))
                return init_rd(ix) if c is False else T.ite(c, at(val, ix, wi), init_rd(ix))
            return mk(content)
    # (c) accumulation with arbitrary guards
    if d is not None:
        def content(t, ix):
            tot = T.apply_functional("SUM", [t], lambda j: T.ite(at(G, ix, j), T.toreal(at(d, ix, j)), Fraction(0))) if dkind(s.dtype) == "f" else E.np.int_sum(E, [t], lambda q: T.ite(at(G, ix, q[0]), T.toint_num(at(d, ix, q[0])), 0))
            return T.add(init_rd(ix), tot)
        return mk(content)
    raise Unsupported("array effect of the loop has no closed form")


def own_guard(E, s, k, n, ps, wr, self_t, ctx, init_rd):
    """whether a cell is written depends on cells of the array itself, which no
    earlier iteration has written (the guard without them already fixes the iteration)"""
    own = s.f.name()
    if s.kind == "slist":
        return None
    weak = T.or_(*[T.and_(*[c for c in flat(g) if not has(c, {own})]) for g, v in wr])
    G, val = T.or_(*[T.and_(*g) for g, v in wr]), rebuild(wr)
    if not T.is_t(weak):
        return None
    for w in witnesses(weak, k, ps):
        if S.prove(ctx + [weak], T.tz(T.eq(k, w)), timeout=2500, lemma=True)[0] != "proved":
            continue
        v2 = resolve_self(E, s, k, n, ps, weak, w, val, self_t, ctx, init_rd) if has(val, {own}) else val
        g2 = resolve_self(E, s, k, n, ps, weak, w, G, self_t, ctx, init_rd)
        if v2 is None or g2 is None:
            continue

        def content(t, ix, w=w, v2=v2, g2=g2):
            sub = lambda e, kk: T.subst(e, list(zip(ps, ix)) + [(k, kk)]) if T.is_t(e) else e
            wi = T.subst(w, list(zip(ps, ix))) if T.is_t(w) else w
            c = simp(T.and_(T.ge(wi, 0), T.lt(wi, t), sub(g2, wi)))
            return init_rd(ix) if c is False else T.ite(c, sub(v2, wi), init_rd(ix))
        return (lambda t: (lambda ix: content(t, ix))) if s.kind == "buf" else (lambda t: arr_of(s, lambda ix: content(t, ix)))
    return None


def by_path(rds, wr):
    """where and what is written, from the cases of every path; the cells the
    paths write are compared as formulas (third result: the common one)"""
    ps = []
    for c, t in rds:
        w = [(g[1:], v) for g, v in wr if same_bool(g[0], c)]
        if w:
            ps.append((c, T.or_(*[T.and_(*g) for g, v in w]), rebuild(w)))
    g0 = ps[0][1]
    if all(same_bool(g, g0) for c, g, v in ps):
        G = g0 if len(ps) == len(rds) else T.and_(T.or_(*[c for c, g, v in ps]), g0)
    else:
        g0, G = None, T.or_(*[T.and_(c, g) for c, g, v in ps])
    return G, merge_paths([(c, v) for c, g, v in ps]), g0


def same_bool(a, b):
    return a is b or T.is_t(a) and T.is_t(b) and a.eq(b)


def own_cell(s, k, ps, wr, self_t):
    """reads of the array at the written cell itself: h(.., q) with q = p by the guard"""
    own = s.f.name()
    out = []
    for g, v in wr:
        if has(v, {own}):
            t = T.tz(v)
            prs = []
            for x in S.collect([t]):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == own and not S.has_var(x) and not x.eq(self_t):
                    if not x.children()[len(s.lv)].eq(k):
                        continue
                    q = x.children()[len(s.lv) + 1:]
                    eqs = T.and_(*[T.eq(T.conc(a), p) for a, p in zip(q, ps)])
                    if eqs is True or T.is_t(eqs) and (all(any(T.is_t(c) and c.eq(e) for c in flat(g)) for e in flat([eqs])) or S.prove([T.tz(c) for c in g], T.tz(eqs), timeout=1000, lemma=True)[0] == "proved"):
                        prs.append((x, self_t))
            if prs:
                v = T.conc(z3.substitute(t, *prs))
        out.append((g, v))
    return rebuild(out)


def flat(cs):
    out = []
    for c in cs:
        if T.is_t(c) and z3.is_and(c):
            out.extend(flat(c.children()))
        else:
            out.append(c)
    return out


def simp(c):
    if not T.is_t(c):
        return c
    cs = [T.conc(x) for x in S._conj(c)]
    out = []
    for x in cs:
        if T.is_t(x):
            y = z3.simplify(x)
            if z3.is_true(y):
                continue
            if z3.is_false(y):
                return False
        out.append(x)
    return T.and_(*out)


def arr_of(s, rd):
    return new_arr(s.shape, s.dtype, lambda ix: rd(tuple(ix)), "loop")


def resolve_self(E, s, k, n, ps, G, w, val, self_t, ctx, init_rd):
    """replace reads of the array itself by its initial content where the cell
    has not been written by an earlier iteration"""
    own = s.f.name()
    t = T.tz(val)
    for _ in range(6):
        occ = [x for x in S.collect([t]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == own and not S.has_var(x)]
        if not occ:
            if T.contains(t, {own}):
                return None
            return T.conc(t)
        # innermost first
        occ.sort(key=lambda x: len(x.sexpr()))
        x = occ[0]
        q = x.children()[len(s.lv) + 1:]
        if not x.children()[len(s.lv)].eq(k):
            return None
        if all(a.eq(b) for a, b in zip(q, ps)):
            pass        # cell p itself: written by iteration k only, hence still initial
        else:
            wq = T.subst(T.tz(w), list(zip(ps, q)))
            Gq = T.subst(T.subst(T.tz(G), list(zip(ps, q))), [(k, T.tz(wq))])
            bad = T.and_(T.ge(wq, 0), T.lt(wq, k), Gq)
            if T.contains(T.tz(bad), {own}) if T.is_t(bad) else False:
                return None
            if S.prove(ctx + [T.tz(G)], T.tz(T.not_(bad)), timeout=2000, lemma=True)[0] != "proved":
                return None
        t = z3.substitute(t, (x, T.tz(init_rd(tuple(T.conc(a) for a in q)))))
    return None


def witnesses(G, k, ps):
    """candidate terms w(p) with G(k,p) -> k = w(p)"""
    pn = {p.decl().name() for p in ps}
    kn = {k.decl().name()}
    out = []
    seen = set()

    def addw(w):
        w = T.conc(w)
        if T.is_t(w):
            if w.get_id() in seen:
                return
            seen.add(w.get_id())
            S.KEEP.append(w)
        out.append(w)
    atoms = []
    st = [G]
    done = set()
    while st:
        x = st.pop()
        if not T.is_t(x) or x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
            st.extend(x.children())
            continue
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and x.num_args() == 2 and x.arg(0).sort() == T.I:
            if has(x, kn):
                atoms.append(x)
    atoms.sort(key=lambda x: (x.decl().kind() != z3.Z3_OP_EQ, not T.contains(x, pn)))
    for x in atoms:
        a, b = T.conc(x.arg(0)), T.conc(x.arg(1))
        for e in (T.sub(a, b),) + tuple(inner_div(x, kn)):
            lc = linear_coef(e, k)
            if lc is None:
                continue
            c, r = lc
            if not T.is_t(c) and c == 0:
                continue
            if not T.is_t(c):
                # c*k + r (= / >= ...) 0
                w = T.idiv(T.neg(r), c) if c > 0 else T.idiv(r, -c)
                addw(w)
                addw(T.idiv(T.sub(T.neg(r), 1), c) if c > 1 else T.idiv(T.sub(r, 1), -c) if c < -1 else w)
            else:
                addw(T.idiv(T.neg(r), c))
                addw(T.idiv(r, T.conc(z3.simplify(T.tz(T.neg(c))))))
        if len(out) > 14:
            break
    return out[:14]


def inner_div(x, kn):
    """arguments of div/mod sub-terms that mention k"""
    out = []
    for t in S.collect([x]):
        if z3.is_app(t) and (t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or t.decl().name() in ("ediv", "emod")) and T.contains(t.arg(0), kn):
            out.append(t.arg(0))
    return out[:2]


def linear_coef(e, k):
    """e = c*k + r with c, r free of k"""
    if not T.is_t(e):
        return None
    try:
        L = S.Lin()
        p = L.poly(e)
    except S.Budget:
        return None
    ka = None
    for i, a in L.atoms.items():
        if a.eq(k):
            ka = i
    if ka is None:
        return None
    c, r = S.Poly(), S.Poly()
    kn = {k.decl().name()}
    for m, v in p.m.items():
        cnt = m.count(ka)
        rest = list(m)
        if cnt == 1:
            rest.remove(ka)
        elif cnt > 1:
            return None
        for q in rest:
            if T.contains(L.atoms[q], kn):
                return None
        if cnt:
            c = c.add(S.Poly({tuple(rest): v}))
        else:
            r = r.add(S.Poly({m: v}))
    ct, rt = S.poly_term(c, L), S.poly_term(r, L)
    if ct is None or rt is None:
        return None
    return T.conc(ct), T.conc(rt)


# ------------------------------------------------------------------ the loop rule
def sym_loop(E, n, iteration, env, st, test):
    sm = analyse(E, n, iteration, env, st)
    k, locs, rs = sm.k, sm.locs, sm.rs
    ok = [r for r in rs if r.kind == "ok"]
    exits = [r for r in rs if r.kind in ("break", "return", "raise")]
    E.loops_seen[(E.file, st.lineno)] = {"rounds": sm.rounds, "closed": sorted(s.name() for s in locs.values() if s.mode == "cf"), "open": sorted(s.name() for s in locs.values() if s.mode == "havoc")}
    lift_facts(E, k, n, rs, sm)
    cond = None
    if test is not None and not isinstance(test, ast.Constant):
        def condk(t):
            def run():
                E.loopvars = E.loopvars + [k] if T.is_t(t) and t.eq(k) else E.loopvars
                for s in locs.values():
                    s.install(E, t)
                v = E.eval(test, env)
                v = E.unbox(v) if isinstance(v, Arr) else v
                if T.is_t(v):
                    return T.truth(v)
                return E.truth(v)
            return merged_truth(E, run)
        ck = condk(k)
        cond = lambda t: T.subst(ck, [(k, t)]) if T.is_t(ck) else ck
    exit_k = T.or_(*[dec_of(r) for r in exits]) if exits else False
    infinite = test is not None and isinstance(test, ast.Constant)
    if test is not None and not infinite:
        N = while_count(E, sm, cond, exit_k)
    else:
        N = n
    # does every iteration end in an exit?
    opts = ["none"]
    if exits:
        opts = ["none", "exit"] if not infinite else ["exit"]
    ch = opts[0]
    if len(opts) == 2:
        # decided without a choice where possible
        ch = E.choose(opts)
    if ch == "none":
        if exits and T.is_t(exit_k):
            def noexit(j):
                return T.tz(T.implies(T.and_(T.ge(j, 0), T.lt(j, N)), T.not_(T.subst(exit_k, [(k, j)]))))
            E.assume(S.Univ(noexit, 1, "no exit"))
            E.assume(noexit(z3.IntVal(0)))
            if T.is_t(N):
                E.assume(noexit(T.tz(T.sub(N, 1))))
            if not E.feasible(True):
                raise Infeasible()
        elif exits and exit_k is True:
            if not E.feasible(T.le(N, 0)):
                raise Infeasible()
            E.assume(T.le(N, 0))
        steps(E, sm, N)
        finish(E, sm, N)
        E.exec_body(st.orelse, env)
        return
    # leave at iteration m
    m = E.fresh("m", T.I)
    E.assume(m >= 0)
    if N is not None:
        E.assume(T.lt(m, N))
    if T.is_t(exit_k):
        E.assume(T.subst(exit_k, [(k, m)]))
        E.assume(S.Univ(lambda j: T.tz(T.implies(T.and_(T.ge(j, 0), T.lt(j, m)), T.not_(T.subst(exit_k, [(k, j)])))), 1, "first exit"))
    if not E.feasible(True):
        raise Infeasible()
    steps(E, sm, m)
    finish(E, sm, m, exiting=True)
    try:
        iteration(m)
    except Brk:
        return
    raise Infeasible()


def while_count(E, sm, cond, exit_k):
    """number of iterations of a while loop (partial correctness)"""
    k = sm.k
    hyp = E.hyps()
    ck = cond(k)
    for cand in while_candidates(E, ck, k):
        c1 = S.prove(hyp, T.tz(T.ge(cand, 0)), timeout=1500, lemma=True)[0] == "proved"
        if not c1:
            continue
        cc = cond(cand)
        if S.prove(hyp, T.tz(T.not_(cc)), timeout=2000, lemma=True)[0] != "proved":
            continue
        if S.prove(hyp + [k >= 0, T.tz(T.lt(k, cand))], T.tz(ck), timeout=2000, lemma=True)[0] == "proved":
            return T.conc(cand)
    N = E.fresh("N", T.I)
    E.assume(N >= 0)
    E.assume(T.not_(cond(N)) if not (exit_k is not False) else T.not_(cond(N)))
    E.assume(T.implies(T.gt(N, 0), cond(T.sub(N, 1))))
    E.assume(T.implies(T.gt(N, 0), cond(0)))
    E.assume(S.Univ(lambda j: T.tz(T.implies(T.and_(T.ge(j, 0), T.lt(j, N)), cond(j))), 1, "while"))
    E.assumptions.add("while loops: partial correctness (termination by argument, see DESIGN)")
    return N


def while_candidates(E, ck, k):
    out = [0]
    if not T.is_t(ck):
        return []
    for t in S.collect([ck]):
        if not z3.is_app(t):
            continue
        kind = t.decl().kind()
        if kind == z3.Z3_OP_MOD or (kind == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "emod"):
            lc = linear_coef(t.arg(0), k)
            if lc and not T.is_t(lc[0]) and abs(lc[0]) == 1:
                m = T.conc(t.arg(1))
                out.append(T.mod(lc[1] if lc[0] == -1 else T.neg(lc[1]), m))
            elif lc and not T.is_t(lc[0]) and lc[0] != 0:
                # (r - c*k) mod m with c dividing r and m
                c = abs(lc[0])
                r, m = lc[1] if lc[0] < 0 else T.neg(lc[1]), T.conc(t.arg(1))
                try:
                    L = S.glin()
                    q = [S.poly_term(L.poly(T.tz(x)).scale(Fraction(1, c)), L) for x in (r, m)]
                except S.Budget:
                    continue
                if q[0] is not None and q[1] is not None:
                    out.append(T.mod(T.conc(q[0]), T.conc(q[1])))
        elif kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and t.arg(0).sort() == T.I:
            lc = linear_coef(T.sub(T.conc(t.arg(0)), T.conc(t.arg(1))), k)
            if lc and not T.is_t(lc[0]) and lc[0] != 0:
                c, r = lc
                # zero crossing of c*k + r
                for x in (T.idiv(T.neg(r), c) if c > 0 else T.idiv(r, -c),):
                    for dlt in (0, 1, -1):
                        out.append(T.max_(T.add(x, dlt), 0))
    return out[:10]


def elementwise_while(E, st, env):
    """while np.any(c(x)): x = where(c(x), x - d, x) -- every element is stepped
    its own number of times"""
    names = [x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
    arrs = [nm for nm in set(names) if isinstance(env.d.get(nm), Arr)]
    if len(arrs) != 1 or len(set(names)) != 1 or st.orelse:
        return False
    nm = arrs[0]
    a = env.d[nm]
    if a.ndim == 0:
        return False
    shape, dt = a.shape, a.dtype
    if dkind(dt) != "f":
        # the loop may change the type on its first pass (int -> float)
        return False
    F = T.fresh_fun("ew", *([T.I] * len(shape) + [E.np.sort_of_dt(dt)]))
    rd0 = a.reader()
    ps = [T.fresh("p", T.I) for _ in shape]

    def run():
        env.set(nm, new_arr(shape, dt, lambda ix: F(*[T.tz(i) for i in ix])))
        v = E.eval(st.test, env)
        v = E.unbox(v) if isinstance(v, Arr) else v
        return T.truth(v) if T.is_t(v) else E.truth(v)
    try:
        rs = E.explore(run)
        if len(rs) != 1 or rs[0].kind != "ok" or not T.is_t(rs[0].val):
            return False
        c = rs[0].val
        if not (T.is_functional(c) and c.decl().name().startswith("FN_ANY") and c.num_args() == len(shape) + 1):
            return False
        lam = c.arg(len(shape))
        if not all(_same(T.conc(c.arg(i)), d) for i, d in enumerate(shape)):
            return False
        cc = z3.substitute_vars(lam.body(), *reversed(ps))

        def body():
            run()
            E.exec_body(st.body, env)
            return freeze(env.d[nm])
        rs = E.explore(body)
        if len(rs) != 1 or rs[0].kind != "ok":
            return False
        r = rs[0].val
        if not isinstance(r, Arr) or r.ndim != len(shape) or not all(_same(x, y) for x, y in zip(r.shape, shape)):
            return False
        post = r.get(tuple(ps))
    except (Unsupported, PyRaise):
        return False
    fx = F(*ps)
    x = T.fresh("x", T.R)
    cx = z3.substitute(cc, (fx, x))
    px = z3.substitute(T.tz(post), (fx, x))
    if T.contains(cx, {F.name()}) or T.contains(px, {F.name()}):
        return False
    # under not c: unchanged; under c: x + d
    hyp = E.hyps()
    if S.prove(hyp + [z3.Not(cx)], px == x, timeout=2000, lemma=True)[0] != "proved":
        return False
    d = None
    for g, v in cases(T.conc(px)):
        if S.feasible(hyp + [cx], T.tz(T.and_(*g)) if g else True):
            dd = minus(v, x)
            if dd is None or d is not None and not (T.tz(dd).eq(T.tz(d))):
                return False
            d = dd
    if d is None or T.is_t(d) and T.contains(d, {p.decl().name() for p in ps}):
        return False
    lv = list(E.loopvars)
    cnt = T.fresh_fun("steps", *([T.I] * len(lv) + [T.R, T.I]))
    xv = z3.Real("x$steps")
    nt = cnt(*(lv + [xv]))
    xn = T.tz(T.add(xv, T.mul(T.toreal(d), T.toreal(nt))))
    xl = T.tz(T.add(xv, T.mul(T.toreal(d), T.toreal(T.sub(nt, 1)))))
    fact = z3.And(nt >= 0, z3.Not(z3.substitute(cx, (x, xn))), z3.Implies(nt > 0, z3.substitute(cx, (x, xl))))
    E.assume(S.FunAx(cnt.name(), lv + [xv], fact))
    E.assumptions.add("while loops: partial correctness (termination by argument, see DESIGN)")

    def content(ix):
        v = T.toreal(rd0(ix))
        return T.add(v, T.mul(T.toreal(d), T.toreal(cnt(*(lv + [T.tz(v)])))))
    env.set(nm, new_arr(shape, dt, content))
    E.loops_seen[(E.file, st.lineno)] = {"rounds": 1, "closed": [nm], "open": []}
    return True


def lift_facts(E, k, n, rs, sm=None):
    if sm is not None:
        for r, m in saved_facts(E, sm):
            lift_facts(E, k, n, [r] if m == 1 else [r, PathLike([False], [])])
    """facts established inside the body about functions of k, generalised to every k"""
    kn = {k.decl().name()}
    lv = list(E.loopvars)
    cnt = 0
    for r in rs:
        dec = [d for d in r.dec if not isinstance(d, S.Univ)]
        rng = [k >= 0] + ([T.tz(T.lt(k, n))] if n is not None and T.is_t(T.conc(T.lt(k, n))) else [])
        guard = T.and_(*(dec + rng)) if len(rs) > 1 else T.and_(*rng)
        for f in r.facts:
            if isinstance(f, S.FunAx):
                if any(p.eq(k) for p in f.params):
                    E.pc.append((S.FunAx(f.name, f.params, T.implies(guard, f.fact)), False))
                    cnt += 1
                continue
            if isinstance(f, S.Univ):
                continue
            if not T.contains(f, kn):
                continue
            # the first function of k in the fact
            for t in S.collect([f]):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == len(lv) + 1 and "!" in t.decl().name() and t.arg(len(lv)).eq(k) and all(a.eq(b) for a, b in zip(t.children(), lv)):
                    E.pc.append((S.FunAx(t.decl().name(), lv + [k], T.implies(guard, f)), False))
                    cnt += 1
                    break
        if cnt > 60:
            break


def steps(E, sm, N):
    """step equations of the locations without a closed form"""
    k = sm.k
    for s in sm.locs.values():
        if s.mode == "havoc" and s.kind == "scalar" and s.f is not None and T.is_num(s.post):
            E.assume(T.eq(s.sym(0), s.init))
            post = s.post
            E.assume(S.Univ(lambda j, s=s, post=post: T.tz(T.implies(T.and_(T.ge(j, 0), T.lt(j, N)), T.eq(s.sym(T.add(j, 1)), T.subst(post, [(k, j)]) if T.is_t(post) else post))), 1, "step"))


def finish(E, sm, N, exiting=False):
    """install the state after N iterations"""
    k = sm.k
    ok = [r for r in sm.rs if r.kind == "ok"]
    for s in sm.locs.values():
        if s.mode == "cache":
            continue
        if s.mode == "cf":
            for a in getattr(s, "axioms", ()):
                E.assume(a)
            v = s.cf(N)
            if s.kind in ("buf", "arr"):
                v = tidy(E, s, v)
            loc_set(s.loc, v)
            continue
        if not ok:
            # no iteration completes: the state is the initial one
            if s.kind in ("buf", "list", "slist"):
                loc_set(s.loc, s.init)
            else:
                loc_set(s.loc, s.init)
            continue
        if s.mode == "havoc" and s.kind == "scalar":
            STAT["opaque"] += 1
            E.abstract("loop-carried value %s without closed form" % s.name())
            loc_set(s.loc, s.sym(N))
            E.assume(T.implies(T.le(N, 0), T.eq(s.sym(N), s.init)))
            continue
        if s.mode == "havoc" and s.kind in ("buf", "arr", "slist"):
            STAT["opaque"] += 1
            E.abstract("array %s after the loop has no closed form (%s)" % (s.name(), s.why))
            s.install(E, N)
            continue
        if s.mode == "havoc" and s.kind == "list":
            raise Unsupported("list after the loop: %s" % s.why)
        # dead: temporaries and rebinding
        v = Dead()
        if isinstance(s.post, list) and not exiting:
            try:
                opened = set()
                for q in sm.locs.values():
                    opened |= q.open_names()
                vals = [(c, x) for c, x in s.post]
                if all(x is not MISSING and not isinstance(x, Dead) for _, x in vals):
                    mv = merge_paths([(c, E.unbox(x) if isinstance(x, Arr) and x.ndim == 0 else x) for c, x in vals])
                    if E.entails(T.gt(N, 0)):
                        v = subst_val(mv, [(k, T.sub(N, 1))])
                    elif s.init is not MISSING and is_scalar(mv) and is_scalar(s.init):
                        v = T.ite(T.gt(N, 0), subst_val(mv, [(k, T.sub(N, 1))]), s.init)
            except Unsupported:
                v = Dead()
        elif s.kind == "arr" and s.mode == "dead":
            pass
        if exiting and s.kind == "temp":
            # values of the previous iteration: not tracked
            pass
        s.loc[0].set(s.loc[1], v)


def tidy(E, s, v):
    """drop the range guard of the final content when it holds on the whole array"""
    rd = v if callable(v) else v.reader()
    ps = s.ps
    t = rd(tuple(ps))
    t = T.conc(t)
    if T.is_t(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        inb = [T.tz(T.and_(T.ge(p, 0), T.lt(p, d))) for p, d in zip(ps, s.shape)]
        hyp = E.hyps() + [c for c in inb if T.is_t(T.conc(c))]
        c = t.arg(0)
        if not open_guard(c, ps) and not S.feasible(hyp, T.tz(T.not_(c))):
            a = T.conc(t.arg(1))
            f = lambda ix: T.subst(a, list(zip(ps, ix))) if T.is_t(a) else a
            return f if callable(v) else new_arr(s.shape, s.dtype, f, "loop")
    return v


# ------------------------------------------------------------------ comprehensions
def comprehension(E, e, env, kind):
    if len(e.generators) == 1:
        g = e.generators[0]
        it = E.eval(g.iter, env)
        items = E.bm.conc_items(E, it)
        if items is None or len(items) > 400:
            s = E.bm.to_seq(E, it)
            if items is None:
                sn = S_small(E, s.n)
                if sn is not None:
                    items = [s.item(i) for i in range(sn)]
            if items is None or len(items) > 400:
                if g.ifs or kind not in ("list", "gen"):
                    raise Unsupported("filtered comprehension over a symbolic sequence")

                def f(x):
                    ce = Env(env, env.module, "comp")
                    E.assign(g.target, x, ce)
                    return E.eval(e.elt, ce)
                r = sym_map(E, s, f)
                return r if kind == "list" else r.items
        out = run_comp(E, e, env, kind, 0, items)
    else:
        out = run_comp(E, e, env, kind, 0, None)
    if kind == "list":
        return PList(out)
    if kind == "gen":
        return IterV(out)
    if kind == "set":
        return PSet([E.bm.hkey(E, x) for x in out])
    d = PDict()
    for a, b in out:
        d.d[E.bm.hkey(E, a)] = b
    return d


def run_comp(E, e, env, kind, i, items):
    g = e.generators[i]
    if items is None:
        items = E.bm.conc_items(E, E.eval(g.iter, env))
        if items is None:
            raise Unsupported("nested comprehension over a symbolic sequence")
    out = []
    for x in items:
        ce = Env(env, env.module, "comp")
        E.assign(g.target, x, ce)
        if not all(E.truth(E.eval(c, ce)) for c in g.ifs):
            continue
        if i + 1 < len(e.generators):
            out.extend(run_comp(E, e, ce, kind, i + 1, None))
        elif kind == "dict":
            out.append((E.eval(e.key, ce), E.eval(e.value, ce)))
        else:
            out.append(E.eval(e.elt, ce))
    return out


def sym_map(E, s, f):
    """list of f(s[k]) for k < s.n"""
    k = T.fresh("k", T.I)
    n = s.n
    birth0 = BIRTH[0]

    def once():
        E.loopvars = E.loopvars + [k]
        E.assume(k >= 0)
        E.assume(T.lt(k, n))
        return f(s.item(k))

    def capture(kind, val, m):
        for loc, _ in TRAIL.log[m:]:
            if loc[0].birth <= birth0 and loc[0].label != "cache":
                raise Unsupported("comprehension with side effects")
        return freeze(val) if kind == "ok" else None
    rs = E.explore(once, capture)
    ok = [r for r in rs if r.kind == "ok"]
    bad = [r for r in rs if r.kind == "raise"]
    lift_facts(E, k, n, rs)
    if bad:
        bk = T.or_(*[dec_of(r) for r in bad])
        ch = E.choose(["none", "raise"])
        if ch == "raise":
            m = E.fresh("m", T.I)
            E.assume(T.and_(T.ge(m, 0), T.lt(m, n)))
            if T.is_t(bk):
                E.assume(T.subst(bk, [(k, m)]))
            if not E.feasible(True):
                raise Infeasible()
            f(s.item(m))
            raise Infeasible()
        if T.is_t(bk):
            E.assume(S.Univ(lambda j: T.tz(T.implies(T.and_(T.ge(j, 0), T.lt(j, n)), T.not_(T.subst(bk, [(k, j)])))), 1, "no raise"))
        else:
            E.assume(T.le(n, 0))
        if not E.feasible(True):
            raise Infeasible()
    if not ok:
        return PList([])
    mv = merge_paths([(dec_of(r), r.cap) for r in ok])
    probe = mv
    return PList(SymSeq(n, lambda j: subst_val(mv, [(k, j)])))
