"""Symbolic interpreter of the repository's Python source.

The source files are read and parsed on every run; nothing is rewritten by
hand.  Paths are explored by re-execution with a decision trace.
"""
import ast
import os
import time
from fractions import Fraction
import z3
from . import terms as T
from . import solver as S
from .values import *

UNROLL = 40


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Explorer:
    def __init__(self):
        self.trace = []
        self.pos = 0

    def advance(self):
        while self.trace:
            d = self.trace[-1]
            if d[2]:
                d[0] = d[2].pop(0)
                return True
            self.trace.pop()
        return False


class PathRes:
    __slots__ = ("dec", "facts", "kind", "val", "cap")

    def __init__(self, dec, facts, kind, val, cap):
        self.dec, self.facts, self.kind, self.val, self.cap = dec, facts, kind, val, cap


class Obligation:
    def __init__(self, name, status, backend, reason, exact, model, pc, goal, ms):
        self.name, self.status, self.backend, self.reason = name, status, backend, reason
        self.exact, self.model, self.pc, self.goal, self.ms = exact, model, pc, goal, ms


class Engine:
    def __init__(self, repo="/repo", package="micropolarray"):
        self.repo, self.package = repo, package
        self.pc = []              # [(term or Univ, is_decision)]
        self.ex = None
        self.modules = {}
        self.asts = {}
        self.obligations = []
        self.njit = 0
        self.stack = []           # function quals
        self.line = None
        self.file = None
        self.loopvars = []        # enclosing symbolic loop indices
        self.summaries = {}       # qual -> contract summary
        self.no_summary = set()
        self.used_summaries = set()
        self.functions_run = {}   # qual -> (file, first line, last line)
        self.loops_seen = {}
        self.abstracted = []      # reasons for lost information on this path
        self.assumptions = set()
        self.world = None         # file system model
        self.hooks = {}           # qual -> python replacement (contract assumptions on dependencies)
        self.collecting = True
        self.skipped = 0
        self.path_count = 0
        self.depth = 0
        from . import builtins_model, npmodel, libmodel
        self.bm, self.np, self.lib = builtins_model, npmodel, libmodel
        self.builtins = builtins_model.make(self)
        self.extmods = libmodel.make(self)
        self.extmods.update(npmodel.make(self))

    # ------------------------------------------------------------- path state
    def hyps(self):
        return [t for t, _ in self.pc]

    def assume(self, c, fact=True):
        c = c if isinstance(c, Univ_) else T.conc(c)
        if isinstance(c, Univ_):
            self.pc.append((c, False))
            return
        if c is True:
            return
        if c is False:
            raise Infeasible()
        for x in S._conj(c):
            self.pc.append((x, not fact))

    def feasible(self, c):
        return S.feasible(self.hyps(), c)

    def entails(self, c, timeout=2500):
        c = T.conc(c)
        if not T.is_t(c):
            return bool(c)
        hs = self.hyps()
        for h in hs:
            if T.is_t(h) and h.eq(c):
                return True
        if not S.feasible(hs, T.not_(c)):
            return True
        return S.prove(hs, c, timeout=timeout, lemma=True)[0] == "proved"

    def branch(self, c):
        c = T.conc(c)
        if isinstance(c, bool):
            return c
        if not T.is_t(c):
            return bool(c)
        if c.sort() != T.Bo:
            c = T.tz(T.truth(c))
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return True
        if z3.is_false(cs):
            return False
        ex = self.ex
        if ex.pos < len(ex.trace):
            d = ex.trace[ex.pos]
        else:
            t, f = self.feasible(c), self.feasible(T.not_(c))
            if not t and not f:
                raise Infeasible()
            if t and f:
                d = [True, 2, [False]]
            else:
                d = [t, 1, []]
            ex.trace.append(d)
        ex.pos += 1
        if d[1] == 1:
            # forced: implied by the path condition
            return d[0]
        self.pc.append((c if d[0] else T.tz(T.not_(c)), True))
        return d[0]

    def choose(self, opts):
        """nondeterministic choice of one of opts"""
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        if self.loopvars:
            for o in opts[:-1]:
                if self.branch(self.fresh("choice", T.Bo)):
                    return o
            return opts[-1]
        ex = self.ex
        if ex.pos < len(ex.trace):
            d = ex.trace[ex.pos]
        else:
            d = [0, len(opts), list(range(1, len(opts)))]
            ex.trace.append(d)
        ex.pos += 1
        return opts[d[0]]

    def explore(self, body, capture=None, limit=64):
        outer, n0 = self.ex, len(self.pc)
        ex = Explorer()
        out = []
        nf0, nfmax = T._nf[0], T._nf[0]
        try:
            while True:
                S.check_deadline()
                self.ex = ex
                ex.pos = 0
                T._nf[0] = nf0
                m = TRAIL.mark()
                st = (self.njit, list(self.stack), self.line, self.file, self.depth, list(self.loopvars))
                kind, val, cap = "ok", None, None
                try:
                    val = body()
                except PyRaise as e:
                    kind, val = "raise", e
                except Brk:
                    kind = "break"
                except Cont:
                    kind = "ok"
                except Ret as r:
                    kind, val = "return", r.v
                except Infeasible:
                    kind = "cut"
                except BaseException:
                    TRAIL.undo(m)
                    self.njit, self.stack, self.line, self.file, self.depth, self.loopvars = st
                    raise
                self.njit, self.stack, self.line, self.file, self.depth, self.loopvars = st[0], st[1], st[2], st[3], st[4], st[5]
                if kind != "cut":
                    if capture is not None:
                        cap = capture(kind, val, m)
                    new = self.pc[n0:]
                    out.append(PathRes([t for t, d in new if d], [t for t, d in new if not d], kind, val, cap))
                nfmax = max(nfmax, T._nf[0])
                TRAIL.undo(m)
                del self.pc[n0:]
                if not ex.advance():
                    break
                if len(out) > limit:
                    raise Unsupported("too many paths")
        finally:
            self.ex = outer
            T._nf[0] = max(nfmax, T._nf[0])
            del self.pc[n0:]
        return out

    def fresh(self, name, sort):
        """fresh constant; inside symbolic loops a function of the loop indices"""
        if self.loopvars:
            f = T.fresh_fun(name, *([T.I] * len(self.loopvars) + [sort]))
            return f(*self.loopvars)
        return T.fresh(name, sort)

    def abstract(self, why):
        if why not in self.abstracted:
            self.abstracted.append(why)

    # ------------------------------------------------------------- obligations
    def oblige(self, goal, name, timeout=10000):
        g = T.conc(goal)
        t0 = time.time()
        if not self.collecting:
            self.skipped += 1
            if g is False:
                raise Infeasible()
            if T.is_t(g):
                self.pc.append((g, False))
            return True
        if g is True:
            r = ("proved", None, "syntactic")
        else:
            r = S.prove(self.hyps(), g, timeout=timeout, want_model=True)
        ob = Obligation(name, r[0], r[2], r[1] if r[0] == "unknown" else None, not self.abstracted, r[1] if r[0] == "refuted" else None, self.hyps(), g, int((time.time() - t0) * 1000))
        ob.abstracted = list(self.abstracted)
        ob.where = self.where()
        if self.collecting:
            self.obligations.append(ob)
        if r[0] != "proved" and T.is_t(g):
            # continue under the assumption, as a deductive verifier does
            if self.feasible(g):
                self.pc.append((g, False))
            else:
                raise Infeasible()
        return r[0] == "proved"

    def where(self):
        return "%s:%s" % (os.path.relpath(self.file, self.repo) if self.file else "?", self.line)

    def fail(self, cls, msg=""):
        raise PyRaise(cls, (msg,), self.where())

    # ------------------------------------------------------------- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.extmods:
            return self.extmods[name]
        if name == self.package or name.startswith(self.package + "."):
            p = os.path.join(self.repo, *name.split("."))
            f = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                self.fail("ModuleNotFoundError", name)
            src = open(f).read()
            tree = ast.parse(src, f)
            env = Env(None, None, "module " + name)
            mod = ModuleV(name, env)
            mod.file = f
            mod.is_pkg = f.endswith("__init__.py")
            env.module = mod
            env.d["__name__"] = name
            env.d["__file__"] = f
            self.modules[name] = mod
            if "." in name:
                parent = self.import_module(name.rsplit(".", 1)[0])
            old = self.file, self.line
            self.file = f
            for st in tree.body:
                self.exec(st, env)
            self.file, self.line = old
            if "." in name:
                parent.env.d[name.rsplit(".", 1)[1]] = mod
            return mod
        top = name.split(".")[0]
        if top in self.extmods and name not in self.extmods:
            return self.lib.opaque_module(name)
        return self.lib.opaque_module(name)

    def lookup(self, path):
        """'micropolarray.processing.rebin.standard_rebin' -> value"""
        parts = path.split(".")
        for i in range(len(parts), 0, -1):
            nm = ".".join(parts[:i])
            if nm in self.modules or os.path.exists(os.path.join(self.repo, *parts[:i]) + ".py") or os.path.exists(os.path.join(self.repo, *parts[:i], "__init__.py")):
                v = self.import_module(nm)
                for q in parts[i:]:
                    v = self.getattr(v, q)
                return v
        raise Unsupported("no such object " + path)

    # ------------------------------------------------------------- statements
    def exec(self, st, env):
        self.line = st.lineno
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        return m(st, env)

    def exec_body(self, body, env):
        for st in body:
            self.exec(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)
        elif isinstance(st.target, ast.Name):
            env.d.setdefault("__annotations__", PDict())
        if env.label.startswith("classbody") and isinstance(st.target, ast.Name):
            env.d.setdefault("$fields", []).append((st.target.id, st.value is not None))

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            r = self.augop(type(st.op).__name__, cur, self.eval(st.value, env))
            self.store_name(t.id, r, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            r = self.augop(type(st.op).__name__, cur, self.eval(st.value, env))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            r = self.augop(type(st.op).__name__, cur, self.eval(st.value, env))
            self.setitem(o, k, r)
        else:
            raise Unsupported("augassign target")

    def augop(self, op, a, b):
        if isinstance(a, Arr):
            return self.np.inplace(self, op, a, b)
        if isinstance(a, PList) and op == "Add":
            self.call_method(a, "extend", [b])
            return a
        return self.binop(op, a, b)

    def silent(self, c, st, env):
        """an undecided branch of calls only, without effect in both ways (progress messages)"""
        if not (self.loopvars and not st.orelse and T.is_t(c) and c.sort() == T.Bo and all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) for x in st.body)):
            return False
        n = len(self.obligations)
        try:
            rs = self.explore(lambda: (self.assume(c, False), self.exec_body(st.body, env)), lambda kind, val, m: len(TRAIL.log) - m, limit=4)
        except Unsupported:
            return False
        return len(self.obligations) == n and all(r.kind == "ok" and not r.cap for r in rs)

    def x_If(self, st, env):
        c = self.eval(st.test, env)
        if self.silent(c, st, env):
            return
        if self.truth(c):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)

    def x_Return(self, st, env):
        raise Ret(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise Brk()

    def x_Continue(self, st, env):
        raise Cont()

    def x_Global(self, st, env):
        env.globals_decl.update(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.d:
                    self.fail("NameError", t.id)
                env.delete(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                self.bm.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj) and t.attr in o.d:
                    o.delete(t.attr)
                else:
                    self.fail("AttributeError", t.attr)
            else:
                raise Unsupported("del")

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.fail("AssertionError")

    def x_Raise(self, st, env):
        if st.exc is None:
            e = env_find_exc(env)
            if e is None:
                raise Unsupported("bare raise")
            raise e
        v = self.eval(st.exc, env)
        if isinstance(v, TypeV) and v.name in EXC_PARENTS:
            raise PyRaise(v.name, (), self.where())
        if isinstance(v, ExcV):
            raise PyRaise(v.cls, v.args, self.where())
        if isinstance(v, ClassV):
            raise PyRaise(v.name, (), self.where())
        raise Unsupported("raise %r" % (v,))

    def x_Try(self, st, env):
        m_stack = (self.njit, list(self.stack), self.file)
        try:
            try:
                self.exec_body(st.body, env)
            except PyRaise as e:
                self.njit, self.stack, self.file = m_stack[0], list(m_stack[1]), m_stack[2]
                for h in st.handlers:
                    if self.handler_matches(h, e, env):
                        if getattr(e, "numpy", False):
                            raise Unsupported("a division by zero that numpy does not raise is handled")
                        if h.name:
                            env.set(h.name, ExcV(e.cls, e.args_))
                        env.set("$exc", e)
                        self.exec_body(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        except (PyRaise, Ret, Brk, Cont):
            if st.finalbody:
                self.exec_body(st.finalbody, env)
            raise
        else:
            self.exec_body(st.finalbody, env)

    def handler_matches(self, h, e, env):
        if h.type is None:
            return True
        v = self.eval(h.type, env)
        vs = v if isinstance(v, tuple) else (v,)
        for x in vs:
            nm = x.name.split(".")[-1] if isinstance(x, (TypeV, Opaque)) else x.name
            if exc_isa(e.cls, nm):
                return True
        return False

    def x_With(self, st, env):
        exits = []
        for it in st.items:
            cm = self.eval(it.context_expr, env)
            v = self.bm.enter(self, cm)
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.exec_body(st.body, env)
        finally:
            for cm in reversed(exits):
                self.bm.leave(self, cm)

    def x_Import(self, st, env):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                env.set(a.asname, m)
            else:
                env.set(a.name.split(".")[0], self.import_module(a.name.split(".")[0]))

    def x_ImportFrom(self, st, env):
        name = st.module or ""
        if st.level:
            mod = env.module
            base = mod.name if mod.is_pkg else mod.name.rsplit(".", 1)[0]
            for _ in range(st.level - 1):
                base = base.rsplit(".", 1)[0]
            name = base + ("." + name if name else "")
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, ModuleV):
                    allv = m.env.d.get("__all__")
                    for k, v in list(m.env.d.items()):
                        if (allv is None and not k.startswith("_")) or (allv is not None and k in allv.items):
                            env.set(k, v)
                    continue
                raise Unsupported("import *")
            try:
                v = self.getattr(m, a.name)
            except PyRaise:
                if isinstance(m, ModuleV) and m.is_pkg:
                    v = self.import_module(name + "." + a.name)
                else:
                    raise
            env.set(a.asname or a.name, v)

    def x_FunctionDef(self, st, env):
        f = self.make_function(st, env)
        env.set(st.name, f)

    def make_function(self, st, env, name=None):
        a = st.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        mod = env.module
        owner = env.label[len("classbody "):] if env.label.startswith("classbody") else None
        nm = getattr(st, "name", "<lambda>")
        qual = mod.name + "." + ((owner + ".") if owner else "") + nm
        f = FuncV(nm, st, env, mod, qual, defaults, kwd)
        f.file = getattr(mod, "file", None)
        v = f
        for dn in reversed(getattr(st, "decorator_list", [])):
            d = self.eval(dn, env)
            v = self.decorate(d, v, env, st)
        return v

    def decorate(self, d, f, env, st):
        nm = getattr(d, "name", "")
        if isinstance(d, (Builtin, TypeV, Opaque)):
            base = nm.split(".")[-1]
            if base in ("njit", "jit", "vectorize", "guvectorize") and "numba" in nm:
                f.njit = True
                return f
            if base in ("lru_cache", "cache"):
                f.cached = True
                f.cache = Cell("cache")
                return f
            if base == "property" or base == "cached_property":
                return PropV(f)
            if base == "staticmethod":
                return StaticV(f)
            if base == "classmethod":
                return StaticV(f, True)
            if base in ("wraps$",):
                return f
            if base == "dataclass":
                return f
        if isinstance(d, BoundM) and isinstance(d.self_, PropV):
            return PropV(d.self_.fget, f) if d.f == "setter" else d.self_
        if isinstance(d, Opaque):
            raise Unsupported("decorator " + nm)
        return self.call(d, [f], {})

    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        c = ClassV(st.name, [b for b in bases if isinstance(b, ClassV)], env.module)
        ce = Env(env, env.module, "classbody " + st.name)
        for s in st.body:
            self.exec(s, ce)
        fields = ce.d.pop("$fields", [])
        for k, v in ce.d.items():
            c.d[k] = v
            if isinstance(v, FuncV):
                v.ownercls = c
            if isinstance(v, PropV):
                for g in (v.fget, v.fset):
                    if isinstance(g, FuncV):
                        g.ownercls = c
            if isinstance(v, StaticV) and isinstance(v.f, FuncV):
                v.f.ownercls = c
        c.qual = env.module.name + "." + st.name
        isexc = [b for b in bases if isinstance(b, TypeV) and b.name in EXC_PARENTS]
        if isexc:
            EXC_PARENTS.setdefault(st.name, isexc[0].name)
        for dn in st.decorator_list:
            d = self.eval(dn, env)
            nm = getattr(d, "name", "")
            if nm.split(".")[-1] == "dataclass":
                c.dataclass_fields = fields
            else:
                raise Unsupported("class decorator " + nm)
        env.set(st.name, c)

    # ------------------------------------------------------------- loops
    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        from . import loops
        loops.for_loop(self, st, it, env)

    def x_While(self, st, env):
        from . import loops
        loops.while_loop(self, st, env)

    # ------------------------------------------------------------- names
    def load_name(self, n, env):
        if n in env.globals_decl:
            v = env.module.env.d.get(n, MISSING)
            if v is MISSING:
                self.fail("NameError", n)
            return v
        e = env
        while e is not None:
            v = e.d.get(n, MISSING)
            if v is not MISSING and not (e is not env and e.label.startswith("classbody")):
                if isinstance(v, Dead):
                    raise DeadRead(v, "value carried out of a loop: " + n)
                return v
            e = e.parent
        v = env.module.env.d.get(n, MISSING) if env.module else MISSING
        if v is not MISSING:
            return v
        v = self.builtins.get(n, MISSING)
        if v is MISSING:
            self.fail("NameError", n)
        return v

    def store_name(self, n, v, env):
        if n in env.globals_decl:
            env.module.env.set(n, v)
        elif n in env.nonlocals:
            e = env.parent
            while e is not None:
                if n in e.d:
                    e.set(n, v)
                    return
                e = e.parent
            self.fail("NameError", n)
        else:
            env.set(n, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if star:
                items = self.bm.to_list(self, v)
                i = star[0]
                if len(items) < n - 1:
                    self.fail("ValueError", "unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                k = len(items) - (n - 1 - i)
                self.assign(t.elts[i].value, PList(items[i:k]), env)
                for e, x in zip(t.elts[i + 1:], items[k:]):
                    self.assign(e, x, env)
                return
            items = self.bm.unpack(self, v, n)
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            self.setitem(o, k, v)
        else:
            raise Unsupported("assign target")

    # ------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("inf/nan literal")
            return Fraction(repr(v))
        if isinstance(v, complex):
            raise Unsupported("complex")
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return PList(self._elts(e.elts, env))

    def e_Set(self, e, env):
        return PSet([self.bm.hkey(self, x) for x in self._elts(e.elts, env)])

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.bm.to_list(self, self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if isinstance(o, PDict):
                    d.d.update(o.d)
                    continue
                raise Unsupported("** in dict")
            d.d[self.bm.hkey(self, self.eval(k, env))] = self.eval(v, env)
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.line = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return self.not_(v)
        return self.unop(op, v)

    def not_(self, v):
        if T.is_t(v) and v.sort() == T.Bo:
            return T.not_(v)
        return not self.truth(v)

    def unop(self, op, v):
        if isinstance(v, Arr):
            return self.np.unary(self, op, v)
        v = self.unbox(v)
        if T.is_num(v):
            if op == "USub":
                return T.neg(v)
            if op == "UAdd":
                return T.toint_num(v)
            if op == "Invert":
                if T.sortof(v) == "b":
                    return T.not_(v) if T.is_t(v) else ~int(v)
                return T.sub(T.neg(v), 1)
        if isinstance(v, Opaque):
            return v
        self.fail("TypeError", "bad operand for unary " + op)

    def unbox(self, v):
        if isinstance(v, Arr) and v.ndim == 0:
            return v.get(())
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        last = None
        for i, x in enumerate(e.values):
            last = self.eval(x, env)
            if i == len(e.values) - 1:
                return last
            t = self.truth(last)
            if isand and not t:
                return last if not T.is_t(last) else False
            if not isand and t:
                return last if not T.is_t(last) or last.sort() != T.Bo else True
        return last

    def e_Compare(self, e, env):
        a = self.eval(e.left, env)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(c, env)
            r = self.compare(type(op).__name__, a, b)
            if res is None:
                res = r
            else:
                if isinstance(res, Arr) or isinstance(r, Arr):
                    raise Unsupported("chained array comparison")
                res = T.and_(self.boolterm(res), self.boolterm(r))
            if i < len(e.ops) - 1 and not T.is_t(res) and not isinstance(res, Arr) and not res:
                return res
            a = b
        return res

    def boolterm(self, v):
        if isinstance(v, bool) or (T.is_t(v) and v.sort() == T.Bo):
            return v
        if T.is_num(v):
            return T.truth(v)
        return self.truth(v)

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Lambda(self, e, env):
        f = self.make_function(e, env)
        return f

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is None and v.conversion == -1:
                    x = self.eval(v.value, env)
                    parts.append(self.bm.to_str(self, x))
                else:
                    x = self.eval(v.value, env)
                    spec = self.eval(v.format_spec, env) if v.format_spec is not None else ""
                    parts.append(self.bm.to_str_fmt(self, x, spec, v.conversion))
        return self.bm.str_concat(parts)

    def e_FormattedValue(self, e, env):
        return self.bm.to_str(self, self.eval(e.value, env))

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.line = e.lineno
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.eval_index(e.slice, env)
        self.line = e.lineno
        return self.getitem(o, k)

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*(self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Slice(self, s, env):
        return self.eval_index(s, env)

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.bm.make_super(self, env)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.bm.to_list(self, self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, PDict):
                    kw.update(d.d)
                else:
                    raise Unsupported("** argument")
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.line = e.lineno
        if isinstance(f, Builtin) and f.name in ("locals", "vars"):
            raise Unsupported(f.name)
        return self.call(f, args, kw)

    def e_ListComp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env, "list")

    def e_GeneratorExp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env, "gen")

    def e_SetComp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env, "set")

    def e_DictComp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env, "dict")

    # ------------------------------------------------------------- calls
    def call_method(self, o, name, args, kw=None):
        return self.call(self.getattr(o, name), args, kw or {})

    def call(self, f, args, kw):
        if isinstance(f, BoundM):
            if callable(f.f) and not isinstance(f.f, (FuncV, Builtin)):
                return f.f(self, f.self_, args, kw)
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kw))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, TypeV):
            if f.ctor is None:
                if f.name in EXC_PARENTS:
                    return ExcV(f.name, tuple(args))
                raise Unsupported("constructor of " + f.name)
            return f.ctor(self, list(args), dict(kw))
        if isinstance(f, Opaque):
            return self.lib.call_opaque(self, f, args, kw)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if hasattr(f, "py_call"):
            return f.py_call(self, args, kw)
        if isinstance(f, Obj):
            m = self.getattr(f, "__call__")
            return self.call(m, args, kw)
        self.fail("TypeError", "not callable")

    def instantiate(self, c, args, kw):
        o = Obj(c)
        init, owner = c.lookup("__init__")
        if init is not MISSING:
            self.call(BoundM(o, init), args, kw)
        elif c.dataclass_fields is not None:
            fs = c.dataclass_fields
            kw = dict(kw)
            for i, (n, hasdef) in enumerate(fs):
                if i < len(args):
                    o.d[n] = args[i]
                elif n in kw:
                    o.d[n] = kw.pop(n)
                elif hasdef:
                    o.d[n] = c.d[n]
                else:
                    self.fail("TypeError", "missing argument " + n)
            if kw or len(args) > len(fs):
                self.fail("TypeError", "unexpected argument")
        elif args or kw:
            if any(x for x in c.bases) or True:
                self.fail("TypeError", "takes no arguments")
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names) and not a.vararg:
            self.fail("TypeError", "%s() takes %d positional arguments" % (f.name, len(names)))
        for n, v in zip(names, args):
            out[n] = v
        rest = args[len(names):]
        kwl = dict(kw)
        for n in names[len(args):]:
            if n in kwl:
                out[n] = kwl.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    self.fail("TypeError", "%s() missing argument %s" % (f.name, n))
        for k in a.kwonlyargs:
            if k.arg in kwl:
                out[k.arg] = kwl.pop(k.arg)
            elif k.arg in f.kwdefaults:
                out[k.arg] = f.kwdefaults[k.arg]
            else:
                self.fail("TypeError", "missing kwonly " + k.arg)
        for k in list(kwl):
            if k in names:
                self.fail("TypeError", "multiple values for " + k)
        if a.vararg:
            out[a.vararg.arg] = tuple(rest)
        if a.kwarg:
            out[a.kwarg.arg] = PDict(kwl)
        elif kwl:
            self.fail("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, list(kwl)[0]))
        return out

    def call_func(self, f, args, kw):
        if f.qual in self.hooks:
            return self.hooks[f.qual](self, f, args, kw)
        if f.njit and args:
            self.np.check_njit_args(self, f, args, kw)
        vals = self.bind_args(f, args, kw)
        sm = self.summaries.get(f.qual)
        if sm is not None and f.qual not in self.no_summary and not isinstance(f.node, ast.Lambda):
            r = sm.apply(self, f, vals)
            if r is not NotImplemented:
                self.used_summaries.add(f.qual)
                return r
        if f.cached:
            key = tuple(self.bm.hkey(self, v) for v in vals.values())
            kk = tuple(("t", x.get_id()) if T.is_t(x) else x for x in _flat(key))
            hit = f.cache.get(kk)
            if hit is not MISSING:
                return hit
            r = self.run_body(f, vals)
            S.KEEP.append(key)
            f.cache.set(kk, r)
            return r
        return self.run_body(f, vals)

    def run_body(self, f, vals):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        env = Env(f.env if not f.env.label.startswith("module") else None, f.module, "func " + f.qual)
        if f.env.label.startswith("classbody"):
            env.parent = f.env.parent if f.env.parent is not None and not f.env.parent.label.startswith("module") else None
        env.d.update(vals)
        env.d["$func"] = f
        olds = self.file, self.line, self.njit
        self.file = f.file
        self.njit = self.njit or f.njit
        if not isinstance(f.node, ast.Lambda):
            self.functions_run[f.qual] = (f.file, f.node.lineno, f.node.end_lineno)
        self.stack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                raise Unsupported("generator function")
            try:
                self.exec_body(f.node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.depth -= 1
            self.file, self.line, self.njit = olds

    # ------------------------------------------------------------- delegation
    def truth(self, v):
        return self.bm.truth(self, v)

    def binop(self, op, a, b):
        return self.bm.binop(self, op, a, b)

    def compare(self, op, a, b):
        return self.bm.compare(self, op, a, b)

    def getattr(self, o, k):
        return self.bm.getattr_(self, o, k)

    def setattr(self, o, k, v):
        return self.bm.setattr_(self, o, k, v)

    def getitem(self, o, k):
        return self.bm.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.bm.setitem(self, o, k, v)


Univ_ = S.Univ


class Dead:
    loc = None

    def __init__(self, loc=None):
        self.loc = loc

    def __repr__(self):
        return "<dead>"


class DeadRead(Unsupported):
    def __init__(self, dead, msg):
        Unsupported.__init__(self, msg)
        self.loc = dead.loc


def _flat(x):
    if isinstance(x, tuple):
        out = ["("]
        for y in x:
            out.extend(_flat(y))
        out.append(")")
        return out
    return [x]


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def env_find_exc(env):
    e = env
    while e is not None:
        v = e.d.get("$exc")
        if v is not None:
            return v
        e = e.parent
    return None
