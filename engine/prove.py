"""Worker: prove the contracts of one property symbolically against /repo's source.
usage: python -m engine.prove --prop C01 --contract NAME --out FILE --budget SECONDS"""
import argparse
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import z3
from engine import terms as T
from engine import solver as S
from engine import interp, dsl, npmodel, libmodel
from engine.values import *
from engine.spec import REG


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return None


def values_of(m, inputs, small=12):
    out = {}
    for name, i in inputs.items():
        if i[0] == "choice":
            out[name] = i[1]
        elif i[0] in ("int", "real", "bool"):
            out[name] = val(m, i[1])
        else:
            _, f, shape, dt = i
            sh = [d if not T.is_t(T.conc(d)) else val(m, d) for d in shape]
            n = 1
            for d in sh:
                n *= max(0, d)
            if n > 40000:
                return None
            flat = []

            def rec(ix):
                if len(ix) == len(sh):
                    return val(m, f(*ix)) if ix else val(m, f())
                return [rec(ix + [k]) for k in range(max(0, sh[len(ix)]))]
            out[name] = {"npy": rec([]), "shape": sh}
    return out


def counterexample(ob):
    """values for the inputs from a refuted obligation, small sizes first"""
    inputs = getattr(ob, "inputs", None)
    if inputs is None:
        return None
    ints = [i[1] for i in inputs.values() if i[0] == "int"]
    reals = [i[1] for i in inputs.values() if i[0] == "real"]
    g = ob.goal if T.is_t(ob.goal) else z3.BoolVal(bool(ob.goal))
    res = []
    for lim in (4, 8, 14, 40, None):
        extra = [c for x in ints for c in (x <= lim, x >= -lim)] if lim else []
        if lim:
            extra += [c for x in reals for c in (x <= 1000, x >= -1000)]
        try:
            r = S.prove(ob.pc + extra, g, timeout=4000, want_model=True) if lim else ("refuted", ob.model)
        except Exception:
            continue
        if r[0] == "refuted" and r[1] is not None:
            try:
                v = values_of(r[1][0], inputs)
            except Exception:
                v = None
            if v is not None:
                res.append(v)
                if len(res) >= 2:
                    break
    return res or None


def late(sig, frame):
    raise S.Budget("time budget of the check used up (alarm)")


def run(c, budget, repo="/repo"):
    S.DEADLINE[0] = time.time() + budget
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, budget + 8, 4)
    t0 = time.time()
    E = interp.Engine(repo=repo)
    res = {"contract": c.name, "status": "done", "paths": 0}
    try:
        E.import_module("micropolarray")
        for sub in ("image", "micropol_image", "utils", "polarization_functions", "cameras"):
            E.import_module("micropolarray." + sub)
        libmodel.USED.clear()
        npmodel.USED.clear()
        E.functions_run.clear()
        from contracts import summaries
        summaries.install(E, c.prop, c.name)
        reach = []

        def body():
            E.world = libmodel.World()
            E.loopvars = []
            E.abstracted = []
            B = dsl.Sym(E, c.name)
            c.fn(B)
            reach.append(B.reach())
            return True
        rs = E.explore(body, limit=600)
        res["paths"] = len(rs)
        res["raised"] = [str(r.val) for r in rs if r.kind == "raise"]
        res["reach"] = reach
        if res["raised"]:
            res["status"] = "error"
            res["reason"] = "exception outside a checked call: %s" % res["raised"][0][:300]
    except Unsupported as e:
        res["status"] = "unsupported"
        res["reason"] = "%s (at %s)" % (e, E.where())
        res["tb"] = traceback.format_exc()[-2500:]
    except S.Budget as e:
        res["status"] = "timeout"
        res["reason"] = str(e)
    except RecursionError:
        res["status"] = "unsupported"
        res["reason"] = "term too deep"
    except MemoryError:
        res["status"] = "unsupported"
        res["reason"] = "memory"
    except Exception as e:
        res["status"] = "error"
        res["reason"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()[-3500:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    S.DEADLINE[0] = time.time() + 25
    obs = []
    seen = {}
    ncex = 0
    for o in E.obligations:
        d = {"name": o.name, "status": o.status, "backend": o.backend, "ms": o.ms, "where": o.where, "exact": o.exact, "abstracted": o.abstracted}
        if o.status == "refuted":
            d["goal"] = str(o.goal)[:1500]
            if ncex < 3:
                ncex += 1
                try:
                    d["values"] = counterexample(o)
                except S.Budget:
                    pass
        if o.status == "unknown":
            d["reason"] = str(o.reason)[:200]
            d["goal"] = str(o.goal)[:1500]
        obs.append(d)
    res["obligations"] = obs
    res["functions"] = {k: [os.path.relpath(v[0], repo) if v[0] else None, v[1], v[2]] for k, v in E.functions_run.items()}
    res["loops"] = {"%s:%s" % (os.path.relpath(k[0], repo), k[1]): v for k, v in E.loops_seen.items() if k[0]}
    res["summaries"] = {q: E.summaries[q].owner for q in sorted(E.used_summaries)}
    res["assumptions"] = sorted(E.assumptions) + ["callee contract of %s used at its calls (discharged by %s)" % (q, E.summaries[q].owner) for q in sorted(E.used_summaries)]
    res["trusted_lib"] = sorted(libmodel.USED | npmodel.USED)
    res["stats"] = {k: v for k, v in S.STATS.items()}
    res["wall_s"] = time.time() - t0
    res["maxrss_mb"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--contract")
    ap.add_argument("--out")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--budget", type=float, default=120)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    importlib.import_module("contracts.%s" % a.prop.lower())
    for c in REG[a.prop]:
        if a.contract and c.name != a.contract or not c.symbolic:
            continue
        r = run(c, a.budget, a.repo)
        if a.out:
            with open(a.out + ".tmp", "w") as f:
                json.dump(r, f)
            os.replace(a.out + ".tmp", a.out)
        if a.v or not a.out:
            print("==", c.name, r["status"], r.get("reason", ""), "paths", r["paths"], "%.1fs" % r["wall_s"], "mem", r["maxrss_mb"])
            if r.get("tb") and a.v:
                print(r["tb"])
            for o in r["obligations"]:
                if o["status"] != "proved" or a.v:
                    print("  ", o["status"], o["backend"], o["ms"], o["name"], o["where"], "" if o["exact"] else "ABSTRACT %s" % o["abstracted"])
                    if o["status"] != "proved":
                        print("      ", o.get("goal", "")[:700], str(o.get("values"))[:600])


if __name__ == "__main__":
    main()
