"""Runner of one property's check.
  python3-vt -m engine.check --prop C01 [--tier quick|thorough]
1. re-reads /repo's source and proves every contract of the property (one worker per
   contract, in parallel);  2. runs the same contracts on the real code (battery);
3. replays the verifier's counterexamples on the real code;  4. writes the evidence."""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.spec import REG

PYVT = "/opt/veriftools/pyvenv/bin/python"
PYREAL = "/opt/venv/bin/python"
HANG = 90.0


def real_env(scratch):
    e = {k: v for k, v in os.environ.items() if k in ("VERIF_SEED", "VERIF_TIER", "TMPDIR")}
    e.update(HOME=scratch, LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", MPLBACKEND="Agg", PYTHONHASHSEED="0",
             PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "nopyc"), NUMBA_BOUNDSCHECK="1",
             NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), MPLCONFIGDIR=os.path.join(scratch, "mpl"), TMPDIR=scratch,
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.makedirs(e["MPLCONFIGDIR"], exist_ok=True)
    src = "/opt/vp/work/mpl"
    if os.path.isdir(src):
        for f in os.listdir(src):
            if f.startswith("fontlist"):
                shutil.copy(os.path.join(src, f), e["MPLCONFIGDIR"])
    return e


def vt_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None)
    return e


def load_json(p):
    try:
        return json.load(open(p))
    except (OSError, ValueError):
        return None


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def known_findings(prop):
    res = []
    try:
        lines = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
    except OSError:
        return res
    for ln in lines:
        if ln.startswith("known: property=%s " % prop):
            head, _, what = ln.partition(" | ")
            c, _, m = head[len("known: property=%s contract=" % prop):].partition(" match=")
            res.append({"contract": c, "match": m, "what": what})
    return res


class Check:
    def __init__(self, prop, tier, seed, only=None, keep=False):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="mpcheck_")
        os.chmod(self.scratch, 0o700)
        self.renv = real_env(self.scratch)
        self.thorough = tier == "thorough"
        self.prove_budget = 500.0 if self.thorough else 150.0
        self.battery_budget = 420.0 if self.thorough else 35.0
        m = importlib.import_module("contracts.%s" % prop.lower())
        self.prove_budget = max(self.prove_budget, getattr(m, "PROVE_BUDGET", 0))
        self.contracts = [c for c in REG[prop] if not only or c.name == only]
        self.ev = os.path.join(HERE, "evidence")
        os.makedirs(self.ev, exist_ok=True)
        for f in os.listdir(self.ev):
            if f.startswith("replay_%s_" % prop):
                os.remove(os.path.join(self.ev, f))
        b = load_json(os.path.join(HERE, "proved.json")) or {}
        self.baseline = b.get(prop, {})
        self.viol = []       # (contract, message, replay dict, has_input)
        self.notes = []
        self.nreplay = 0

    # ------------------------------------------------------------ workers
    def start_prove(self, c, again=False):
        out = os.path.join(self.scratch, "p_%s%s.json" % (c.name, "_2" if again else ""))
        env = vt_env()
        if again:
            env["MPV_SCALE"] = "4"
        budget = self.prove_budget if self.thorough else max(15.0, min(self.prove_budget, 760 - (time.time() - self.t0)))
        p = subprocess.Popen([PYVT, "-m", "engine.prove", "--prop", self.prop, "--contract", c.name, "--out", out, "--budget", str(budget)],
                             cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), start_new_session=True)
        return {"c": c, "p": p, "out": out, "t": time.time(), "budget": budget}

    def start_battery(self, seed):
        out = os.path.join(self.scratch, "battery_%s.json" % seed)
        cmd = [PYREAL, "-m", "engine.concrete", "--prop", self.prop, "--seed", str(seed), "--budget", str(self.battery_budget), "--out", out]
        if self.thorough:
            cmd += ["--mult", "12"]
        p = subprocess.Popen(cmd, cwd=HERE, env=self.renv, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), start_new_session=True)
        return {"p": p, "out": out, "t": time.time()}

    def replay(self, spec, timeout=HANG):
        """run one case on the real code -> dict(status, message)"""
        self.nreplay += 1
        f = os.path.join(self.scratch, "r%d.json" % self.nreplay)
        json.dump(spec, open(f, "w"))
        out = f + ".out"
        p = subprocess.Popen([PYREAL, "-m", "engine.concrete", "--prop", self.prop, "--replay", f, "--out", out],
                             cwd=HERE, env=self.renv, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            r = load_json(out)
            return {"status": "hang" if r else "error", "message": "does not end within %ds" % timeout}
        r = load_json(out)
        if r is None:
            return {"status": "error", "message": "no result, exit %s" % p.returncode}
        if r["status"] == "running":
            return {"status": "crash", "message": "process died, exit %s" % p.returncode}
        return r

    # ------------------------------------------------------------ run
    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _run(self):
        todo = [c for c in self.contracts if c.symbolic]
        live, done = [], {}
        bat = self.start_battery(self.seed) if any(c.battery for c in self.contracts) else None
        bres, stop = None, None
        while todo or live or bat:
            if bres and bres.get("violations") and not self.thorough:
                # a failing input is known: what is still being proved gets one more minute
                stop = stop or time.time() + 60
                if time.time() > stop:
                    for c in todo + [w["c"] for w in live]:
                        done.setdefault(c.name, {"contract": c.name, "status": "timeout", "reason": "not finished when a failing input was known", "obligations": [], "functions": {}, "loops": {}, "assumptions": [], "trusted_lib": [], "stats": {}, "wall_s": 0.0, "paths": 0})
                    for w in live:
                        kill(w["p"])
                    todo, live = [], []
                    continue
            while todo and len(live) < 7:
                live.append(self.start_prove(todo.pop(0)))
            for w in list(live):
                if w["p"].poll() is not None:
                    live.remove(w)
                    r = load_json(w["out"])
                    if r is None:
                        err = open(w["out"] + ".err").read()[-1500:]
                        r = {"contract": w["c"].name, "status": "error", "reason": "worker died (%s) %s" % (w["p"].returncode, err), "obligations": [], "functions": {}, "loops": {}, "assumptions": [], "trusted_lib": [], "stats": {}, "wall_s": time.time() - w["t"], "paths": 0}
                    n = w["c"].name
                    if n in done:       # second try with longer solver times
                        if r["status"] == "done":
                            done[n] = r
                    else:
                        done[n] = r
                        if r["status"] == "done" and self.baseline.get(n, {}).get("status") == "proved" and any(o["status"] == "unknown" for o in r["obligations"]) and not any(o["status"] == "refuted" for o in r["obligations"]):
                            live.append(self.start_prove(w["c"], True))
                elif time.time() - w["t"] > w["budget"] + 60:
                    kill(w["p"])
                    live.remove(w)
                    done[w["c"].name] = done.get(w["c"].name) or {"contract": w["c"].name, "status": "timeout", "reason": "worker over its time", "obligations": [], "functions": {}, "loops": {}, "assumptions": [], "trusted_lib": [], "stats": {}, "wall_s": time.time() - w["t"], "paths": 0}
            if bat:
                d = load_json(bat["out"])
                if bat["p"].poll() is not None:
                    bres = d or {"status": "died", "stats": {}, "violations": [], "samples": [], "current": None, "message": open(bat["out"] + ".err").read()[-2000:]}
                    if bres["status"] == "running":
                        bres["status"] = "died"
                    bat = None
                elif d and d.get("current") and time.time() - d["current"]["since"] > HANG:
                    kill(bat["p"])
                    bres = d
                    bres["status"] = "hang"
                    bat = None
                elif time.time() - bat["t"] > self.battery_budget + 300:
                    kill(bat["p"])
                    bres = d or {"stats": {}, "violations": [], "samples": [], "current": None}
                    bres["status"] = "overtime"
                    bat = None
            time.sleep(0.05)
        return self.decide(done, bres)

    def replay_file(self, tag, d):
        k = 0
        while True:
            p = os.path.join(self.ev, "replay_%s_%s_%d.json" % (self.prop, tag, k))
            if not os.path.exists(p):
                break
            k += 1
        d = dict(d, property=self.prop, how="cd /verif && ./check.sh --replay %s" % os.path.relpath(p, HERE))
        json.dump(d, open(p, "w"), indent=1)
        return p

    def known(self, v):
        """a violation listed in known_findings.txt:  known: property=Cxx contract=NAME match=TEXT | what fails"""
        for k in known_findings(self.prop):
            if k["contract"] == v[0] and v[3] and k["match"] in v[1]:
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, k["what"])
                if line not in self.notes:
                    self.notes.append(line)
                    print(line)
                return True
        return False

    def decide(self, done, bres):
        cons = {c.name: c for c in self.contracts}
        errors = []
        # ---- battery
        if bres:
            for v in bres.get("violations", []):
                self.viol.append((v["contract"], v["message"], {"contract": v["contract"], "seed": v["seed"], "style": v["style"], "values": None if "big" in json.dumps(v.get("values")) else v.get("values"), "message": v["message"]}, True))
            if bres["status"] in ("hang", "died") and bres.get("current"):
                cur = bres["current"]
                spec = {"property": self.prop, "contract": cur["contract"], "seed": cur["seed"], "style": cur["style"]}
                r = self.replay(spec)
                if r["status"] in ("hang", "crash", "violation"):
                    self.viol.append((cur["contract"], "%s: %s" % (r["status"], r["message"]), dict(spec, message=r["message"]), True))
                else:
                    self.notes.append("battery stopped (%s) and the case passed when run again" % bres["status"])
            elif bres["status"] in ("error", "died", "overtime"):
                cur = bres.get("current")
                r = None
                if cur:
                    spec = {"property": self.prop, "contract": cur["contract"], "seed": cur["seed"], "style": cur["style"]}
                    r = self.replay(spec)
                if r and r["status"] in ("error", "violation", "hang", "crash"):
                    # the result of the real code cannot even be inspected as the contract states
                    self.viol.append((cur["contract"], "the result cannot be inspected as specified: %s" % r["message"][-900:], dict(spec, message=r["message"]), True))
                elif bres["status"] != "overtime":
                    errors.append("battery: " + str(bres.get("message"))[-1500:])
        # ---- proofs
        oblig, discharged, bounded, lost = 0, 0, [], []
        for name, r in done.items():
            base = self.baseline.get(name)
            obs = r["obligations"]
            oblig += len(obs)
            discharged += sum(o["status"] == "proved" for o in obs)
            bad = [o for o in obs if o["status"] == "refuted"]
            unk = [o for o in obs if o["status"] not in ("proved", "refuted")]
            if r["status"] in ("unsupported", "timeout", "error"):
                bounded.append("%s: %s: %s" % (name, r["status"], (r.get("reason") or "")[:300]))
            elif not obs:
                bounded.append("%s: no obligation generated" % name)
            elif unk:
                bounded.append("%s: %d of %d obligations undecided" % (name, len(unk), len(obs)))
            hit = False
            for o in bad:
                for vals in (o.get("values") or []):
                    spec = {"property": self.prop, "contract": name, "values": vals}
                    q = self.replay(spec)
                    if q["status"] in ("violation", "hang", "crash"):
                        self.viol.append((name, "obligation %s fails: %s" % (o["name"], q["message"]), dict(spec, obligation=o["name"], where=o["where"], goal=o.get("goal"), message=q["message"]), True))
                        hit = True
                        break
                    o["replayed"] = q["status"]
                if hit:
                    break
            if bad and not hit:
                exact = [o for o in bad if o["exact"]]
                if exact:
                    o = exact[0]
                    self.viol.append((name, "obligation %s fails" % o["name"], {"contract": name, "obligation": o["name"], "where": o["where"], "verifier": "refuted by " + str(o["backend"]), "goal": o.get("goal"), "model": o.get("values"), "replayed": o.get("replayed")}, False))
                else:
                    bounded.append("%s: %d obligations not provable under the abstraction used" % (name, len(bad)))
            if unk and base and base.get("status") == "proved" and r["status"] == "done" and not bad:
                lost.append((name, unk))
        for name, unk in lost:
            if any(v[0] == name for v in self.viol):
                continue
            o = unk[0]
            self.viol.append((name, "obligation %s no longer discharged" % o["name"], {"contract": name, "obligation": o["name"], "where": o["where"], "verifier": "undecided: %s" % o.get("reason"), "goal": o.get("goal")}, False))
        # ---- report
        out = []
        seen = set()
        self.viol = [v for v in self.viol if not self.known(v)]
        for name, msg, rep, has in sorted(self.viol, key=lambda v: not v[3]):
            if name in seen:
                continue
            seen.add(name)
            p = self.replay_file(name, rep)
            print("%s.%s: %s" % (self.prop, name, msg[:1500]))
            print("VIOLATION property=%s replay=%s%s" % (self.prop, p, "" if has else " no-failing-input-found"))
            out.append({"contract": name, "message": msg[:1500], "replay": p, "failing_input": has})
        for b in bounded:
            print("BOUNDED %s.%s" % (self.prop, b))
        self.evidence(done, bres, oblig, discharged, bounded, out, errors)
        print("%s %s: %d/%d obligations discharged, %d contracts proved of %d, battery %s cases, %.1fs" % (
            self.prop, "VIOLATED" if out else "held", discharged, oblig, sum(1 for r in done.values() if r["status"] == "done" and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"])), len(self.contracts),
            sum(s["cases"] for s in (bres or {}).get("stats", {}).values()), time.time() - self.t0))
        for e in errors:
            print("ERROR", e)
        if out:
            return 1
        return 2 if errors else 0

    def evidence(self, done, bres, oblig, discharged, bounded, out, errors):
        proved = sorted(n for n, r in done.items() if r["status"] == "done" and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"]))
        funcs, loops, assum, lib, backends = {}, {}, set(), set(), {}
        solver_ms = 0
        abstr = set()
        for r in done.values():
            for k, v in r["functions"].items():
                funcs.setdefault(k, v)
            loops.update(r["loops"])
            assum |= set(r["assumptions"])
            lib |= set(r["trusted_lib"])
            for o in r["obligations"]:
                solver_ms += o["ms"] or 0
                if o["status"] == "proved":
                    backends[str(o["backend"])] = backends.get(str(o["backend"]), 0) + 1
                abstr |= set(o["abstracted"] or [])
        stats = (bres or {}).get("stats", {})
        ev = sum(s["cases"] for s in stats.values())
        dn = sum(s["distinct"] for s in stats.values())
        level = "proof" if proved else "other"
        samples = [{"contract": n, "obligation": o["name"], "backend": o["backend"], "status": o["status"], "where": o["where"]} for n in list(done)[:4] for o in done[n]["obligations"][:3]]
        cov = {
            "obligations": oblig, "discharged": discharged, "discharged_by_back_end": backends,
            "checker_cmd": "./check.sh %s %s" % (self.prop, self.tier),
            "trusted_base": ["engine/ (symbolic interpreter of the Python subset, rules for loops, numpy reductions)", "z3 5.3 / cvc5 1.1"] + ["library contract: " + x for x in sorted(lib)],
            "contracts": {c.id: {"functions": c.functions, "verdict": "proved" if c.name in proved else ("bounded" if c.battery else "undecided"), "note": c.note,
                                 "obligations": len(done[c.name]["obligations"]) if c.name in done else 0, "paths": done[c.name]["paths"] if c.name in done else 0,
                                 "wall_s": round(done[c.name]["wall_s"], 2) if c.name in done else 0, "reach": (done[c.name].get("reach") or [])[:8] if c.name in done else []} for c in self.contracts},
            "functions_under_contract": {k: {"file": v[0], "lines": [v[1], v[2]]} for k, v in sorted(funcs.items())},
            "loops": loops, "solver_s": round(solver_ms / 1000.0, 2), "bounded": bounded, "abstractions": sorted(abstr),
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": "battery: the same contracts run on the real code with seeded inputs; a case is non-trivial when its precondition holds and at least one obligation was evaluated; distinct by its inputs",
            "battery": stats, "samples": samples + (bres or {}).get("samples", [])[:4],
            "explanation": "deductive proof of every contract over all inputs (exact real arithmetic), from the source of /repo read in this run; the battery cross-checks the encoding on the real code and stands in, bounded, for the contracts listed under 'bounded'",
        }
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "assumptions": sorted(assum) + ["floating point is treated as real arithmetic", "battery tolerance 1e-9 relative (1e-6 with single-precision pixels)"] + self.notes + errors,
             "wall_s": round(time.time() - self.t0, 2), "violations": len(out)}
        if out:
            d["reported"] = out
        p = os.path.join(self.ev, self.prop + ".json")
        json.dump(d, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        self.done = done
        self.proved = proved


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--baseline", action="store_true", help="record the contracts proved now in proved.json (development only)")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.replay:
        r = json.load(open(a.replay))
        c = Check(r["property"], "quick", seed)
        try:
            if r.get("values") is None and r.get("seed") is None:
                print("no failing input: obligation %s\n%s" % (r.get("obligation"), r.get("goal")))
                sys.exit(1)
            q = c.replay(r)
        finally:
            shutil.rmtree(c.scratch, ignore_errors=True)
        print(json.dumps(q, indent=1))
        sys.exit(0 if q["status"] in ("ok", "skip") else 1)
    c = Check(a.prop, a.tier, seed, a.only)
    rc = c.run()
    if a.baseline:
        p = os.path.join(HERE, "proved.json")
        b = load_json(p) or {}
        b[a.prop] = {n: {"status": "proved" if n in c.proved else "bounded", "obligations": len(c.done[n]["obligations"])} for n in sorted(c.done)}
        json.dump(b, open(p, "w"), indent=1, sort_keys=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
