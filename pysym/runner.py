"""Runs the solver based check of one property.

usage: python3-vt /verif/pysym/runner.py PID [--tier quick|thorough] [--only HARNESS] [-v]"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[0] = ROOT
sys.dont_write_bytecode = True

from pysym import values as V, engine as EN, api, replay as RP    # noqa: E402
from pysym import loader    # noqa: E402
import z3    # noqa: E402

REPO = loader.REPO


def jsonable(v):
    from fractions import Fraction
    if isinstance(v, Fraction):
        return float(v)
    return v


class Job:
    """symbolic exploration of one harness in one structural case"""

    def __init__(self, pid, h, caseno, tier, deadline, verbose):
        self.pid, self.h, self.caseno, self.tier = pid, h, caseno, tier
        self.case = RP.allcases(h)[caseno]
        self.verbose = verbose
        o = h.opts
        self.E = EN.Engine(timeout_ms=o.get("timeout_ms", 4000), max_paths=o.get("max_paths", 20000),
                           deadline=deadline, ob_timeout_ms=o.get("ob_timeout_ms", 20000))
        V.SIMPLIFY, V.EAGER = o.get("simplify", False), o.get("eager", False)
        V.QUOTIENTS = o.get("quotients", False)
        V.DIGITS = o.get("digits", False)
        self.violations = []
        self.spurious = []
        self.limits = []
        self.undecided = []
        self.models = []
        self.nontrivial = 0
        self.labels = {}
        self.nrandom = 0
        import random
        self.rng = random.Random("%s %s %d %s" % (pid, h.name, caseno, os.environ.get("VERIF_SEED", "1")))

    # ------------------------------------------------------------ models -> inputs
    def values_of(self, m):
        import math
        out = {}
        for name, kind, t in self.E.inputs:
            if kind in ("deg", "rad"):
                v, c, s, lo, hi = t
                cv, sv = EN.model_number(m, c), EN.model_number(m, s)
                vv = EN.model_number(m, v)
                a = math.atan2(float(sv), float(cv))
                full = 2 * math.pi
                if kind == "deg":
                    a, full = math.degrees(a), 360.0
                # the branch closest to the model's value
                a += full * round((float(vv) - a) / full)
                if not lo < a < hi:
                    a = float(vv)
                out[name] = a
            else:
                v = EN.model_number(m, t)
                out[name] = jsonable(v) if v is not None else 0
        return out

    def replay(self, values, label, scale=0.5):
        r = dict(property=self.pid, harness=self.h.name, case=self.caseno, values=values, label=label, scale=scale)
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%s-%d-%d.json" % (self.pid, self.h.name, self.caseno, len(self.violations) + len(self.spurious)))
        with open(fn, "w") as f:
            json.dump(r, f, indent=1)
        try:
            p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), fn], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=self.h.opts.get("replay_timeout", 60), text=True, env=env(),
                               cwd=scratch())
        except subprocess.TimeoutExpired:
            return True, fn, "replay did not terminate"
        return p.returncode == 1, fn, p.stdout + (p.stderr[-2000:] if p.returncode not in (0, 1) else "")

    # ------------------------------------------------------------ obligations
    def obligation(self, ctx, exact, viol, label, detail):
        E = self.E
        E.stats.obligations += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if z3.is_true(exact):
            E.stats.trivial += 1
            E.stats.discharged += 1
            return
        neg = z3.simplify(z3.Not(exact))
        r, m = E.query([neg], E.ob_timeout_ms)
        if r == "unsat":
            E.stats.discharged += 1
            E.add(exact)
            return
        tries = [(neg, m)] if r == "sat" and viol is None else []
        if viol is not None:
            r2, m2 = E.query([viol(1)], E.ob_timeout_ms)
            if r2 == "unsat":
                E.stats.discharged += 1
                E.stats.discharged_tol += 1
                return
            if r2 == "unknown":
                r = "unknown"
            else:
                r = "sat"
                tries = [(viol(1), m2)]
        if r == "unknown":
            for f in (1000, 10) if viol is not None else ():
                r3, m3 = E.query([viol(f)], E.ob_timeout_ms)
                if r3 == "sat":
                    tries = [(viol(f), m3)]
                    r = "sat"
                    break
        if r == "unknown":
            self.undecided.append("%s: %s" % (label, "solver gave no verdict"))
            # still try the path model on the real code
            try:
                m = E._ensure_model()
            except V.PathAbort:
                m = None
            if m is not None:
                self.try_model(m, label, undecided=True)
            return
        self.candidate(tries, viol, label)

    def full(self, m, extra):
        """a model of the whole path condition and the given formulas"""
        return m

    def candidate(self, tries, viol, label):
        E = self.E
        block = []
        for e, m in tries:
            if self.try_model(m, label):
                raise V.Stop()
            # different models
            for f in ((100, 10000, 1000000, 1) if viol is not None else (1, 1, 1)):
                block.append(self.block(m))
                g = [viol(f)] if viol is not None else [e]
                r, m2 = E.query(g + [b for b in block if b is not None], E.ob_timeout_ms)
                if r == "sat":
                    m = m2
                    if self.try_model(m, label):
                        raise V.Stop()
        if any(kind in ("deg", "rad") for _, kind, _ in E.inputs):
            # values of an angle and of its (cos, sin) are only loosely tied in the encoding:
            # pin the angles to definite rational directions
            for attempt in range(12):
                g = self.pin_angles(m if attempt == 0 else None)
                r, m2 = E.query(([viol(1)] if viol is not None else [e]) + g, E.ob_timeout_ms)
                if r == "sat" and self.try_model(m2, label):
                    raise V.Stop()
            self.undecided.append("%s: counterexample candidates do not have consistent angles" % label)
            return
        self.spurious.append((label, {k: v for k, v in self.values_of(m).items()}))
        if len(self.spurious) > 5:
            raise V.Stop()

    def pin_angles(self, m):
        import math
        from fractions import Fraction as F
        vals = self.values_of(m) if m is not None else {}
        cs = []
        for name, kind, t in self.E.inputs:
            if kind not in ("deg", "rad"):
                continue
            v, c, s, lo, hi = t
            a = vals.get(name)
            if a is None:
                a = self.rng.uniform(float(lo), float(hi))
            full = 360.0 if kind == "deg" else 2 * math.pi
            turn = math.floor(a / full + 0.5)
            h = (a - turn * full) * math.pi / full
            tt = F(math.tan(h)).limit_denominator(2000) if abs(h) < 1.55 else F(round(math.tan(h)))
            back = 2 * math.atan(float(tt)) / (2 * math.pi) * full + turn * full
            cs += [c == V.realval((1 - tt*tt) / (1 + tt*tt)), s == V.realval(2*tt / (1 + tt*tt)), v == V.realval(F(back))]
        return cs

    def block(self, m):
        """demand a clearly different model"""
        cs = []
        for name, kind, t in self.E.inputs:
            if kind == "real":
                v = EN.model_number(m, t)
                if v is not None:
                    q = V.realval(v) if not isinstance(v, bool) else None
                    cs.append(z3.Or(t > q + z3.Q(1, 7), t < q - z3.Q(1, 7)))
            elif kind == "int":
                v = EN.model_number(m, t)
                cs.append(t != v)
            else:
                v = EN.model_number(m, t[1])
                q = V.realval(v)
                cs.append(z3.Or(t[1] > q + z3.Q(1, 50), t[1] < q - z3.Q(1, 50)))
        return z3.Or(cs) if cs else None

    def try_model(self, m, label, undecided=False):
        vals = self.values_of(m)
        ok, fn, out = self.replay(vals, label)
        if self.verbose:
            print("  candidate %s %s: %s\n%s" % (self.h.name, label, "reproduced" if ok else "NOT reproduced", out), file=sys.stderr)
        if ok:
            self.violations.append((label, fn, out))
            if undecided:
                raise V.Stop()
        return ok

    def random_witness(self):
        """a generic input of the current path: the solver decides whether it follows the path"""
        from fractions import Fraction as F
        E = self.E
        for attempt in range(2):
            cs, vals = [], {}
            for name, kind, t in E.inputs:
                lo, hi = self.ctx.ranges.get(name, (None, None))
                if kind == "real":
                    lo = -100 if lo is None else lo
                    hi = lo + 200 if hi is None else hi
                    q = F(lo) + (F(hi) - F(lo)) * F(self.rng.randrange(1, 4096), 4096)
                    cs.append(t == V.realval(q))
                elif kind == "int" and name in self.ctx.ranges:
                    cs.append(t == self.rng.randint(lo, hi))
                elif kind == "int":
                    continue        # structural choice: fixed by the path
                else:
                    continue
            try:
                r, m = E.query(cs, 1500)
            except (V.EngineLimit, V.PathAbort):
                return
            if r == "sat" and m is not None:
                vals = self.values_of(m)
                self.models.append((vals, []))
                self.nrandom += 1
                return

    # ------------------------------------------------------------ paths
    def on_path(self, kind, ex):
        E = self.E
        if kind == "ok":
            if self.ctx.nchecks:
                self.nontrivial += 1
            k = self.h.opts.get("witnesses", 3)
            n = E.stats.paths
            if len(self.models) < k or (n & (n - 1) == 0 and len(self.models) < 3 * k):
                try:
                    m = E._ensure_model()
                except V.PathAbort:
                    E.stats.aborted += 1
                    return
                if m is not None:
                    obs = []
                    # (values and directions of angles are only loosely tied in models)
                    for l, a, b in self.ctx.observed if self.h.opts.get("observe", True) and not any(k in ("deg", "rad") for _, k, _ in E.inputs) else ():
                        try:
                            va, vb = EN.model_number(m, a), EN.model_number(m, b)
                            obs.append((l, None if va is None else float(va), None if vb is None else float(vb)))
                        except Exception:
                            obs.append((l, None, None))
                    self.models.append((self.values_of(m), obs))
                    if self.nrandom < self.h.opts.get("random_witnesses", 4):
                        self.random_witness()
            return
        try:
            m = E._ensure_model()
        except (V.PathAbort, V.EngineLimit):
            E.stats.aborted += 1
            return
        except BaseException:
            m = None
        if kind == "exc":
            tb = traceback.extract_tb(ex.__traceback__)
            where = " <- ".join("%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[::-1][:6])
            label = "exception %s" % type(ex).__name__
            if self.verbose:
                print("  exception path: %s: %s at %s" % (label, ex, where), file=sys.stderr)
            if m is None:
                self.limits.append("%s: %s at %s (no model)" % (label, ex, where))
                return
            vals = self.values_of(m)
            ok, fn, out = self.replay(vals, label)
            if ok:
                self.violations.append((label, fn, out))
                raise V.Stop()
            self.limits.append("engine-only %s: %s at %s" % (label, ex, where))
            if len(self.limits) > 20:
                raise V.Stop()
            return
        tb = traceback.extract_tb(ex.__traceback__)
        where = " <- ".join("%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[::-1] if "pysym" not in f.filename)[:400]
        self.limits.append("%s at %s" % (ex, where))
        if m is not None and len(self.limits) <= 10:
            vals = self.values_of(m)
            ok, fn, out = self.replay(vals, "undecided path")
            if ok:
                self.violations.append(("undecided path", fn, out))
                raise V.Stop()
        if "deadline" in str(ex) or "more than" in str(ex) or len(self.limits) > 50:
            raise V.Stop()

    def run(self):
        funcs = set()
        mon = sys.monitoring
        mon.use_tool_id(3, "pysym")

        def start(code, off):
            if code.co_filename.startswith(REPO + "/pyx"):
                funcs.add("%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
        t0 = time.time()

        def fn():
            self.ctx = api.SymCtx(self, self.tier)
            loader.OPEN_HOOK[0] = None
            if self.case is None:
                self.h.fn(self.ctx)
            else:
                self.h.fn(self.ctx, self.case)
        import signal

        def alarm(sig, frame):
            raise V.EngineLimit("path does not terminate within its time limit")
        signal.signal(signal.SIGALRM, alarm)
        self.E.path_timeout = self.h.opts.get("path_timeout", 100)
        try:
            self.E.explore(fn, self.on_path)
        except V.Stop:
            pass
        mon.set_events(3, 0)
        mon.free_tool_id(3)
        complete = not self.E.work and not self.violations
        return dict(harness=self.h.name, case=self.caseno, casetext=repr(self.case), stats=self.E.stats.asdict(),
                    violations=self.violations, spurious=self.spurious, limits=self.limits, undecided=self.undecided,
                    models=self.models, funcs=sorted(funcs), wall=time.time() - t0, nontrivial=self.nontrivial,
                    labels=self.labels, complete=complete)


def env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e.setdefault("PYXRC", os.path.join(ROOT, "stubs", "pyxrc"))
    return e


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import tempfile
        import atexit
        import shutil
        _scratch = tempfile.mkdtemp(prefix="pysym")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def _work(arg):
    pid, hname, caseno, tier, deadline, verbose = arg
    try:
        import resource
        lim = 3500 << 20
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    if os.environ.get("PYSYM_STACK"):
        # debugging aid: where is the job after that many seconds
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["PYSYM_STACK"]), repeat=True, file=open("/tmp/pysym-stack", "w"))
    h = REG[hname]
    d = time.time() + h.opts.get("deadline", 150 if tier == "quick" else 500)
    try:
        return Job(pid, h, caseno, tier, min(deadline, d), verbose).run()
    except BaseException as ex:
        return dict(harness=hname, case=caseno, casetext="", crash="%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()))


def _child(conn, job):
    r = _work(job)
    try:
        conn.send(r)
    except Exception as ex:
        conn.send(dict(harness=job[1], case=job[2], casetext="", crash="result of the job: %s" % ex))
    conn.close()


def schedule(ctx, jobs, n, end, verbose):
    """one process per job; a job whose solver call does not come back is ended"""
    from multiprocessing.connection import wait
    jobs = list(jobs)[::-1]
    running, results = {}, []

    def lost(j, text):
        st = EN.Stats().asdict()
        return dict(harness=j[1], case=j[2], casetext=repr(RP.allcases(REG[j[1]])[j[2]]), stats=st, violations=[], spurious=[], limits=[text],
                    undecided=[], models=[], funcs=[], wall=0, nontrivial=0, labels={}, complete=False)

    while jobs or running:
        while jobs and len(running) < n:
            j = jobs.pop()
            if time.time() > end:
                results.append(lost(j, "not started within the time budget"))
                continue
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(wr, j), daemon=True)
            p.start()
            wr.close()
            limit = min(end, time.time() + REG[j[1]].opts.get("deadline", 150 if j[3] == "quick" else 500)) + 25
            running[rd] = (p, j, limit)
        if not running:
            break
        now = time.time()
        for rd in wait(list(running), timeout=max(0.05, min(l for _, _, l in running.values()) - now)):
            p, j, l = running.pop(rd)
            try:
                r = rd.recv()
            except (EOFError, OSError):
                r = lost(j, "the solver process died (memory)")
            rd.close()
            p.join(5)
            if p.is_alive():
                p.kill()
            results.append(r)
            if verbose:
                print("done", r["harness"], r["case"], r.get("casetext"), r.get("crash", ""), "%.1fs" % r.get("wall", 0),
                      {k: v for k, v in r.get("stats", {}).items() if k in ("paths", "queries", "obligations", "discharged", "decisions")},
                      "limits", r.get("limits", [])[:3], "undecided", r.get("undecided", [])[:3], "spurious", r.get("spurious", [])[:2], file=sys.stderr)
        for rd, (p, j, l) in list(running.items()):
            if time.time() > l:
                p.kill()
                p.join(5)
                rd.close()
                del running[rd]
                results.append(lost(j, "solver did not return within the time limit"))
                if verbose:
                    print("done", j[1], j[2], "KILLED", file=sys.stderr)
    return results


def single_replay(pid, item, reg, t0):
    """one concrete replay in a process of its own"""
    if time.time() - t0 > 860:
        return dict(status="skip", failures=[], observed=[])
    p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "replay.py"), "--batch"], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), cwd=scratch())
    try:
        out, _ = p.communicate(json.dumps(dict(property=pid, items=[item])).encode(), timeout=reg[item["harness"]].opts.get("replay_timeout", 60))
        return json.loads(out)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return dict(status="fail", failures=[("termination", "replay did not terminate")], observed=[])
    except ValueError:
        return dict(status="fail", failures=[("crash", "the process died (status %s)" % p.returncode)], observed=[])


REG = {}


def load_known(pid):
    known = []
    fn = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    d = line.split(" ", 2)[2]
                    key, _, text = d.partition(" ")
                    known.append((key.split("=", 1)[1], text))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--case", type=int)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    if a.pid == "--selftest" or a.selftest:
        print("z3", z3.get_version_string())
        return 0
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env())
    t0 = time.time()
    budget = a.budget or (700 if a.tier == "quick" else 3000)
    os.chdir(scratch())
    sys.path.insert(0, REPO)
    loader.install()
    import logging
    logging.disable(logging.CRITICAL)
    import pyx      # noqa: F401  (instrumented; loaded once, the workers are forked)
    REG.update(RP.load_check(a.pid))
    jobs = []
    for h in REG.values():
        if a.only and h.name != a.only:
            continue
        n = len(h.cases) + (len(h.thorough) if a.tier != "quick" else 0)
        for c in range(n):
            if a.case is not None and c != a.case:
                continue
            jobs.append((a.pid, h.name, c, a.tier, t0 + budget, a.v))
    ctx = mp.get_context("fork")
    results = []
    # long jobs first when a weight is given
    jobs.sort(key=lambda j: -REG[j[1]].opts.get("weight", 1))
    if a.j == 1:
        results = [_work(j) for j in jobs]
    else:
        results = schedule(ctx, jobs, min(a.j, len(jobs)), t0 + budget, a.v)
    results.sort(key=lambda r: (r["harness"], r["case"]))
    crashed = [r for r in results if "crash" in r]
    results = [r for r in results if "crash" not in r]
    # ---------------------------------------------------------------- concrete replays of path models
    items, refs = [], []
    for r in results:
        for vals, obs in r["models"]:
            items.append(dict(harness=r["harness"], case=r["case"], values=vals, scale=10))
            refs.append((r, obs))
    replays = ok = mism = skipped = 0
    violations = []
    if items:
        chunks = [list(range(i, len(items), 8)) for i in range(8)]
        procs = []
        for ch in chunks:
            if not ch:
                continue
            p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "replay.py"), "--batch"], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), cwd=scratch())
            p.stdin.write(json.dumps(dict(property=a.pid, items=[items[i] for i in ch])).encode())
            p.stdin.close()
            p.stdin = None
            procs.append((p, ch))
        for p, ch in procs:
            try:
                out, _ = p.communicate(timeout=max(30, min(240, t0 + 840 - time.time())) if a.tier == "quick" else 1200)
                res = json.loads(out)
            except (ValueError, subprocess.TimeoutExpired) as ex:
                p.kill()
                p.wait()
                res = [single_replay(a.pid, items[i], REG, t0) for i in ch]
            for i, rr in zip(ch, res):
                replays += 1
                r, obs = refs[i]
                if rr["status"] == "skip":
                    skipped += 1
                    continue
                if rr["status"] == "fail":
                    d = os.path.join(ROOT, "evidence", "replay")
                    os.makedirs(d, exist_ok=True)
                    fn = os.path.join(d, "%s-%s-%d-w%d.json" % (a.pid, r["harness"], r["case"], i))
                    with open(fn, "w") as f:
                        json.dump(dict(property=a.pid, scale=10, label="witness", **{k: items[i][k] for k in ("harness", "case", "values")}), f)
                    r["violations"].append((rr["failures"][0][0], fn, "witness replay: %s" % rr["failures"][:3]))
                    continue
                bad = False
                if not obs:
                    pass
                elif len(obs) == len(rr["observed"]):
                    for (l, x1, x2), (l2, y1, y2) in zip(obs, rr["observed"]):
                        for u, v in ((x1, y1), (x2, y2)):
                            if u is not None and v is not None and l == l2 and abs(u - v) > 1e-3 * (1 + abs(u)):
                                bad = True
                                if a.v:
                                    print("encoding mismatch", r["harness"], r["case"], l, u, v, items[i]["values"], file=sys.stderr)
                                break
                else:
                    bad = True
                    if a.v:
                        print("observation count mismatch", r["harness"], r["case"], items[i]["values"], len(obs), len(rr["observed"]), file=sys.stderr)
                mism += bad
                ok += not bad
    # ---------------------------------------------------------------- verdict
    known = load_known(a.pid)
    tot = EN.Stats().asdict()
    for r in results:
        for k in tot:
            tot[k] += r["stats"][k]
    found = []
    knownhit = {}
    for r in results:
        for label, fn, out in r["violations"]:
            for key, text in known:
                if key == "%s/%s" % (r["harness"], label.replace(" ", "_")):
                    knownhit[key] = text
                    break
            else:
                found.append((r, label, fn, out))
    errors = []
    for r in crashed:
        errors.append("crash in %s: %s" % (r["harness"], r["crash"]))
    incomplete = []
    for r in results:
        if r["violations"]:
            continue
        for l, vals in r["spurious"]:
            errors.append("unreproduced counterexample in %s[%s]: %s %s" % (r["harness"], r["casetext"], l, vals))
        if not r["nontrivial"] and r["limits"]:
            incomplete.append("%s[%s]: no path was decided" % (r["harness"], r["casetext"]))
        elif not r["nontrivial"]:
            errors.append("vacuous: %s[%s] completed no path with an obligation %s" % (r["harness"], r["casetext"], r["limits"][:2]))
        for l in r["limits"]:
            incomplete.append("%s[%s]: %s" % (r["harness"], r["casetext"], l))
        for l in r["undecided"]:
            incomplete.append("%s[%s]: %s" % (r["harness"], r["casetext"], l))
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    m = RP.MODULE[0]
    meta = dict(bounds=getattr(m, "BOUNDS", ""), assumptions=getattr(m, "ASSUMPTIONS", []), explanation=getattr(m, "EXPLANATION", ""))
    wall = time.time() - t0
    ev = dict(property=a.pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["decisions"],
                            traces_validated_against_impl=ok,
                            samples=[dict(harness=it["harness"], case=it["case"], inputs=it["values"]) for it in items[:6]] or ["no path model"],
                            replays_on_real_code=replays,
                            obligations=tot["obligations"], discharged=tot["discharged"],
                            discharged_within_tolerance=tot["discharged_tol"], trivially_true=tot["trivial"],
                            solver_queries=tot["queries"], solver_seconds=round(tot["solver_s"], 2),
                            solver="z3 %s (smt, qfnra-nlsat), cvc5 as fallback" % z3.get_version_string(),
                            harnesses=[dict(harness=r["harness"], case=r["casetext"], paths=r["stats"]["paths"],
                                            obligations=r["stats"]["obligations"], discharged=r["stats"]["discharged"],
                                            complete=bool(r["complete"] and not r["limits"] and not r["undecided"]),
                                            wall_s=round(r["wall"], 2)) for r in results],
                            functions_encoded=funcs,
                            bounds=meta.get("bounds", ""),
                            replays_skipped=skipped, encoding_mismatches=mism,
                            undecided=incomplete[:50], undecided_count=len(incomplete),
                            explanation=meta.get("explanation", "")),
              wall_s=round(wall, 2), assumptions=meta.get("assumptions", []), violations=len(found),
              known_findings=sorted(knownhit))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d harness cases, %d paths, %d decisions, %d obligations (%d discharged, %d of them within tolerance, %d trivially), "
          "%d solver queries in %.1f s, %d replays on the real code (%d agree, %d mismatch, %d skipped), %d functions, %.1f s"
          % (a.pid, a.tier, len(results), tot["paths"], tot["decisions"], tot["obligations"], tot["discharged"], tot["discharged_tol"], tot["trivial"],
             tot["queries"], tot["solver_s"], replays, ok, mism, skipped, len(funcs), wall))
    for i in incomplete[:20]:
        print("UNDECIDED %s" % i)
    for key in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s %s" % (a.pid, key, knownhit[key]))
    if found:
        for r, label, fn, out in found:
            print("violated in %s[%s]: %s\n  %s" % (r["harness"], r["casetext"], label, out.strip().replace("\n", "\n  ")))
            print("VIOLATION property=%s replay=%s" % (a.pid, fn))
        return 1
    for e in errors:
        print("ERROR %s" % e)
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
