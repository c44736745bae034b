"""Path-wise symbolic execution by re-execution, with z3 deciding feasibility and obligations."""
import signal
import os
import time
from fractions import Fraction
import z3
import mpmath as mp

mp.mp.dps = 60
from . import values as V
from .values import (EngineLimit, PathAbort, Stop, SymReal, SymInt, SymBool, SymNum,
                     SymStr, SymBytes, to_real, to_int, to_bool, mk_int, frac)

BASE_TOKEN = 7310000000


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.discharged_tol = 0
        self.trivial = 0
        self.unknown_feas = 0
        self.aborted = 0

    def asdict(self):
        return dict(self.__dict__)


_vars_cache = {}


def term_vars(e):
    """set of names of uninterpreted constants / ids in a term (cached)"""
    key = e.get_id()
    r = _vars_cache.get(key)
    if r is not None:
        return r[1]
    seen = set()
    out = set()
    stack = [e]
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        c = _vars_cache.get(k)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(t.decl().name())
            else:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add("fn:" + t.decl().name())
                stack.extend(t.children())
    out = frozenset(out)
    _vars_cache[key] = (e, out)
    return out


class Engine:
    def __init__(self, timeout_ms=4000, max_paths=100000, deadline=None, ob_timeout_ms=20000):
        self.timeout_ms = timeout_ms
        self.ob_timeout_ms = ob_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.work = [((), None)]      # prefixes still to explore, with a model hint
        self.qcache = {}
        self.reset(())

    # ------------------------------------------------------------------ path state
    def reset(self, prefix, model=None):
        self.prefix = prefix
        self.pos = 0
        self.trace = []                # decisions made on this path
        self.pc = []                   # list of (expr, vars)
        self.pcids = set()
        self.model = model             # a z3 model of pc (or None)
        self.model_upto = 0
        self.counter = {}
        self.tokens = {}               # placeholder text -> symbolic value
        self.tokmap = {}
        self.memo = {}
        self.digests = []              # data with digests taken so far
        self.quotients = {}
        self.base64 = {}               # encoded characters -> bytes
        self.inputs = []               # declared inputs (name, kind, term)
        self.angles = {}

    def fresh(self, base, sort="real"):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        name = "%s!%d" % (base, n)
        return {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](name)

    # ------------------------------------------------------------------ constraints
    def add(self, e):
        if z3.is_true(e):
            return
        if e.get_id() in self.pcids:
            return
        self.pcids.add(e.get_id())
        self.pc.append((e, term_vars(e)))

    def axiom(self, e):
        """definitional constraint on fresh variables (always satisfiable)"""
        self.add(e)

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort("assume false")
        if self.pos < len(self.prefix):
            self.add(e)
            return
        if self._holds_in_model(e):
            self.add(e)
            return
        r, m = self.query([e])
        if r == "unsat":
            raise PathAbort("assume false")
        self.add(e)
        self.model = m

    def _slice(self, es):
        """constraints of pc connected with es through shared variables"""
        want = set()
        for e in es:
            want |= term_vars(e)
        rest = list(self.pc)
        out = []
        changed = True
        while changed and rest:
            changed = False
            nrest = []
            for c in rest:
                if c[1] & want:
                    want |= c[1]
                    out.append(c[0])
                    changed = True
                else:
                    nrest.append(c)
            rest = nrest
        return out, [c[0] for c in rest]

    def _solve(self, cs, timeout):
        """one satisfiability query over the conjunction cs -> (verdict, model)"""
        self.stats.queries += 1
        t0 = time.time()
        try:
            div = any(self._has_div(c) for c in cs)
            if div:
                # integer quotients as variables: the linear solver is complete and much faster then
                s = z3.SolverFor("QF_LIA") if not any(self._has_real(c) for c in cs) else z3.Then("simplify", "purify-arith", "simplify", "solve-eqs", "smt").solver()
            else:
                s = z3.Solver()
            s.set("timeout", int(min(timeout, 3000)))
            s.add(*cs)
            r = s.check()
            if r == z3.sat:
                return "sat", s.model()
            if r == z3.unsat:
                return "unsat", None
            ints = any(self._has_int(c) for c in cs)
            if ints:
                s = z3.Solver()
                s.set("timeout", int(min(timeout, 3000)))
                s.set("arith.solver", 2)
                s.add(*cs)
                r = s.check()
                if r == z3.sat:
                    return "sat", s.model()
                if r == z3.unsat:
                    return "unsat", None
            if not ints:
                try:
                    g = z3.Goal()
                    g.add(*cs)
                    if not any(v.startswith("fn:") for c in cs for v in term_vars(c)):
                        t = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "purify-arith", "qfnra-nlsat")
                        s = t.solver()
                        s.set("timeout", int(timeout))
                        s.add(*cs)
                        r = s.check()
                        if r == z3.sat:
                            return "sat", s.model()
                        if r == z3.unsat:
                            return "unsat", None
                except z3.Z3Exception:
                    pass
            s = z3.Solver()
            s.set("timeout", int(timeout))
            s.set("smt.random_seed", 7)
            s.add(*cs)
            r = s.check()
            if r == z3.sat:
                return "sat", s.model()
            if r == z3.unsat:
                return "unsat", None
            v = self._cvc5(cs, timeout)
            if v == "unsat":
                return "unsat", None
            return "unknown", None
        finally:
            self.stats.solver_s += time.time() - t0

    def _has_div(self, c):
        key = ("div", c.get_id())
        r = self.qcache.get(key)
        if r is None:
            stack = [c]
            seen = set()
            v = False
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                    v = True
                    break
                stack.extend(t.children())
            r = self.qcache[key] = (v, c)
        return r[0]

    def _has_real(self, c):
        key = ("real", c.get_id())
        r = self.qcache.get(key)
        if r is None:
            stack = [c]
            seen = set()
            v = False
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if t.sort().kind() == z3.Z3_REAL_SORT:
                    v = True
                    break
                stack.extend(t.children())
            r = self.qcache[key] = (v, c)
        return r[0]

    def _has_int(self, c):
        key = ("int", c.get_id())
        r = self.qcache.get(key)
        r = r[0] if r else None
        if r is None:
            stack = [c]
            seen = set()
            r = False
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if t.sort().kind() == z3.Z3_INT_SORT:
                    r = True
                    break
                stack.extend(t.children())
            self.qcache[key] = (r, c)
        return r

    def _cvc5(self, cs, timeout):
        try:
            import cvc5
        except ImportError:
            return "unknown"
        s = z3.Solver()
        s.add(*cs)
        text = "(set-logic ALL)\n" + s.to_smt2()
        text = "\n".join(l for l in text.splitlines() if not l.startswith("(set-info"))
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
            slv.setOption("tlimit-per", str(int(timeout)))
            slv.setOption("nl-cov", "true")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
            sm = p.getSymbolManager()
            res = ""
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                res += str(c.invoke(slv, sm))
            return res.strip().split("\n")[-1].strip() or "unknown"
        except Exception:
            return "unknown"

    def query(self, es, timeout=None, full=False):
        """satisfiability of pc and es.  model covers at least the slice; missing parts are
        completed from the previous model of pc"""
        cs, rest = self._slice(es)
        r, m = self._solve(cs + list(es), timeout or self.timeout_ms)
        if r != "sat":
            return r, None
        if not rest:
            return r, m
        # combine: keep an old model for the remaining constraints
        return r, _Combined(m, self._model_for(rest))

    def _model_for(self, rest):
        m = self.model
        if m is not None:
            if all(_mtrue(m, c) for c in rest):
                return m
        r, m = self._solve(rest, self.timeout_ms)
        return m

    def _ensure_model(self):
        """a model of the full pc, or None"""
        m = self.model
        if m is not None and all(_mtrue(m, c) for c, _ in self.pc[self.model_upto if self._mid == id(m) else 0:]):
            self.model_upto = len(self.pc)
            self._mid = id(m)
            return m
        r, m = self._solve([c for c, _ in self.pc], self.timeout_ms)
        if r == "unsat":
            raise PathAbort("infeasible path")
        self.model = m
        self._mid = id(m)
        self.model_upto = len(self.pc)
        return m
    _mid = None

    def _holds_in_model(self, e):
        m = self._ensure_model()
        return m is not None and _mtrue(m, e)

    # ------------------------------------------------------------------ decisions
    def branch(self, e, aux=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if e.get_id() in self.pcids and aux is None:
            return True
        h = e.hash()
        if self.pos < len(self.prefix):
            v, a, hh = self.prefix[self.pos]
            if hh != h:
                raise EngineLimit("non-deterministic re-execution")
            self.pos += 1
            self.trace.append((v, a, h))
            self.add(e if v else z3.Not(e))
            return v
        if self.deadline and time.time() > self.deadline:
            raise EngineLimit("deadline exceeded")
        self.pos += 1
        self.stats.decisions += 1
        ne = z3.simplify(z3.Not(e))
        m = self._ensure_model()
        mv = None
        if m is not None:
            if _mtrue(m, e):
                mv = True
            elif _mtrue(m, ne):
                mv = False
        if mv is None:
            r, m1 = self.query([e])
            if r == "unsat":
                v = False
                self.trace.append((v, aux, h))
                self.add(ne)
                return v
            if r == "unknown":
                self.stats.unknown_feas += 1
            mv = True
            self.model, m = m1, m1
        other = ne if mv else e
        r, m2 = self.query([other])
        if r == "unsat":
            self.trace.append((mv, aux, h))
            # the fact is implied: record it for slicing only if helpful
            self.add(e if mv else ne)
            return mv
        if r == "unknown":
            self.stats.unknown_feas += 1
        self.work.append((tuple(self.trace) + ((not mv, aux, h),), m2))
        self.trace.append((mv, aux, h))
        self.add(e if mv else ne)
        return mv

    def concretize(self, x, limit=600):
        if not isinstance(x, SymNum):
            return x
        if isinstance(x, SymReal):
            c = V._const_frac(z3.simplify(x.e))
            if c is not None:
                return float(c)
            raise EngineLimit("concretisation of a symbolic real")
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            if self.pos < len(self.prefix):
                k = self.prefix[self.pos][1]
                if k is None:
                    raise EngineLimit("non-deterministic re-execution (concretize)")
            else:
                m = self._ensure_model()
                if m is None:
                    raise EngineLimit("no model for concretisation")
                k = model_number(m, e)
                if not isinstance(k, int):
                    raise EngineLimit("no value for concretisation")
            c = z3.simplify(e == k)
            if z3.is_true(c):
                return k
            if z3.is_false(c):
                raise EngineLimit("concretise mismatch")
            if self.branch(c, aux=k):
                return k
        raise EngineLimit("too many values to concretise")

    def require_range(self, x, lo, hi):
        self.require_or_limit(z3.And(x.e >= lo, x.e <= hi), "value out of the encodable range")

    def require_or_limit(self, cond, msg):
        cond = z3.simplify(cond)
        if z3.is_true(cond) or cond.get_id() in self.pcids:
            return
        r, m = self.query([z3.Not(cond)])
        if r != "unsat":
            raise EngineLimit(msg)
        self.add(cond)

    # ------------------------------------------------------------------ text tokens
    def token(self, x, spec="s"):
        conv = spec[-1] if spec else "s"
        e = x.e
        if conv in "di" and isinstance(x, SymReal):
            x = x.__trunc__()
            if not isinstance(x, SymNum):
                return ("%" + spec) % x
            e = x.e
        prec = None
        if conv in "fFeEgG" and "." in spec:
            prec = int(spec[spec.index(".")+1:-1])
        key = (e.get_id(), prec if prec is not None and prec < 5 else None, isinstance(x, SymInt))
        t = self.tokmap.get(key)
        if t is not None:
            return t[0]
        val = x
        if prec is not None and prec < 5 and conv in "fF":
            r = self.fresh("rnd")
            half = z3.Q(1, 2 * 10**prec)
            self.axiom(z3.And(r - to_real(x) <= half, to_real(x) - r <= half))
            val = SymReal(r)
        elif prec is not None and prec < 5 and conv in "gGeE":
            r = self.fresh("rnd")
            rel = z3.Q(1, 2 * 10**max(prec - (conv in "gG"), 0))
            ax = z3.If(to_real(x) >= 0, to_real(x), -to_real(x))
            self.axiom(z3.And(r - to_real(x) <= rel * ax, to_real(x) - r <= rel * ax))
            val = SymReal(r)
        n = len(self.tokens) + 1
        tok = str(BASE_TOKEN + n)
        if not isinstance(val, SymInt):
            tok += ".5"
        self.tokens[tok] = val
        self.tokmap[key] = (tok, x)
        return tok

    def lookup(self, text):
        """symbolic value of a placeholder numeral (None when it is not one); handles a sign"""
        if isinstance(text, (bytes, bytearray)):
            try:
                text = text.decode("ascii")
            except UnicodeDecodeError:
                return None
        t = text.strip()
        sign = 1
        if t[:1] in "+-" and t:
            if t[0] == "-":
                sign = -1
            t = t[1:]
        v = self.tokens.get(t)
        if v is None:
            return None
        return v if sign == 1 else -v

    # ------------------------------------------------------------------ exploration
    path_timeout = 100

    def explore(self, fn, on_path):
        """run fn() once per feasible path.  on_path(kind, payload) is called at the end of every
        path: kind in 'ok', 'exc', 'limit'"""
        V.ENGINE = self
        try:
            while self.work:
                if self.stats.paths >= self.max_paths:
                    on_path("limit", EngineLimit("more than %d paths" % self.max_paths))
                    return
                prefix, model = self.work.pop()
                self.reset(prefix, model)
                try:
                    signal.alarm(self.path_timeout)
                    try:
                        fn()
                    finally:
                        signal.alarm(0)
                    self.stats.paths += 1
                    on_path("ok", None)
                except PathAbort:
                    self.stats.aborted += 1
                except Stop:
                    self.stats.paths += 1
                    raise
                except EngineLimit as ex:
                    self.stats.paths += 1
                    on_path("limit", ex)
                except RecursionError as ex:
                    self.stats.paths += 1
                    on_path("limit", EngineLimit("recursion"))
                except z3.Z3Exception as ex:
                    self.stats.paths += 1
                    on_path("limit", EngineLimit("z3: %s" % ex))
                except Exception as ex:
                    self.stats.paths += 1
                    on_path("exc", ex)
        except Stop:
            pass
        finally:
            V.ENGINE = None


class _Combined:
    """two models over disjoint variables"""
    def __init__(self, a, b):
        self.a, self.b = a, b
        self._names = None

    def _subst(self):
        if self._names is None:
            d = {}
            for m in (self.b, self.a):
                if m is None:
                    continue
                if isinstance(m, _Combined):
                    d.update(m._subst())
                else:
                    for f in m.decls():
                        if f.arity() == 0:
                            d[f.name()] = (f(), m[f])
            self._names = d
        return self._names

    def eval(self, e, model_completion=False):
        # restrict to the variables which occur
        subs = []
        d = self._subst()
        for n in term_vars(e):
            if n.startswith("fn:"):
                # function interpretations: delegate
                return (self.a or self.b).eval(e, model_completion=model_completion)
            if n in d:
                subs.append(d[n])
        r = z3.simplify(z3.substitute(e, *subs)) if subs else z3.simplify(e)
        if model_completion and (z3.is_app(r) and term_vars(r)):
            sub2 = []
            for t in _consts(r):
                k = t.sort().kind()
                z = z3.RealVal(0) if k == z3.Z3_REAL_SORT else z3.IntVal(0) if k == z3.Z3_INT_SORT else z3.BoolVal(False)
                sub2.append((t, z))
            r = z3.simplify(z3.substitute(r, *sub2))
        return r


def _consts(e):
    seen = {}
    stack = [e]
    done = set()
    while stack:
        t = stack.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen[t.decl().name()] = t
        stack.extend(t.children())
    return list(seen.values())


# ---------------------------------------------------------------------- evaluation in models
# models with algebraic numbers are evaluated numerically (60 digits): exact arithmetic on algebraic
# numbers is unusably slow.  Models only guide the exploration and provide inputs for replays;
# verdicts always come from solver queries.
_MODELS = {}


def _info(m):
    r = _MODELS.get(id(m))
    if r is not None and r[0] is m:
        return r
    if len(_MODELS) > 400:
        _MODELS.clear()
    alg = False
    if isinstance(m, _Combined):
        alg = any(_info(k)[1] for k in (m.a, m.b) if k is not None)
    else:
        for f in m.decls():
            if f.arity() == 0 and z3.is_algebraic_value(m[f]):
                alg = True
                break
    r = _MODELS[id(m)] = (m, alg, {})
    return r


def _num(v):
    """z3 value -> python number"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return mp.mpf(v.numerator_as_long()) / mp.mpf(v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(60)
        return mp.mpf(a.numerator_as_long()) / mp.mpf(a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise NotImplementedError


TINY = None


def _approx(m, e):
    memo = _info(m)[2]
    tiny = mp.mpf(10) ** -40
    stack = [e]
    while stack:
        t = stack[-1]
        i = t.get_id()
        if i in memo:
            stack.pop()
            continue
        if not z3.is_app(t):
            raise NotImplementedError
        ch = t.children()
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = [memo[c.get_id()][0] for c in ch]
        k = t.decl().kind()
        if not ch:
            if k == z3.Z3_OP_UNINTERPRETED:
                v = _num(m.eval(t, model_completion=True))
            else:
                v = _num(t)
        elif k == z3.Z3_OP_ADD:
            v = sum(a[1:], a[0])
        elif k == z3.Z3_OP_SUB:
            v = a[0]
            for b in a[1:]:
                v = v - b
        elif k == z3.Z3_OP_MUL:
            v = a[0]
            for b in a[1:]:
                v = v * b
        elif k == z3.Z3_OP_UMINUS:
            v = -a[0]
        elif k == z3.Z3_OP_DIV:
            if abs(a[1]) <= tiny:
                raise NotImplementedError
            v = mp.mpf(a[0]) / a[1]
        elif k == z3.Z3_OP_POWER:
            v = mp.mpf(a[0]) ** a[1]
        elif k == z3.Z3_OP_ITE:
            v = a[1] if a[0] else a[2]
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF):
            if len(a) != 2:
                raise NotImplementedError
            if isinstance(a[0], bool):
                v = (a[0] == a[1]) if k != z3.Z3_OP_DISTINCT else a[0] != a[1]
            else:
                d = a[0] - a[1]
                z = abs(d) <= tiny * (1 + abs(a[0]))
                v = {z3.Z3_OP_LE: z or d < 0, z3.Z3_OP_GE: z or d > 0, z3.Z3_OP_LT: not z and d < 0,
                     z3.Z3_OP_GT: not z and d > 0, z3.Z3_OP_EQ: z, z3.Z3_OP_DISTINCT: not z}[k]
                v = bool(v)
        elif k == z3.Z3_OP_NOT:
            v = not a[0]
        elif k == z3.Z3_OP_AND:
            v = all(a)
        elif k == z3.Z3_OP_OR:
            v = any(a)
        elif k == z3.Z3_OP_IMPLIES:
            v = (not a[0]) or a[1]
        elif k == z3.Z3_OP_XOR:
            v = a[0] != a[1]
        elif k == z3.Z3_OP_TO_REAL:
            v = a[0]
        elif k == z3.Z3_OP_TO_INT:
            v = int(mp.floor(a[0] + tiny))
        elif k == z3.Z3_OP_IS_INT:
            v = abs(a[0] - mp.nint(a[0])) <= tiny
        elif k == z3.Z3_OP_IDIV:
            v = a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        elif k == z3.Z3_OP_MOD:
            v = a[0] % abs(a[1])
        elif k == z3.Z3_OP_UNINTERPRETED:
            v = _num(m.eval(t, model_completion=True))
        else:
            raise NotImplementedError
        memo[i] = (v, t)
    return memo[e.get_id()][0]


def _mtrue(m, e):
    try:
        if _info(m)[1]:
            return bool(_approx(m, e))
        return z3.is_true(m.eval(e, model_completion=True))
    except (z3.Z3Exception, NotImplementedError, ZeroDivisionError):
        return False


def model_number(m, e):
    """python Fraction/int/bool of a term in a model"""
    if _info(m)[1]:
        try:
            v = _approx(m, e)
        except (NotImplementedError, ZeroDivisionError):
            return None
        if isinstance(v, (bool, int)):
            return v
        return Fraction(int(mp.nint(v * mp.mpf(2)**150)), 2**150)
    v = m.eval(e, model_completion=True)
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
