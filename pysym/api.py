"""Harness interface: one harness function is executed symbolically (SymCtx) and concretely (ConCtx)."""
import math as _math
import random as _random
from fractions import Fraction

REGISTRY = []


class Skip(BaseException):
    """concrete replay: an assumption of the harness is not met by the given values"""


class Violated(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Harness:
    def __init__(self, fn, cases, thorough, opts):
        self.fn = fn
        self.name = fn.__name__
        self.cases = cases
        self.thorough = thorough
        self.opts = opts


def harness(cases=(None,), thorough=(), **opts):
    """cases: structural cases explored in both tiers, thorough: additional cases of the thorough tier"""
    def deco(fn):
        h = Harness(fn, list(cases), list(thorough), opts)
        REGISTRY.append(h)
        return fn
    return deco


DEFAULT_TOL = 1e-5


# ====================================================================== symbolic
class SymCtx:
    symbolic = True

    def __init__(self, runner, tier):
        from . import values, symmath
        self.V = values
        self.math = symmath
        self.runner = runner
        self.tier = tier
        self.observed = []
        self.nchecks = 0
        self.notes = []
        self.ranges = {}

    @property
    def E(self):
        return self.V.ENGINE

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, nonzero=False):
        z3 = __import__("z3")
        v = z3.Real(name)
        self.E.inputs.append((name, "real", v))
        self.ranges[name] = (lo, hi)
        cs = []
        if lo is not None:
            cs.append(v >= self.V.realval(lo))
        if hi is not None:
            cs.append(v <= self.V.realval(hi))
        if nonzero:
            cs.append(v != 0)
        if cs:
            self.E.add(z3.And(cs) if len(cs) > 1 else cs[0])
        return self.V.SymReal(v)

    def int(self, name, lo, hi):
        z3 = __import__("z3")
        v = z3.Int(name)
        self.E.inputs.append((name, "int", v))
        self.ranges[name] = (lo, hi)
        self.E.add(z3.And(v >= lo, v <= hi))
        return self.V.SymInt(v)

    def bool(self, name):
        z3 = __import__("z3")
        v = z3.Int(name)
        self.E.inputs.append((name, "int", v))
        self.E.add(z3.And(v >= 0, v <= 1))
        return self.E.branch(v == 1)

    def choice(self, name, options):
        z3 = __import__("z3")
        v = z3.Int(name)
        self.E.inputs.append((name, "int", v))
        self.E.add(z3.And(v >= 0, v < len(options)))
        return options[self.E.concretize(self.V.SymInt(v))]

    def bytes(self, name, n, lo=0, hi=255):
        return self.V.SymBytes([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)]) if n else b""

    def str(self, name, n, lo=32, hi=126):
        return self.V.SymStr([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)]) if n else ""

    def angle(self, name, lo=-180, hi=180, deg=True, segments=1):
        """an arbitrary angle, given in degrees (or radians) with value in the open interval (lo, hi)"""
        z3 = __import__("z3")
        from . import symmath as S
        v = z3.Real(name)
        c, s = z3.Real("cos(%s)" % name), z3.Real("sin(%s)" % name)
        self.E.inputs.append((name, "deg" if deg else "rad", (v, c, s, lo, hi)))
        self.ranges[name] = (lo, hi)
        self.E.add(z3.And(v > self.V.realval(lo), v < self.V.realval(hi)))
        a = S.angle_atom(name, v, self.V.frac(_math.pi) / 180 if deg else Fraction(1))
        # facts relating the value to (cos, sin): exact at quadrant borders, monotone bounds in between
        full = Fraction(360) if deg else 2 * self.V.frac(_math.pi)
        n = 4 * segments
        q = lambda k: self.V.realval(full * k / n)
        kmin, kmax = _math.floor(lo / float(full) * n), _math.ceil(hi / float(full) * n)
        ax = []
        up = lambda f: self.V.realval(Fraction(f) + Fraction(1, 10**9))
        dn = lambda f: self.V.realval(Fraction(f) - Fraction(1, 10**9))
        for k in range(kmin, kmax + 1):
            if k % segments == 0:
                cs, sn = [(1, 0), (0, 1), (-1, 0), (0, -1)][k // segments % 4]
                ax.append(z3.Implies(v == q(k), z3.And(c == cs, s == sn)))
            if k == kmax:
                break
            sc, ss = [(1, 1), (-1, 1), (-1, -1), (1, -1)][k // segments % 4]
            va, vb = max(float(full) * k / n, float(lo)), min(float(full) * (k + 1) / n, float(hi))
            if deg:
                va, vb = _math.radians(va), _math.radians(vb)
            inside = z3.And(v >= q(k), v <= q(k + 1))
            strict = z3.And(v > q(k), v < q(k + 1))
            ax.append(z3.Implies(strict, z3.And((c > 0) if sc > 0 else (c < 0), (s > 0) if ss > 0 else (s < 0))))
            c1, c2 = sorted((_math.cos(va), _math.cos(vb)))
            s1, s2 = sorted((_math.sin(va), _math.sin(vb)))
            ax.append(z3.Implies(inside, z3.And(c >= dn(c1), c <= up(c2), s >= dn(s1), s <= up(s2))))
        self.E.add(z3.And(ax))
        return a

    # ---------------------------------------------------------------- assumptions / obligations
    def assume(self, cond):
        if isinstance(cond, (self.V.SymBool, self.V.SymNum)):
            self.E.assume(self.V.to_bool(cond))
        elif not cond:
            raise self.V.PathAbort()

    def reject(self):
        raise self.V.PathAbort()

    def check(self, cond, label, detail=None):
        self.nchecks += 1
        z3 = __import__("z3")
        if isinstance(cond, (self.V.SymBool, self.V.SymNum)):
            e = z3.simplify(self.V.to_bool(cond))
        else:
            e = z3.BoolVal(bool(cond))
        self.runner.obligation(self, e, None, label, detail)

    def _tolreal(self, a):
        if isinstance(a, (self.V.SymNum, self.V.SymBool)):
            return self.V.to_real(a)
        return self.V.realval(a)

    def eq(self, a, b, label, tol=DEFAULT_TOL):
        self.nchecks += 1
        z3 = __import__("z3")
        if not (self.V.num_like(a) and self.V.num_like(b)):
            if isinstance(a, self.V.SymSeq) or isinstance(b, self.V.SymSeq):
                r = a == b if isinstance(a, self.V.SymSeq) else b == a
                e = r.e if isinstance(r, self.V.SymBool) else z3.BoolVal(bool(r) if r is not NotImplemented else False)
            else:
                e = z3.BoolVal(bool(a == b))
            self.runner.obligation(self, e, None, label, None)
            return
        if any(isinstance(v, float) and (v != v or v in (_math.inf, -_math.inf)) for v in (a, b)):
            self.runner.obligation(self, z3.BoolVal(a == b if not isinstance(a, self.V.SymNum) and not isinstance(b, self.V.SymNum) else False), None, label, None)
            return
        ea, eb = self._tolreal(a), self._tolreal(b)
        self.observed.append((label, ea, eb))
        exact = z3.simplify(ea == eb)
        if tol:
            t = self.V.realval(tol)
            def viol(f):
                tt = self.V.realval(tol * f)
                return z3.Or(ea - eb > tt, eb - ea > tt)
        else:
            viol = None
        self.runner.obligation(self, exact, viol, label, None)

    def le(self, a, b, label, tol=DEFAULT_TOL):
        """a <= b (up to tol)"""
        self.nchecks += 1
        z3 = __import__("z3")
        ea, eb = self._tolreal(a), self._tolreal(b)
        exact = z3.simplify(ea <= eb)
        viol = (lambda f: ea - eb > self.V.realval(tol * f)) if tol else None
        self.runner.obligation(self, exact, viol, label, None)

    # ---------------------------------------------------------------- text
    def text(self, v, spec="s"):
        return self.E.token(v, spec) if isinstance(v, self.V.SymNum) else str(v)

    def num(self, text):
        t = self.E.lookup(text)
        if t is not None:
            return t
        return float(text)

    def isnum(self, text):
        if self.E.lookup(text) is not None:
            return True
        try:
            float(text)
            return True
        except ValueError:
            return False

    # ---------------------------------------------------------------- helpers on values
    def ite(self, c, a, b):
        z3 = __import__("z3")
        if isinstance(c, self.V.SymBool):
            if all(isinstance(k, (int, self.V.SymInt)) and not isinstance(k, bool) for k in (a, b)):
                return self.V.mk_int(z3.If(c.e, self.V.to_int(a), self.V.to_int(b)))
            return self.V.SymReal(z3.If(c.e, self.V.to_real(a), self.V.to_real(b)))
        return a if c else b

    def min(self, *a):
        from .loader import BUILTINS
        return BUILTINS["min"](*a)

    def max(self, *a):
        from .loader import BUILTINS
        return BUILTINS["max"](*a)

    def any(self, cs):
        z3 = __import__("z3")
        return self.V.SymBool(z3.Or([self.V.to_bool(c) for c in cs] + [z3.BoolVal(False)]))

    def all(self, cs):
        z3 = __import__("z3")
        return self.V.SymBool(z3.And([self.V.to_bool(c) for c in cs] + [z3.BoolVal(True)]))

    def not_(self, c):
        z3 = __import__("z3")
        return self.V.SymBool(z3.Not(self.V.to_bool(c)))

    def implies(self, c, d):
        z3 = __import__("z3")
        return self.V.SymBool(z3.Implies(self.V.to_bool(c), self.V.to_bool(d)))

    def isint(self, v):
        return isinstance(v, (int, self.V.SymInt))

    def lnfacts(self, values):
        """make the logarithms of these numbers known to the solver"""
        for v in values:
            self.math.log(self.V.SymReal(self.V.realval(v)))

    def byteslike(self, vals):
        return self.V.SymBytes(vals)

    def to_float(self, v):
        return self.V.SymReal(self.V.to_real(v)) if isinstance(v, self.V.SymNum) else float(v)

    def BytesIO(self, data=b""):
        from .loader import SymBytesIO
        return SymBytesIO(data)

    def open_hook(self, fn):
        from . import loader
        loader.OPEN_HOOK[0] = fn

    def concretize(self, v):
        return self.E.concretize(v) if isinstance(v, self.V.SymNum) else (v.concretize() if isinstance(v, self.V.SymSeq) else v)


# ====================================================================== concrete
class ConCtx:
    symbolic = False
    math = _math

    def __init__(self, values, tier="quick", scale=0.5):
        self.values = values
        self.tier = tier
        self.scale = scale
        self.observed = []
        self.nchecks = 0
        self.failures = []
        self.files = []

    def _get(self, name, default):
        v = self.values.get(name, default)
        return v

    def real(self, name, lo=None, hi=None, nonzero=False):
        d = lo if lo is not None else hi if hi is not None else 1.0
        v = float(self._get(name, d))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        if nonzero and v == 0:
            raise Skip()
        return v

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, 0))

    def choice(self, name, options):
        return options[int(self._get(name, 0))]

    def bytes(self, name, n, lo=0, hi=255):
        return bytes([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)])

    def str(self, name, n, lo=32, hi=126):
        return "".join([chr(self.int("%s_%d" % (name, i), lo, hi)) for i in range(n)])

    def angle(self, name, lo=-180, hi=180, deg=True, segments=1):
        v = float(self._get(name, (lo + hi) / 2))
        if not lo < v < hi:
            raise Skip()
        return v

    def assume(self, cond):
        if not cond:
            raise Skip()

    def reject(self):
        raise Skip()

    def _fail(self, label, detail):
        self.failures.append((label, detail))

    def check(self, cond, label, detail=None):
        self.nchecks += 1
        if not cond:
            self._fail(label, str(detail) if detail is not None else "condition is false")

    def eq(self, a, b, label, tol=DEFAULT_TOL):
        self.nchecks += 1
        num = (int, float, Fraction)
        if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool):
            self.observed.append((label, float(a), float(b)))
            if not (abs(a - b) <= (tol or 0) * self.scale):
                self._fail(label, "%r != %r (tolerance %g)" % (a, b, (tol or 0) * self.scale))
        elif a != b:
            self._fail(label, "%r != %r" % (a, b))

    def le(self, a, b, label, tol=DEFAULT_TOL):
        self.nchecks += 1
        if not (a <= b + (tol or 0) * self.scale):
            self._fail(label, "%r > %r" % (a, b))

    def text(self, v, spec="s"):
        return repr(v) if isinstance(v, float) else str(v)

    def num(self, text):
        return float(text)

    def isnum(self, text):
        try:
            float(text)
            return True
        except ValueError:
            return False

    def ite(self, c, a, b):
        return a if c else b

    min = staticmethod(min)
    max = staticmethod(max)
    any = staticmethod(any)
    all = staticmethod(all)

    def not_(self, c):
        return not c

    def implies(self, c, d):
        return (not c) or bool(d)

    def isint(self, v):
        return isinstance(v, int)

    def lnfacts(self, values):
        pass

    def byteslike(self, vals):
        return bytes(vals)

    def to_float(self, v):
        return float(v)

    def BytesIO(self, data=b""):
        import io
        return io.BytesIO(data)

    def open_hook(self, fn):
        pass

    def concretize(self, v):
        return v


def wrap_sort_any(x):
    return x
