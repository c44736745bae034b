"""symbolic stand-in for the math module.

sqrt/hypot are exact (fresh non-negative root), sin/cos/tan of declared angles are exact algebraic
(a pair (c, s) with c^2+s^2 = 1 per angle atom, addition formulas), atan2/acos/asin return angle atoms
tied to their defining equations, log/exp are uninterpreted with instantiated monotonicity axioms."""
import math as _m
from fractions import Fraction
import z3
from . import values as V
from .values import SymNum, SymReal, SymInt, SymBool, EngineLimit, to_real, realval, frac, eng, _const_frac

pi = _m.pi
e = _m.e
inf = _m.inf
nan = _m.nan
tau = _m.tau
PI = frac(_m.pi)


def _sym(*a):
    return any(isinstance(x, (SymNum, SymBool)) for x in a)


def _unary(name):
    real = getattr(_m, name)

    def f(x):
        if _sym(x):
            raise EngineLimit("math.%s of a symbolic value" % name)
        return real(x)
    f.__name__ = name
    return f


for _n in ("asinh", "acosh", "atanh", "sinh", "cosh", "tanh", "gamma", "erf", "factorial"):
    globals()[_n] = _unary(_n)

gcd = _m.gcd
isclose = _m.isclose


def isnan(x):
    return False if _sym(x) else _m.isnan(x)


def isinf(x):
    return False if _sym(x) else _m.isinf(x)


def isfinite(x):
    return True if _sym(x) else _m.isfinite(x)


def _is_square(f):
    n = _m.isqrt(f.numerator)
    d = _m.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


def _poly2(ex):
    """coefficients {(): c, (i,): c, (i, j): c} and atoms of a polynomial of degree <= 2, or None"""
    ex = z3.simplify(ex, som=True, expand_power=True)
    atoms, index, out = [], {}, {}

    def atom(e):
        i = e.get_id()
        if i not in index:
            if len(atoms) >= 6:
                raise ValueError
            index[i] = len(atoms)
            atoms.append(e)
        return index[i]
    try:
        for m in (ex.children() if z3.is_add(ex) else [ex]):
            c, vs = Fraction(1), []
            for f in (m.children() if z3.is_mul(m) else [m]):
                k = _const_frac(f)
                if k is not None:
                    c *= k
                elif f.decl().kind() == z3.Z3_OP_POWER:
                    n = _const_frac(f.children()[1])
                    if n != 2:
                        return None
                    vs += [atom(f.children()[0])] * 2
                elif z3.is_add(f) or z3.is_mul(f):
                    return None
                else:
                    vs.append(atom(f))
            if len(vs) > 2:
                return None
            key = tuple(sorted(vs))
            out[key] = out.get(key, 0) + c
    except ValueError:
        return None
    return out, atoms


def _fsqrt(c):
    n, d = _m.isqrt(c.numerator), _m.isqrt(c.denominator)
    return Fraction(n, d) if c >= 0 and n * n == c.numerator and d * d == c.denominator else None


def _square_root(p):
    """a linear term t with t*t equal to the polynomial, or None"""
    if p is None:
        return None
    co, atoms = p
    n = len(atoms)
    lin = [None] * n
    pivot = None
    for i in range(n):
        c = co.get((i, i), 0)
        if c:
            if pivot is None:
                r = _fsqrt(Fraction(c))
                if r is None:
                    return None
                pivot = i
                lin[i] = r
    if pivot is None:
        return None
    for i in range(n):
        if i != pivot:
            lin[i] = Fraction(co.get(tuple(sorted((i, pivot))), 0)) / (2 * lin[pivot])
    c0 = Fraction(co.get((pivot,), 0)) / (2 * lin[pivot])
    want = {(): c0 * c0}
    for i in range(n):
        want[(i,)] = 2 * c0 * lin[i]
        for j in range(i, n):
            want[(i, j)] = lin[i] * lin[j] * (1 if i == j else 2)
    for k in set(want) | set(co):
        if want.get(k, 0) != co.get(k, 0):
            return None
    t = z3.RealVal(c0)
    for i in range(n):
        if lin[i]:
            a = atoms[i]
            t = t + z3.RealVal(lin[i]) * (z3.ToReal(a) if a.is_int() else a)
    return z3.simplify(t)


def sqrt(x):
    if not _sym(x):
        return _m.sqrt(x)
    E = eng()
    ex = z3.simplify(to_real(x))
    c = _const_frac(ex)
    if c is not None:
        if c < 0:
            raise ValueError("math domain error")
        return _m.sqrt(c)
    if E.branch(ex < 0):
        raise ValueError("math domain error")
    poly = _poly2(ex)
    if poly is None:
        key = ("sqrt", ex.get_id())
    else:
        # a normal form, such that equal squares share their root
        ids = [a.get_id() for a in poly[1]]
        key = ("sqrt", tuple(sorted((tuple(sorted(ids[i] for i in k)), str(c)) for k, c in poly[0].items() if c)))
    r = E.memo.get(key)
    if r is None:
        lin = _square_root(poly)
        if lin is not None:
            # sqrt(t*t) = |t|
            r = SymReal(lin) if E.branch(lin >= 0) else SymReal(-lin)
            return r
        v = E.fresh("sqrt")
        E.axiom(z3.And(v >= 0, v * v == ex))
        r = E.memo[key] = (SymReal(v), ex, poly)
    return r[0]


def hypot(*a):
    if not _sym(*a):
        return _m.hypot(*a)
    s = 0
    for x in a:
        s = s + x * x
    return sqrt(s)


def dist(p, q):
    return hypot(*[a - b for a, b in zip(p, q)])


def fabs(x):
    return abs(x) if _sym(x) else _m.fabs(x)


def floor(x):
    return x.__floor__() if _sym(x) else _m.floor(x)


def ceil(x):
    return x.__ceil__() if _sym(x) else _m.ceil(x)


def trunc(x):
    return x.__trunc__() if _sym(x) else _m.trunc(x)


def modf(x):
    if not _sym(x):
        return _m.modf(x)
    t = SymReal(to_real(x.__trunc__()))
    return x - t, t


def fmod(x, y):
    if not _sym(x, y):
        return _m.fmod(x, y)
    q = V._div(x, y)
    t = SymReal(to_real(q)).__trunc__()
    return x - t * y


def copysign(x, y):
    if not _sym(x, y):
        return _m.copysign(x, y)
    return abs(x) if y >= 0 else -abs(x)


def pow(x, y):
    return x ** y if _sym(x, y) else _m.pow(x, y)


def degrees(x):
    return x * (180 / _m.pi) if _sym(x) else _m.degrees(x)


def radians(x):
    return x * (_m.pi / 180) if _sym(x) else _m.radians(x)


# ------------------------------------------------------------------ angles
class SymAngle(SymReal):
    """a real number which is  sum(k_i * atom_i) + const  where atom_i are angle values; k_i are given
    relative to the unit of the atoms (unit: the value of one radian, i.e. 1 or 180/pi)"""
    __slots__ = ("lin", "c0")

    def __new__(cls, e, lin, c0):
        return object.__new__(cls)

    def __init__(self, e, lin, c0):
        self.e = e
        self.lin = lin      # dict name -> Fraction (coefficient such that  radians = sum lin*atom_rad + c0, times scale)
        self.c0 = c0        # Fraction

    def _mk(self, e, lin, c0):
        lin = {k: v for k, v in lin.items() if v != 0}
        return SymAngle(e, lin, c0)

    def __add__(self, o):
        if isinstance(o, SymAngle):
            lin = dict(self.lin)
            for k, v in o.lin.items():
                lin[k] = lin.get(k, 0) + v
            return self._mk(self.e + o.e, lin, self.c0 + o.c0)
        if isinstance(o, (int, float, Fraction)):
            return self._mk(self.e + realval(o), self.lin, self.c0 + frac(o))
        return SymReal.__add__(self, o)
    __radd__ = __add__

    def __neg__(self):
        return self._mk(-self.e, {k: -v for k, v in self.lin.items()}, -self.c0)

    def __sub__(self, o):
        if isinstance(o, (SymAngle, int, float, Fraction)):
            return self + (-o)
        return SymReal.__sub__(self, o)

    def __rsub__(self, o):
        if isinstance(o, (SymAngle, int, float, Fraction)):
            return (-self) + o
        return SymReal.__rsub__(self, o)

    def __mul__(self, o):
        if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
            f = frac(o)
            return self._mk(self.e * realval(o), {k: v * f for k, v in self.lin.items()}, self.c0 * f)
        return SymReal.__mul__(self, o)
    __rmul__ = __mul__

    # the number of turns etc. is made explicit (one path for each), to keep the angles linear
    def __floor__(self):
        return eng().concretize(SymReal.__floor__(self))

    def __trunc__(self):
        return eng().concretize(SymReal.__trunc__(self))

    def __ceil__(self):
        return eng().concretize(SymReal.__ceil__(self))

    def __truediv__(self, o):
        if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool) and o != 0:
            f = frac(o)
            return self._mk(self.e / realval(o), {k: v / f for k, v in self.lin.items()}, self.c0 / f)
        return SymReal.__truediv__(self, o)


def angle_atom(name, value, unit_rad=Fraction(1), c=None, s=None, quadrants=True):
    """declare an angle: value is its z3 term, unit_rad the number of radians per unit of value"""
    E = eng()
    if c is None:
        c = z3.Real("cos(%s)" % name)
        s = z3.Real("sin(%s)" % name)
        E.axiom(c * c + s * s == 1)
    E.angles[name] = (c, s, value, unit_rad)
    # half and third atoms share a unit: lin coefficient is in radians per atom-radian
    return SymAngle(value, {name: Fraction(1) / unit_rad}, Fraction(0))


def _snap(c):
    for k in (0, 1, -1):
        if abs(c - k) < 1e-12:
            return Fraction(k)
    if abs(c - 0.5) < 1e-12:
        return Fraction(1, 2)
    if abs(c + 0.5) < 1e-12:
        return Fraction(-1, 2)
    return frac(c)


def _cs(x):
    """(cos, sin) as z3 terms of a symbolic x (radians)"""
    E = eng()
    if isinstance(x, SymAngle):
        cc, ss = realval(_snap(_m.cos(x.c0))), realval(_snap(_m.sin(x.c0)))
        ok = True
        parts = []
        for name in sorted(x.lin):
            c, s, value, unit = E.angles[name]
            k = x.lin[name]      # radians per atom value unit, relative: k*value[unit] = radians
            kk = k                # lin is normalised to 1/unit_rad for "value" itself
            # value (in units) = angle_rad / unit_rad ; x = lin * angle_rad_in_units...
            q = float(kk)
            n = round(q)
            if abs(q - n) > 1e-9 or abs(n) > 8:
                # try a half angle
                n2 = round(2 * q)
                if abs(2 * q - n2) < 1e-9 and abs(n2) <= 8:
                    hc, hs = _half(name)
                    parts.append((hc, hs, n2))
                    continue
                ok = False
                break
            parts.append((c, s, n))
        if ok:
            for c, s, n in parts:
                if n < 0:
                    s, n = -s, -n
                for _ in range(n):
                    cc, ss = z3.simplify(cc * c - ss * s), z3.simplify(ss * c + cc * s)
            return cc, ss
    ex = z3.simplify(to_real(x))
    cf = _const_frac(ex)
    if cf is not None:
        return realval(_snap(_m.cos(cf))), realval(_snap(_m.sin(cf)))
    key = ("cs", ex.get_id())
    r = E.memo.get(key)
    if r is None:
        c, s = E.fresh("cosf"), E.fresh("sinf")
        E.axiom(c * c + s * s == 1)
        E.axiom(z3.And(c >= -1, c <= 1, s >= -1, s <= 1))
        r = E.memo[key] = (c, s, ex)
    return r[0], r[1]


def _half(name):
    """half-angle atom of an angle in (-pi, pi]  (cos(a/2) >= 0) or of a declared one"""
    E = eng()
    key = ("half", name)
    r = E.memo.get(key)
    if r is None:
        c, s, value, unit = E.angles[name]
        hc, hs = E.fresh("hcos"), E.fresh("hsin")
        E.axiom(z3.And(hc * hc + hs * hs == 1, c == hc * hc - hs * hs, s == 2 * hc * hs))
        rad = value * realval(unit)
        E.axiom(z3.Implies(z3.And(rad > -realval(PI), rad < realval(PI)), hc >= 0))
        E.axiom(z3.Implies(z3.And(rad >= 0, rad < realval(2 * PI)), hs >= 0))
        r = E.memo[key] = (hc, hs)
    return r


def cos(x):
    if not _sym(x):
        return _m.cos(x)
    return SymReal(_cs(x)[0])


def sin(x):
    if not _sym(x):
        return _m.sin(x)
    return SymReal(_cs(x)[1])


def tan(x):
    if not _sym(x):
        return _m.tan(x)
    c, s = _cs(x)
    return V._div(SymReal(s), SymReal(c))


def _new_angle(base, c, s, value):
    E = eng()
    n = E.counter.get(base, 0)
    E.counter[base] = n + 1
    name = "%s#%d" % (base, n)
    return angle_atom(name, value, Fraction(1), c, s)


def atan2(y, x):
    if not _sym(x, y):
        return _m.atan2(y, x)
    E = eng()
    ey, ex = z3.simplify(to_real(y)), z3.simplify(to_real(x))
    cy, cx = _const_frac(ey), _const_frac(ex)
    if cy is not None and cx is not None:
        return _m.atan2(cy, cx)
    key = ("atan2", ey.get_id(), ex.get_id())
    r = E.memo.get(key)
    if r is not None:
        return r[0]
    if E.branch(z3.And(ex == 0, ey == 0)):
        return 0.0
    c, s, v, h = E.fresh("atc"), E.fresh("ats"), E.fresh("atv"), E.fresh("ath")
    P = realval(PI)
    H = realval(PI / 2)
    E.axiom(z3.And(c * c + s * s == 1, h > 0, h * h == ex * ex + ey * ey, ex == h * c, ey == h * s))
    E.axiom(z3.And(v > -P - realval(Fraction(1, 10**12)), v <= P))
    E.axiom(z3.And((ey > 0) == z3.And(v > 0, v < P), z3.Implies(z3.And(ey == 0, ex > 0), v == 0),
                   z3.Implies(z3.And(ey == 0, ex < 0), v == P), (ex > 0) == z3.And(v > -H, v < H),
                   z3.Implies(z3.And(ex == 0, ey > 0), v == H), z3.Implies(z3.And(ex == 0, ey < 0), v == -H)))
    # |v| against sin: small angle envelope  (2/pi)|v| <= |sin v| <= |v| on [-pi/2, pi/2]
    r = _new_angle("at", c, s, v)
    E.memo[key] = (r, ey, ex)
    return r


def atan(x):
    if not _sym(x):
        return _m.atan(x)
    return atan2(x, 1.0)


def acos(x):
    if not _sym(x):
        return _m.acos(x)
    E = eng()
    ex = z3.simplify(to_real(x))
    cf = _const_frac(ex)
    if cf is not None:
        return _m.acos(float(cf))
    if E.branch(z3.Or(ex > 1, ex < -1)):
        raise ValueError("math domain error")
    s, v = E.fresh("acs"), E.fresh("acv")
    P = realval(PI)
    E.axiom(z3.And(s >= 0, s * s + ex * ex == 1, v >= 0, v <= P,
                   (ex > 0) == (v < P / 2), (ex < 0) == (v > P / 2), (ex == 1) == (v == 0), (ex == -1) == (v == P)))
    return _new_angle("ac", ex, s, v)


def asin(x):
    if not _sym(x):
        return _m.asin(x)
    E = eng()
    ex = z3.simplify(to_real(x))
    cf = _const_frac(ex)
    if cf is not None:
        return _m.asin(float(cf))
    if E.branch(z3.Or(ex > 1, ex < -1)):
        raise ValueError("math domain error")
    c, v = E.fresh("asc"), E.fresh("asv")
    P = realval(PI)
    E.axiom(z3.And(c >= 0, c * c + ex * ex == 1, v >= -P / 2, v <= P / 2,
                   (ex > 0) == (v > 0), (ex < 0) == (v < 0)))
    return _new_angle("as", c, ex, v)


# ------------------------------------------------------------------ log / exp : uninterpreted, strictly monotone
_LOG = z3.Function("ln", z3.RealSort(), z3.RealSort())
_EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())


def _log_term(ex):
    E = eng()
    terms = E.memo.setdefault("logterms", [])
    t = _LOG(ex)
    if any(z3.eq(ex, o) for o in terms):
        return t
    cf = _const_frac(ex)
    if cf is not None and cf > 0:
        E.axiom(t == realval(_m.log(cf)))
    else:
        E.axiom(z3.And((ex > 1) == (t > 0), (ex == 1) == (t == 0)))
    for o in terms:
        if cf is None or _const_frac(o) is None:
            E.axiom(z3.And((ex < o) == (t < _LOG(o)), (ex == o) == (t == _LOG(o))))
    terms.append(ex)
    return t


def log(x, base=None):
    if not _sym(x, base if base is not None else 0):
        return _m.log(x) if base is None else _m.log(x, base)
    if base is not None:
        return log(x) / log(base)
    E = eng()
    ex = z3.simplify(to_real(x))
    # logarithm of a multiple of an exponential
    k, t = realval(1), ex
    if z3.is_mul(ex) and ex.num_args() == 2 and _const_frac(ex.children()[0]) is not None:
        k, t = ex.children()
    if z3.is_app(t) and t.decl().name() == "exp" and t.num_args() == 1 and _const_frac(k) > 0:
        return SymReal(t.children()[0]) + (_m.log(_const_frac(k)) if _const_frac(k) != 1 else 0)
    if E.branch(ex <= 0):
        raise ValueError("math domain error")
    # exp(ln) inverse
    for u, t in E.memo.get("expterms", []):
        if z3.eq(t, ex):
            return SymReal(u)
    return SymReal(_log_term(ex))


def log10(x):
    if not _sym(x):
        return _m.log10(x)
    return log(x) / _m.log(10)


def log2(x):
    if not _sym(x):
        return _m.log2(x)
    return log(x) / _m.log(2)


def exp(x):
    if not _sym(x):
        return _m.exp(x)
    E = eng()
    ex = z3.simplify(to_real(x))
    if ex.decl().name() == "ln" and ex.num_args() == 1:
        return SymReal(ex.children()[0])
    t = _EXP(ex)
    terms = E.memo.setdefault("expterms", [])
    if not any(z3.eq(ex, u) for u, _ in terms):
        E.axiom(z3.And(t > 0, (ex > 0) == (t > 1), (ex == 0) == (t == 1)))
        for u, tu in terms:
            E.axiom(z3.And((ex < u) == (t < tu), (ex == u) == (t == tu)))
        # relation with logarithm terms:  t < y  <=>  ex < ln(y)
        for y in E.memo.get("logterms", []):
            E.axiom(z3.And((t < y) == (ex < _LOG(y)), (t == y) == (ex == _LOG(y))))
        terms.append((ex, t))
    return SymReal(t)


def realpow(a, o):
    """a ** o for a symbolic a and a non-integer constant o"""
    f = frac(o)
    if f.denominator <= 6 and abs(f.numerator) <= 6:
        E = eng()
        ex = z3.simplify(to_real(a))
        if E.branch(ex < 0):
            raise EngineLimit("fractional power of a negative number")
        key = ("root", ex.get_id(), f.denominator)
        r = E.memo.get(key)
        if r is None:
            v = E.fresh("root")
            p = v
            for _ in range(f.denominator - 1):
                p = p * v
            E.axiom(z3.And(v >= 0, p == ex))
            r = E.memo[key] = (SymReal(v), ex)
        return r[0] ** f.numerator
    # approximate thirds (1.0/3)
    for d in (3, 5, 6, 7):
        n = round(float(f) * d)
        if abs(float(f) * d - n) < 1e-12:
            return realpow(a, Fraction(n, d)) if d <= 6 else _lim()
    _lim()


def _lim():
    raise EngineLimit("non-integer power")


def constpow(base, a):
    if base == 10 or base == 10.0:
        return exp(a * _m.log(10))
    if base > 0:
        return exp(a * _m.log(base))
    raise EngineLimit("power")
