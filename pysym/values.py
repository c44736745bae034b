"""Symbolic values (proxies over z3 terms) used when the real PyX code is executed symbolically."""
import math as _math
import numbers
from fractions import Fraction
import z3

_builtin_float = float
_builtin_int = int
_builtin_min = min
_builtin_max = max
_builtin_str = str


class EngineLimit(BaseException):
    """the executed code left the fragment the engine can encode"""


class PathAbort(BaseException):
    """path abandoned (assumption false / infeasible)"""


class Stop(BaseException):
    """stop the exploration of this harness (a counterexample was found)"""


ENGINE = None  # the active engine


def eng():
    if ENGINE is None:
        raise EngineLimit("no active engine")
    return ENGINE


def frac(x):
    """exact (decimal) reading of a python number"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, _builtin_float):
        if x != x or x in (_math.inf, -_math.inf):
            raise EngineLimit("non-finite float constant")
        return Fraction(repr(_builtin_float(x)))
    raise EngineLimit("not a number: %r" % (x,))


_rv_cache = {}


def realval(x):
    f = frac(x)
    r = _rv_cache.get(f)
    if r is None:
        r = _rv_cache[f] = z3.Q(f.numerator, f.denominator)
    return r


def is_sym(x):
    return isinstance(x, SymNum)


def to_real(x):
    """z3 Real term for a python/sym number"""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    return realval(x)


def to_int(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    raise EngineLimit("not an int: %r" % (x,))


def _const_frac(e):
    """Fraction if the z3 term is a numeral"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def mk_real(e):
    return SymReal(e)


def mk_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _eager(v):
    return eng().concretize(v) if EAGER and isinstance(v, SymInt) else v


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, to_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, to_bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.e == to_bool(o))
        if isinstance(o, (int, SymInt)):
            return SymInt(to_int(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SymInt(to_int(self))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __neg__(self): return -self._i()
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))

    def __repr__(self):
        return "SymBool"


def to_bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymNum):
        return x.e != 0
    return z3.BoolVal(bool(x))


def num_like(o):
    return isinstance(o, (int, _builtin_float, Fraction, SymNum, SymBool)) and not isinstance(o, SymChar)


class SymNum:
    """base of symbolic numbers"""
    __slots__ = ("e",)

    def __hash__(self):
        # identity of value: concretise
        return hash(eng().concretize(self))

    def __bool__(self):
        return eng().branch(self.e != 0)

    # --- textual output: placeholder tokens -------------------------
    def __str__(self):
        return eng().token(self, "s")

    __repr__ = __str__

    def __format__(self, spec):
        return eng().token(self, spec or "s")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __pos__(self):
        return self


SIMPLIFY = False     # per harness: keep terms simplified
QUOTIENTS = False    # per harness: integer quotients are variables
DIGITS = False       # per harness: integers are written as symbolic digits
EAGER = False        # per harness: fork on the value of int() and the sign in abs()


class SymReal(SymNum):
    __slots__ = ()

    def __new__(cls, e):
        if SIMPLIFY:
            e = z3.simplify(e)
            if z3.is_rational_value(e):
                return float(e.as_fraction())
        self = object.__new__(cls)
        self.e = e
        return self

    def __init__(self, e):
        pass

    def _bin(self, o, f):
        if not num_like(o):
            return NotImplemented
        return SymReal(f(self.e, to_real(o)))

    def __add__(self, o):
        if not num_like(o):
            return NotImplemented
        if not isinstance(o, (SymNum, SymBool)) and o == 0:
            return self
        return SymReal(self.e + to_real(o))
    __radd__ = __add__

    def __sub__(self, o):
        if not num_like(o):
            return NotImplemented
        if not isinstance(o, (SymNum, SymBool)) and o == 0:
            return self
        return SymReal(self.e - to_real(o))

    def __rsub__(self, o):
        if not num_like(o):
            return NotImplemented
        return SymReal(to_real(o) - self.e)

    def __mul__(self, o):
        if not num_like(o):
            return NotImplemented
        if not isinstance(o, (SymNum, SymBool)):
            if o == 1:
                return self
            if o == 0:
                return 0.0
        return SymReal(self.e * to_real(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not num_like(o):
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        if not num_like(o):
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        if not num_like(o):
            return NotImplemented
        q = _div(self, o)
        return SymReal(z3.ToReal(z3.ToInt(to_real(q))))

    def __rfloordiv__(self, o):
        q = _div(o, self)
        return SymReal(z3.ToReal(z3.ToInt(to_real(q))))

    def __mod__(self, o):
        if not num_like(o):
            return NotImplemented
        q = self // o
        return self - q * o

    def __rmod__(self, o):
        if not num_like(o):
            return NotImplemented
        q = SymReal(to_real(o)) // self
        return o - q * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        q = SymReal(to_real(o)) // self
        return q, o - q * self

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        if EAGER:
            return self if eng().branch(self.e >= 0) else SymReal(-self.e)
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        return _pow(self, o)

    def __rpow__(self, o):
        return _rpow(self, o)

    def _cmp(self, o, f):
        if not num_like(o):
            if isinstance(o, _builtin_float):
                pass
            return NotImplemented
        if isinstance(o, _builtin_float) and o in (_math.inf, -_math.inf):
            return f(0.0, o)
        return SymBool(f(self.e, to_real(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not num_like(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not num_like(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = SymNum.__hash__

    def __float__(self):
        c = _const_frac(z3.simplify(self.e))
        if c is not None:
            return _builtin_float(c)
        raise EngineLimit("float() of a symbolic real through C")

    def __int__(self):
        return _builtin_int(eng().concretize(self.__trunc__()))

    def __trunc__(self):
        return _eager(mk_int(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))))

    def __floor__(self):
        return _eager(mk_int(z3.simplify(z3.ToInt(self.e))))

    def __ceil__(self):
        return _eager(mk_int(z3.simplify(-z3.ToInt(-self.e))))

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            r = z3.ToInt(self.e + z3.Q(1, 2))
            tie = z3.And(z3.ToReal(r) == self.e + z3.Q(1, 2), r % 2 != 0)
            res = z3.If(tie, r - 1, r)
            return mk_int(res) if nd is None else SymReal(z3.ToReal(res))
        s = 10 ** nd
        x = SymReal(self.e * realval(s))
        return SymReal(to_real(x.__round__()) / realval(s))

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0


class SymInt(SymNum):
    __slots__ = ()

    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def __init__(self, e):
        self.e = e

    def _ar(self, o, f, rev=False):
        if not num_like(o):
            return NotImplemented
        if isinstance(o, (int, SymInt, SymBool)):
            b = to_int(o)
            return mk_int(f(b, self.e) if rev else f(self.e, b))
        a = z3.ToReal(self.e)
        b = to_real(o)
        return SymReal(f(b, a) if rev else f(a, b))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymSeq)):
            return o * eng().concretize(self)
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not num_like(o):
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        if not num_like(o):
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        if not num_like(o):
            return NotImplemented
        if isinstance(o, (int, SymInt)):
            return _idivmod(self, o)[0]
        return SymReal(z3.ToReal(self.e)) // o

    def __rfloordiv__(self, o):
        if isinstance(o, (int, SymInt)):
            return _idivmod(o, self)[0]
        return SymReal(to_real(o)) // self

    def __mod__(self, o):
        if not num_like(o):
            return NotImplemented
        if isinstance(o, (int, SymInt)):
            return _idivmod(self, o)[1]
        return SymReal(z3.ToReal(self.e)) % o

    def __rmod__(self, o):
        if not num_like(o):
            return NotImplemented
        if isinstance(o, (int, SymInt)):
            return _idivmod(o, self)[1]
        return SymReal(to_real(o)) % self

    def __divmod__(self, o):
        if isinstance(o, (int, SymInt)):
            return _idivmod(self, o)
        return divmod(SymReal(z3.ToReal(self.e)), o)

    def __rdivmod__(self, o):
        if isinstance(o, (int, SymInt)):
            return _idivmod(o, self)
        return divmod(SymReal(to_real(o)), self)

    def __neg__(self):
        return mk_int(-self.e)

    def __abs__(self):
        return mk_int(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o, m=None):
        return _pow(self, o)

    def __rpow__(self, o):
        return _rpow(self, o)

    # bit operations (two's complement semantics of python ints)
    def __lshift__(self, k):
        k = eng().concretize(k) if is_sym(k) else k
        return self * (1 << k)

    def __rlshift__(self, o):
        return o << eng().concretize(self)

    def __rshift__(self, k):
        k = eng().concretize(k) if is_sym(k) else k
        return _idivmod(self, 1 << k)[0]

    def __rrshift__(self, o):
        return o >> eng().concretize(self)

    def __and__(self, o):
        if isinstance(o, SymInt):
            return _bitop(self, o, lambda a, b: a & b)
        if o == 0:
            return 0
        if o < 0:
            # x & o  with o = ~m  (m >= 0):  x - (x & m)
            return self - (self & (~o))
        # decompose the mask in runs of ones
        res = 0
        k = 0
        m = o
        while m:
            while not m & 1:
                m >>= 1
                k += 1
            n = 0
            while m & 1:
                m >>= 1
                n += 1
            part = (self >> k) % (1 << n)
            res = res + part * (1 << k)
            k += n
        return res
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymInt):
            # disjoint bits are the usual case
            return _bitop(self, o, lambda a, b: a | b)
        return self + o - (self & o)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymInt):
            return _bitop(self, o, lambda a, b: a ^ b)
        return self + o - 2 * (self & o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def _cmp(self, o, f):
        if not num_like(o):
            return NotImplemented
        if isinstance(o, (int, SymInt, SymBool)):
            return SymBool(f(self.e, to_int(o)))
        if isinstance(o, _builtin_float) and o in (_math.inf, -_math.inf):
            return f(0.0, o)
        return SymBool(f(z3.ToReal(self.e), to_real(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not num_like(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not num_like(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = SymNum.__hash__

    def __float__(self):
        c = _const_frac(z3.simplify(self.e))
        if c is not None:
            return _builtin_float(c)
        raise EngineLimit("float() of a symbolic int through C")

    def __int__(self):
        return eng().concretize(self)

    def __index__(self):
        return eng().concretize(self)

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        raise EngineLimit("round(int, -n)")

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def imag(self):
        return 0

    def bit_length(self):
        return eng().concretize(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        v = self
        if signed:
            if SymInt.__lt__(v, 0):
                v = v + (1 << (8 * length))
        if (v < 0) | (v >= (1 << (8 * length))) if isinstance(v, SymInt) else not 0 <= v < (1 << 8*length):
            raise OverflowError("int too big to convert")
        bs = [(v >> (8 * k)) % 256 for k in range(length)]
        if byteorder == "big":
            bs = bs[::-1]
        return SymBytes(bs)


def _bitop(a, b, f):
    w = 64
    for x in (a, b):
        if isinstance(x, SymInt):
            eng().require_range(x, 0, (1 << 32) - 1)
        elif not 0 <= x < (1 << 32):
            raise EngineLimit("bit operation out of range")
    w = 32
    r = z3.BV2Int(f(z3.Int2BV(to_int(a), w), z3.Int2BV(to_int(b), w)))
    return mk_int(r)


def quotient(e, b):
    """quotient and remainder as new variables"""
    if z3.is_int_value(e):
        return divmod(e.as_long(), b)
    g = eng()
    key = (e.get_id(), b)
    r = g.quotients.get(key)
    if r is None:
        q, m = g.fresh("q", "int"), g.fresh("r", "int")
        g.axiom(e == b * q + m)
        g.axiom(z3.And(m >= 0, m < b))
        r = g.quotients[key] = (mk_int(q), mk_int(m), e)
    return r[0], r[1]


def _idivmod(a, b):
    """floor divmod of ints"""
    if isinstance(b, int) and not isinstance(b, bool):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        ea = to_int(a)
        if b > 0:
            if b == 1:
                return a, 0
            if QUOTIENTS:
                return quotient(z3.simplify(ea), b)
            return mk_int(ea / z3.IntVal(b)), mk_int(ea % z3.IntVal(b))
        # b < 0: floor(a/b) = floor(-a/-b);  a mod b = -((-a) mod (-b))
        na = -ea
        return mk_int(na / z3.IntVal(-b)), mk_int(-(na % z3.IntVal(-b)))
    eb = to_int(b)
    if eng().branch(eb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    ea = to_int(a)
    if eng().branch(eb > 0):
        return mk_int(ea / eb), mk_int(ea % eb)
    return mk_int((-ea) / (-eb)), mk_int(-((-ea) % (-eb)))


def _div(a, b):
    if not is_sym(b):
        if b == 0:
            raise ZeroDivisionError("float division by zero")
        f = frac(b)
        return SymReal(to_real(a) * z3.Q(f.denominator, f.numerator) if f.numerator > 0 else to_real(a) * z3.Q(-f.denominator, -f.numerator))
    eb = to_real(b)
    if eng().branch(eb == 0):
        raise ZeroDivisionError("float division by zero")
    if not is_sym(a) and a == 0:
        return 0.0
    return SymReal(to_real(a) / eb)


def _pow(a, o):
    if isinstance(o, SymInt):
        o = eng().concretize(o)
    if isinstance(o, SymReal):
        raise EngineLimit("symbolic exponent")
    if isinstance(o, _builtin_float) and o == int(o):
        r = _pow(a, int(o))
        return SymReal(to_real(r)) if is_sym(r) else _builtin_float(r)
    if isinstance(o, int):
        if o == 0:
            return 1 if isinstance(a, SymInt) else 1.0
        if o < 0:
            return _div(1.0, _pow(a, -o))
        r = a
        for i in range(o - 1):
            r = r * a
        return r
    if o == 0.5:
        from . import symmath
        return symmath.sqrt(a)
    if o == -0.5:
        from . import symmath
        return _div(1.0, symmath.sqrt(a))
    from . import symmath
    return symmath.realpow(a, o)


def _rpow(a, base):
    """base ** a  with symbolic a"""
    if isinstance(a, SymInt):
        return base ** eng().concretize(a)
    from . import symmath
    return symmath.constpow(base, a)


# ---------------------------------------------------------------------------
# sequences of symbolic bytes / characters

class SymSeq:
    __slots__ = ("v",)

    def __init__(self, v=()):
        self.v = tuple(v)

    def __len__(self):
        return len(self.v)

    def __bool__(self):
        return bool(self.v)

    def _coerce(self, o):
        raise NotImplementedError

    def _new(self, v):
        v = tuple(v)
        if all(isinstance(x, int) for x in v):
            return self._concrete(v)
        return type(self)(v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[eng().concretize(x) if is_sym(x) else x for x in (i.start, i.stop, i.step)])
            return self._new(self.v[i])
        if is_sym(i):
            i = eng().concretize(i)
        return self._item(self.v[i])

    def __iter__(self):
        for x in self.v:
            yield self._item(x)

    def __add__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return self._new(self.v + c)

    def __radd__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return self._new(c + self.v)

    def __mul__(self, n):
        if is_sym(n):
            n = eng().concretize(n)
        return self._new(self.v * n)
    __rmul__ = __mul__

    def _eqs(self, v):
        return z3.And([to_int(a) == to_int(b) for a, b in zip(self.v, v)] + [z3.BoolVal(True)])

    def __eq__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        if len(c) != len(self.v):
            return False
        return SymBool(self._eqs(c))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o): return self._lex(o, True)
    def __gt__(self, o): return self._lex(o, False)

    def _lex(self, o, less):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        for a, b in zip(self.v, c):
            if eng().branch(to_int(a) == to_int(b)):
                continue
            r = to_int(a) < to_int(b)
            return SymBool(r if less else z3.Not(r))
        return len(self.v) < len(c) if less else len(self.v) > len(c)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        return self._concrete([eng().concretize(x) if is_sym(x) else x for x in self.v])

    def __contains__(self, o):
        c = self._coerce(o)
        if c is None:
            return any(bool(x == o) for x in self)
        return self.find(o) >= 0

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        c = self._coerce(p)
        if len(c) > len(self.v):
            return False
        return bool(SymBool(type(self)(self.v[:len(c)])._eqs(c)))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        c = self._coerce(p)
        if len(c) > len(self.v):
            return False
        if not c:
            return True
        return bool(SymBool(type(self)(self.v[-len(c):])._eqs(c)))

    def _at(self, i, c):
        return eng().branch(z3.And([to_int(a) == to_int(b) for a, b in zip(self.v[i:i+len(c)], c)] + [z3.BoolVal(True)]))

    def find(self, p, start=0, end=None):
        if isinstance(p, (int, SymInt)):
            c = (p,)
        else:
            c = self._coerce(p)
        n = len(self.v) if end is None else min(end, len(self.v))
        for i in range(start, n - len(c) + 1):
            if self._at(i, c):
                return i
        return -1

    def rfind(self, p, start=0, end=None):
        c = (p,) if isinstance(p, (int, SymInt)) else self._coerce(p)
        n = len(self.v) if end is None else min(end, len(self.v))
        for i in range(n - len(c), start - 1, -1):
            if self._at(i, c):
                return i
        return -1

    def index(self, p, start=0, end=None):
        r = self.find(p, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, p):
        c = self._coerce(p)
        n = i = 0
        while i <= len(self.v) - len(c):
            if self._at(i, c):
                n += 1
                i += len(c)
            else:
                i += 1
        return n

    def replace(self, p, q, cnt=-1):
        c = self._coerce(p)
        d = self._coerce(q)
        out = ()
        i = 0
        while i < len(self.v):
            if cnt != 0 and i + len(c) <= len(self.v) and self._at(i, c):
                out += d
                i += len(c)
                cnt -= 1
            else:
                out += (self.v[i],)
                i += 1
        return self._new(out)

    def split(self, sep=None, maxsplit=-1):
        res = []
        cur = ()
        if sep is not None:
            c = self._coerce(sep)
            i = 0
            while i < len(self.v):
                if maxsplit != 0 and i + len(c) <= len(self.v) and self._at(i, c):
                    res.append(self._new(cur)); cur = (); i += len(c); maxsplit -= 1
                else:
                    cur += (self.v[i],); i += 1
            res.append(self._new(cur))
            return res
        i = 0
        while i < len(self.v):
            if self._isspace(self.v[i]):
                if cur:
                    res.append(self._new(cur)); cur = ()
                    maxsplit -= 1
                i += 1
                continue
            if maxsplit == 0 and not cur:
                rest = list(self.v[i:])
                while rest and self._isspace(rest[-1]):
                    rest.pop()
                res.append(self._new(rest))
                return res
            cur += (self.v[i],); i += 1
        if cur:
            res.append(self._new(cur))
        return res

    def _inset(self, x, codes):
        if isinstance(x, int):
            return x in codes
        return eng().branch(z3.Or([x.e == k for k in codes]))

    def _isspace(self, x):
        return self._inset(x, (9, 10, 11, 12, 13, 32))

    def _strip(self, chars, l, r):
        codes = (9, 10, 11, 12, 13, 32) if chars is None else tuple(self._coerce(chars))
        v = list(self.v)
        if l:
            while v and self._inset(v[0], codes):
                v.pop(0)
        if r:
            while v and self._inset(v[-1], codes):
                v.pop()
        return self._new(v)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def isdigit(self):
        return bool(self.v) and all(bool(SymBool(z3.And(to_int(x) >= 48, to_int(x) <= 57))) for x in self.v)

    def lower(self):
        return self._new([z3lower(x) for x in self.v])

    def upper(self):
        return self._new([z3upper(x) for x in self.v])


def z3lower(x):
    if isinstance(x, int):
        return ord(chr(x).lower()) if x < 128 else x
    return SymInt(z3.If(z3.And(x.e >= 65, x.e <= 90), x.e + 32, x.e))


def z3upper(x):
    if isinstance(x, int):
        return ord(chr(x).upper()) if x < 128 else x
    return SymInt(z3.If(z3.And(x.e >= 97, x.e <= 122), x.e - 32, x.e))


class SymBytes(SymSeq):
    """bytes with symbolic elements (0..255) and concrete length"""
    __slots__ = ()

    def _coerce(self, o):
        if isinstance(o, SymBytes):
            return o.v
        if isinstance(o, (bytes, bytearray)):
            return tuple(o)
        return None

    def _concrete(self, v):
        return bytes(v)

    def _item(self, x):
        return x

    def decode(self, encoding="utf-8", errors="strict"):
        for x in self.v:
            if isinstance(x, SymInt):
                eng().require_or_limit(z3.And(x.e >= 0, x.e < (256 if encoding in ("latin1", "latin-1", "iso-8859-1") else 128)), "non-ascii decode")
        return SymStr(self.v) if not all(isinstance(x, int) for x in self.v) else "".join(map(chr, self.v))

    def tobytes(self):
        return self

    def hex(self):
        raise EngineLimit("hex")


class SymChar(SymSeq):
    pass


class SymStr(SymChar):
    """str with symbolic code points and concrete length"""
    __slots__ = ()

    def _coerce(self, o):
        if isinstance(o, SymStr):
            return o.v
        if isinstance(o, _builtin_str):
            return tuple(map(ord, o))
        return None

    def _concrete(self, v):
        return "".join(map(chr, v))

    def _item(self, x):
        return chr(x) if isinstance(x, int) else SymStr((x,))

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") == "utf-16-be":
            out = []
            for x in self.v:
                if isinstance(x, int):
                    out += chr(x).encode(encoding)
                    continue
                if eng().branch(z3.And(x.e >= 0xd800, x.e < 0xe000)):
                    raise UnicodeEncodeError(encoding, "?", 0, 1, "surrogates not allowed")
                if eng().branch(x.e < 0x10000):
                    words = [x]
                else:
                    hi, lo = _idivmod(x - 0x10000, 1024)
                    words = [hi + 0xd800, lo + 0xdc00]
                for w in words:
                    out += list(_idivmod(w, 256))
            return SymBytes(out)._new(out)
        lim = 256 if encoding in ("latin1", "latin-1", "iso-8859-1") else 128
        v = list(self.v)
        for i, x in enumerate(v):
            if isinstance(x, SymInt):
                if not eng().branch(z3.And(x.e >= 0, x.e < lim)):
                    if lim == 128 and encoding.startswith("utf"):
                        raise EngineLimit("non-ascii utf8")
                    if errors == "replace":
                        v[i] = 63
                        continue
                    raise UnicodeEncodeError(encoding, "?", 0, 1, "symbolic")
            else:
                b = chr(x).encode(encoding, errors)
                if len(b) != 1:
                    raise EngineLimit("multi byte encoding")
                v[i] = b[0]
        return SymBytes(v)

    def __str__(self):
        raise EngineLimit("str() of symbolic string through C")

    __repr__ = __str__

    def __format__(self, spec):
        raise EngineLimit("format of symbolic string")


numbers.Number.register(SymReal)
numbers.Number.register(SymInt)
numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)
