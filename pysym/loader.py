"""Loads the pyx package from /repo's current sources in an instrumented form: identical code, in which
the number/bytes/str primitives accept symbolic values.

The rewriting is purely mechanical (applied to every module, independent of what the code looks like):
  a % b        -> _ps_.mod(a, b)         (text formatting of symbolic numbers)
  a in b       -> _ps_.contains(b, a)
  s.join(x)    -> _ps_.join(s, x)
and the builtins/standard modules float, int, min, max, math, struct, array, io, ... are replaced by
versions which also accept symbolic values."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import io as _io
import os
import re as _re
import struct as _struct
import array as _array
import binascii as _binascii
import hashlib as _hashlib
import zlib as _zlib
import sys
import types
import fractions as _fractions
from fractions import Fraction
_Fraction = Fraction
import z3
from . import values as V
from . import symmath
from .values import (SymNum, SymReal, SymInt, SymBool, SymSeq, SymBytes, SymStr, EngineLimit, eng,
                     to_real, to_int, mk_int, frac)

REPO = os.environ.get("PYX_REPO", "/repo")

# ------------------------------------------------------------------ formatting
_spec = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])")


def _has_sym(a):
    if isinstance(a, (SymNum, SymSeq, SymBool)):
        return True
    if isinstance(a, tuple):
        return any(isinstance(x, (SymNum, SymSeq, SymBool)) for x in a)
    if isinstance(a, dict):
        return any(isinstance(x, (SymNum, SymSeq, SymBool)) for x in a.values())
    return False


def mod(a, b):
    if isinstance(a, str):
        if not _has_sym(b):
            return a % b
        args = b if isinstance(b, (tuple, dict)) else (b,)
        out = []
        pos = 0
        i = 0
        for m in _spec.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group("conv") == "%":
                out.append("%")
                continue
            if m.group("key") is not None:
                x = args[m.group("key")]
            else:
                if i >= len(args):
                    raise TypeError("not enough arguments for format string")
                x = args[i]
                i += 1
            spec = m.group(0)[1:]
            if m.group("key") is not None:
                spec = spec.replace("(%s)" % m.group("key"), "")
            conv = m.group("conv")
            if isinstance(x, SymBool):
                x = bool(x)
            if isinstance(x, SymNum):
                if conv == "c":
                    out.append(SymStr([x]))
                elif conv in "oxX":
                    out.append(_fmt_base(x, {"o": 8, "x": 16, "X": 16}[conv], conv == "X", m.group("width") or "", m.group("flags") or ""))
                elif V.DIGITS and isinstance(x, SymInt) and conv in "diusr":
                    out.append(_fmt_base(x, 10, False, m.group("width") or "", m.group("flags") or ""))
                elif conv in "diu":
                    out.append(eng().token(x, "d"))
                else:
                    out.append(eng().token(x, ("." + m.group("prec") if m.group("prec") else "") + conv))
            elif isinstance(x, SymSeq):
                if conv != "s" or m.group("width"):
                    raise EngineLimit("formatting of symbolic text")
                out.append(x if isinstance(x, SymStr) else str(x))
            else:
                out.append(("%" + spec) % (x,))
        out.append(a[pos:])
        if not isinstance(args, dict) and i < len(args):
            raise TypeError("not all arguments converted during string formatting")
        return join("", out)
    return a % b


def _fmt_base(x, base, upper, width, flags):
    if not isinstance(x, SymInt):
        raise TypeError("%x format: an integer is required, not float")
    sign = ""
    if bool(x < 0):
        x, sign = -x, "-"
    n = 1
    while not bool(x < base**n):
        n += 1
    digits = []
    for k in range(n - 1, -1, -1):
        d = to_int(s_divmod(s_divmod(x, base**k)[0] if k else x, base)[1])
        digits.append(SymInt(z3.If(d < 10, d + 48, d + (55 if upper else 87)) if base > 10 else d + 48))
    r = SymStr(digits)
    fill = int(width or 0) - n - len(sign)
    if fill <= 0:
        return sign + r
    if "-" in flags:
        return sign + r + " "*fill
    if "0" in flags:
        return sign + "0"*fill + r
    return " "*fill + sign + r


def contains(seq, x):
    if isinstance(seq, SymSeq):
        return seq.__contains__(x)
    if isinstance(seq, (str, bytes)) and isinstance(x, SymSeq):
        if len(x) == 0:
            return True
        if len(x) == 1:
            c = to_int(x.v[0])
            codes = [ord(k) for k in seq] if isinstance(seq, str) else list(seq)
            return eng().branch(z3.Or([c == k for k in codes] + [z3.BoolVal(False)]))
        k = SymStr(map(ord, seq)) if isinstance(seq, str) else SymBytes(seq)
        return k.find(x) >= 0
    if isinstance(seq, bytes) and isinstance(x, SymInt):
        return eng().branch(z3.Or([x.e == k for k in seq] + [z3.BoolVal(False)]))
    if isinstance(x, SymNum) and isinstance(seq, (list, tuple, set, frozenset, range)):
        vals = list(seq)
        if isinstance(seq, range) and len(vals) > 300:
            if seq.step == 1:
                return bool((x >= seq.start) & (x < seq.stop))
        return any(bool(x == k) for k in vals)
    if isinstance(x, SymSeq) and isinstance(seq, (dict, set, frozenset)):
        for k in seq:
            if isinstance(k, (str, bytes)) and len(k) == len(x) and bool(x == k):
                return True
        return False
    if isinstance(x, SymInt) and isinstance(seq, dict):
        keys = [k for k in seq if isinstance(k, int)]
        if len(keys) > 300:
            return x in seq
        return any(bool(x == k) for k in keys)
    return x in seq


def join(s, it):
    items = list(it)
    if isinstance(s, SymSeq) or any(isinstance(x, SymSeq) for x in items):
        if isinstance(s, (str, SymStr)):
            acc = ()
            sep = tuple(map(ord, s)) if isinstance(s, str) else s.v
            conv = lambda x: x.v if isinstance(x, SymStr) else tuple(map(ord, x))
        else:
            acc = ()
            sep = tuple(s) if isinstance(s, bytes) else s.v
            conv = lambda x: x.v if isinstance(x, SymBytes) else tuple(x)
        for i, x in enumerate(items):
            if i:
                acc += sep
            acc += conv(x)
        if all(isinstance(k, int) for k in acc):
            return "".join(map(chr, acc)) if isinstance(s, (str, SymStr)) else bytes(acc)
        return SymStr(acc) if isinstance(s, (str, SymStr)) else SymBytes(acc)
    return s.join(items)


def call_join(s, *args):
    if isinstance(s, (str, bytes, SymSeq)) and len(args) == 1:
        return join(s, args[0])
    return s.join(*args)


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymNum):
            return x if isinstance(x, SymReal) else SymReal(to_real(x))
        if isinstance(x, SymBool):
            return float(bool(x))
        if isinstance(x, (str, bytes)):
            t = V.ENGINE.lookup(x) if V.ENGINE else None
            if t is not None:
                return t if isinstance(t, SymReal) else SymReal(to_real(t))
            return float(x)
        if isinstance(x, SymSeq):
            return _parse_float(x)
        f = getattr(type(x), "__float__", None)
        if f is not None and isinstance(f, types.FunctionType):
            return cls(f(x)) if not isinstance(x, float) else x
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    pass


def _digits(x):
    v = list(x.v)
    return v


def _isd(c):
    if isinstance(c, int):
        return 48 <= c <= 57
    return eng().branch(z3.And(c.e >= 48, c.e <= 57))


def _parse_float(x):
    s = x.strip()
    v = list(s.v) if isinstance(s, SymSeq) else [c if isinstance(c, int) else ord(c) for c in s]
    is_c = lambda c, k: (c == k if isinstance(c, int) else eng().branch(c.e == k))
    sign = 1
    if v and (is_c(v[0], 43)):
        v.pop(0)
    elif v and is_c(v[0], 45):
        v.pop(0)
        sign = -1
    num = 0
    scale = Fraction(1)
    seen = False
    dot = False
    for c in v:
        if _isd(c):
            num = num * 10 + (mk_int(to_int(c) - 48) if not isinstance(c, int) else c - 48)
            seen = True
            if dot:
                scale *= 10
        elif not dot and is_c(c, 46):
            dot = True
        else:
            if is_c(c, 101) or is_c(c, 69):
                raise EngineLimit("exponent in symbolic float text")
            raise ValueError("could not convert string to float")
    if not seen:
        raise ValueError("could not convert string to float")
    if isinstance(num, SymNum):
        return SymReal(to_real(num) * V.realval(Fraction(sign) / scale))
    return float(sign * num / scale)


def _parse_int(x, base=10):
    s = x.strip()
    v = list(s.v) if isinstance(s, SymSeq) else [c if isinstance(c, int) else ord(c) for c in s]
    sign = 1
    is_c = lambda c, k: (c == k if isinstance(c, int) else eng().branch(c.e == k))
    if v and is_c(v[0], 43):
        v.pop(0)
    elif v and is_c(v[0], 45):
        v.pop(0)
        sign = -1
    if not v:
        raise ValueError("invalid literal for int()")
    num = 0
    for c in v:
        e = to_int(c)
        if base == 10:
            if not _isd(c):
                if isinstance(c, SymInt) and eng().branch(c.e == 95):
                    raise EngineLimit("underscore in int literal")
                raise ValueError("invalid literal for int()")
            d = mk_int(z3.simplify(e - 48))
        elif base == 16:
            if _isd(c):
                d = mk_int(z3.simplify(e - 48))
            elif eng().branch(z3.And(e >= 97, e <= 102)):
                d = mk_int(z3.simplify(e - 87))
            elif eng().branch(z3.And(e >= 65, e <= 70)):
                d = mk_int(z3.simplify(e - 55))
            else:
                raise ValueError("invalid literal for int()")
        elif base == 8:
            if not eng().branch(z3.And(e >= 48, e <= 55)):
                raise ValueError("invalid literal for int()")
            d = mk_int(z3.simplify(e - 48))
        else:
            raise EngineLimit("int base")
        num = num * base + d
    return num * sign


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *base):
        if isinstance(x, SymReal):
            return x.__trunc__()
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(to_int(x))
        if isinstance(x, (str, bytes)) and not base:
            t = V.ENGINE.lookup(x) if V.ENGINE else None
            if t is not None:
                if isinstance(t, SymReal):
                    raise ValueError("invalid literal for int() with base 10")
                return t
        if isinstance(x, SymSeq):
            return _parse_int(x, *base)
        if not base:
            f = getattr(type(x), "__int__", None)
            if isinstance(f, types.FunctionType):
                return f(x)
        return int(x, *base)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if not isinstance(b, SymBytes):
            return int.from_bytes(b, byteorder, signed=signed)
        return _from_bytes(b, byteorder, signed)


def _from_bytes(b, order, signed):
    v = list(b.v) if isinstance(b, SymSeq) else list(b)
    if order == "little":
        v = v[::-1]
    r = 0
    for x in v:
        r = r * 256 + x
    if signed and isinstance(r, SymInt):
        n = 8 * len(v)
        r = mk_int(z3.If(r.e >= (1 << (n - 1)), r.e - (1 << n), r.e))
    elif signed and r >= 1 << (8 * len(v) - 1):
        r -= 1 << (8 * len(v))
    return r


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __call__(cls, x="", *a):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, SymBytes) and a:
            return x.decode(*a)
        if V.DIGITS and isinstance(x, SymInt):
            return _fmt_base(x, 10, False, "", "")
        return str(x, *a)

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, n):
        return getattr(str, n)


class SStr(metaclass=_StrMeta):
    pass


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytes, SymBytes))

    def __subclasscheck__(cls, c):
        return issubclass(c, bytes)

    def __call__(cls, x=b"", *a):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymStr):
            return x.encode(*a)
        if isinstance(x, SymInt):
            return bytes(eng().concretize(x))
        if isinstance(x, (str, int, bytes, bytearray, memoryview)):
            return bytes(x, *a)
        if isinstance(x, SymArray):
            return x.tobytes()
        items = list(x)
        if any(isinstance(k, SymInt) for k in items):
            for k in items:
                if isinstance(k, SymInt):
                    if not eng().branch(z3.And(k.e >= 0, k.e <= 255)):
                        raise ValueError("bytes must be in range(0, 256)")
            return SymBytes(items)
        return bytes(items)

    def __eq__(cls, o):
        return o is bytes or o is cls

    def __hash__(cls):
        return hash(bytes)

    def __getattr__(cls, n):
        return getattr(bytes, n)


class SBytes(metaclass=_BytesMeta):
    pass


def s_minmax(which):
    real = getattr(builtins, which)

    def f(*args, **kw):
        if kw:
            return real(*args, **kw)
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            raise ValueError("%s() arg is an empty sequence" % which)
        if not any(isinstance(x, SymNum) for x in items):
            return real(items)
        if not all(isinstance(x, (SymNum, int, float, Fraction)) for x in items):
            return real(items)
        if any(isinstance(x, float) and x in (symmath.inf, -symmath.inf) for x in items):
            return real(items)
        r = items[0]
        for x in items[1:]:
            if isinstance(r, SymNum) or isinstance(x, SymNum):
                ints = all(isinstance(k, (int, SymInt)) for k in (r, x))
                if ints:
                    a, b = to_int(r), to_int(x)
                    c = b < a if which == "min" else b > a
                    r = mk_int(z3.simplify(z3.If(c, b, a)))
                else:
                    a, b = to_real(r), to_real(x)
                    c = z3.simplify(b < a if which == "min" else b > a)
                    r = x if z3.is_true(c) else r if z3.is_false(c) else SymReal(z3.If(c, b, a))
            else:
                r = real(r, x)
        return r
    f.__name__ = which
    return f


def s_ord(x):
    if isinstance(x, SymSeq):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.v[0]
    return ord(x)


def s_chr(x):
    if isinstance(x, SymInt):
        if eng().branch(z3.Or(x.e < 0, x.e >= 0x110000)):
            raise ValueError("chr() arg not in range")
        return SymStr((x,))
    return chr(x)


def s_round(x, *a):
    if isinstance(x, SymNum):
        return x.__round__(*a)
    return round(x, *a)


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def s_divmod(a, b):
    if isinstance(a, SymNum):
        return a.__divmod__(b)
    if isinstance(b, SymNum):
        return b.__rdivmod__(a)
    return divmod(a, b)


def s_pow(a, b, *m):
    if not m and (isinstance(a, SymNum) or isinstance(b, SymNum)):
        return a ** b
    return pow(a, b, *m)


# ------------------------------------------------------------------ struct
_sizes = {"b": 1, "B": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def _fmt(fmt):
    order = "big" if fmt[:1] in ">!" else "little"
    if fmt[:1] in "<>=!@":
        fmt = fmt[1:]
    out = []
    for m in _re.finditer(r"(\d*)([a-zA-Z?])", fmt):
        n = int(m.group(1)) if m.group(1) else 1
        if m.group(2) in "sx":
            out.append((m.group(2), n))
        else:
            if m.group(2) not in _sizes:
                raise EngineLimit("struct format")
            out.extend([(m.group(2), _sizes[m.group(2)])] * n)
    return order, out


def struct_pack(fmt, *args):
    if not any(isinstance(a, (SymNum, SymSeq)) for a in args):
        return _struct.pack(fmt, *args)
    order, items = _fmt(fmt)
    acc = SymBytes(())
    args = list(args)
    if len([i for i in items if i[0] != "x"]) != len(args):
        raise _struct.error("pack expected a different number of items")
    for c, n in items:
        if c == "x":
            acc = acc + b"\0" * n
            continue
        a = args.pop(0)
        if c == "s":
            a = a if isinstance(a, SymBytes) else SymBytes(a)
            acc = acc + SymBytes(a.v[:n] + (0,) * (n - len(a)))
            continue
        if c == "c":
            acc = acc + a
            continue
        if isinstance(a, SymReal):
            raise _struct.error("required argument is not an integer")
        if isinstance(a, int):
            acc = acc + SymBytes(_struct.pack((">" if order == "big" else "<") + c, a))
            continue
        signed = c.islower()
        lo, hi = (-(1 << (8*n-1)), (1 << (8*n-1)) - 1) if signed else (0, (1 << 8*n) - 1)
        if not eng().branch(z3.And(a.e >= lo, a.e <= hi)):
            raise _struct.error("argument out of range")
        u = mk_int(z3.If(a.e < 0, a.e + (1 << 8*n), a.e)) if signed else a
        bs = [(u >> (8*k)) % 256 if k < n - 1 else u >> (8*k) for k in range(n)]
        if order == "big":
            bs = bs[::-1]
        acc = acc + SymBytes(bs)
    return acc


def struct_unpack(fmt, data):
    if not isinstance(data, SymBytes):
        return _struct.unpack(fmt, data)
    order, items = _fmt(fmt)
    if sum(n for c, n in items) != len(data):
        raise _struct.error("unpack requires a buffer of %d bytes" % sum(n for c, n in items))
    out = []
    pos = 0
    for c, n in items:
        part = data.v[pos:pos+n]
        pos += n
        if c == "x":
            continue
        if c in "sc":
            out.append(SymBytes(part)._new(part))
        else:
            out.append(_from_bytes(SymBytes(part), order, c.islower()))
    return tuple(out)


def _module(name, real, **over):
    m = types.ModuleType(name)
    for k, v in vars(real).items():
        if not k.startswith("__"):
            setattr(m, k, v)
    for k, v in over.items():
        setattr(m, k, v)
    return m


# ------------------------------------------------------------------ array("B")
class SymArray:
    def __init__(self, typecode, init=()):
        self.typecode = typecode
        if typecode != "B":
            raise EngineLimit("array typecode %r" % typecode)
        self.v = []
        self.extend(init)

    def _chk(self, x):
        if isinstance(x, SymInt):
            if not eng().branch(z3.And(x.e >= 0, x.e <= 255)):
                raise OverflowError("unsigned byte integer is out of range")
        elif isinstance(x, (SymReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        elif not 0 <= x <= 255:
            raise OverflowError("unsigned byte integer is out of range")
        return x

    def append(self, x):
        self.v.append(self._chk(x))

    def extend(self, it):
        for x in it:
            self.append(x)
    fromlist = frombytes = extend

    def insert(self, i, x):
        self.v.insert(i, self._chk(x))

    def pop(self, i=-1):
        return self.v.pop(i)

    def tobytes(self):
        if all(isinstance(x, int) for x in self.v):
            return bytes(self.v)
        return SymBytes(self.v)
    tostring = tobytes

    def tolist(self):
        return list(self.v)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(list(self.v))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymArray("B", self.v[i])
        if isinstance(i, SymNum):
            i = eng().concretize(i)
        return self.v[i]

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            self.v[i] = list(x)
        else:
            self.v[i] = self._chk(x)

    def __add__(self, o):
        return SymArray("B", self.v + list(o))

    def __iadd__(self, o):
        self.extend(o)
        return self


def array_array(typecode, init=()):
    return SymArray(typecode, init) if typecode == "B" else _array.array(typecode, init)


# ------------------------------------------------------------------ io
class SymBytesIO:
    def __init__(self, data=b""):
        self.data = data
        self.p = 0
        self.closed = False

    def read(self, n=-1):
        if n is None:
            n = -1
        if isinstance(n, SymNum):
            n = eng().concretize(n)
        if n < 0:
            r = self.data[self.p:]
            self.p = len(self.data)
        else:
            r = self.data[self.p:self.p+n]
            self.p = min(self.p + n, max(self.p, len(self.data)))
        return r

    def readline(self):
        i = self.data.find(b"\n", self.p)
        n = (i + 1 if i >= 0 else len(self.data)) - self.p
        return self.read(n)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if len(l) == 0:
                return
            yield l

    def tell(self):
        return self.p

    def seek(self, n, whence=0):
        if isinstance(n, SymNum):
            n = eng().concretize(n)
        if whence == 0:
            if n < 0:
                raise ValueError("negative seek value")
            self.p = n
        elif whence == 1:
            self.p = max(0, self.p + n)
        else:
            self.p = max(0, len(self.data) + n)
        return self.p

    def write(self, b):
        if isinstance(b, SymSeq) and not isinstance(b, SymBytes) or isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        cur = self.data[:self.p] + b + self.data[self.p+len(b):]
        self.data = cur
        self.p += len(b)
        return len(b)

    def getvalue(self):
        return self.data

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymStringIO(SymBytesIO):
    def __init__(self, data=""):
        SymBytesIO.__init__(self, data)

    def readline(self):
        i = self.data.find("\n", self.p)
        n = (i + 1 if i >= 0 else len(self.data)) - self.p
        return self.read(n)

    def write(self, b):
        if isinstance(b, (bytes, SymBytes)):
            raise TypeError("string argument expected, got 'bytes'")
        if self.p == len(self.data):
            self.data = self.data + b
        else:
            self.data = self.data[:self.p] + b + self.data[self.p+len(b):]
        self.p += len(b)
        return len(b)


def b2a_hex(data):
    if not isinstance(data, SymBytes):
        return _binascii.b2a_hex(data)
    out = []
    hx = lambda n: mk_int(z3.simplify(z3.If(to_int(n) < 10, to_int(n) + 48, to_int(n) + 87)))
    for x in data.v:
        hi, lo = V._idivmod(x, 16) if isinstance(x, SymInt) else divmod(x, 16)
        out += [hx(hi), hx(lo)]
    return SymBytes(out)


def a2b_hex(data):
    if not isinstance(data, SymSeq):
        return _binascii.a2b_hex(data)
    v = data.v
    if len(v) % 2:
        raise _binascii.Error("Odd-length string")
    out = []
    for i in range(0, len(v), 2):
        try:
            out.append(_parse_int(SymStr(v[i:i+1]), 16) * 16 + _parse_int(SymStr(v[i+1:i+2]), 16))
        except ValueError:
            raise _binascii.Error("Non-hexadecimal digit found")
    return SymBytes(out)._new(out)


def b2a_base64(data, *, newline=True):
    if not isinstance(data, SymBytes):
        return _binascii.b2a_base64(data, newline=newline)
    # by contract: characters of the alphabet, from which a2b_base64 gets the same bytes back
    known = eng().base64
    v = list(data.v)
    out = []
    for i in range(0, len(v), 3):
        part = tuple(v[i:i+3])
        if all(isinstance(k, int) for k in part):
            out += _binascii.b2a_base64(bytes(part), newline=False)
            continue
        q = []
        for k in range(len(part) + 1):
            c = eng().fresh("b64", "int")
            eng().axiom(z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 65, c <= 90), z3.And(c >= 48, c <= 57), c == 43, c == 47))
            q.append(mk_int(c))
        known[tuple(str(k.e) for k in q)] = part
        out += q + [61] * (4 - len(q))
    if newline:
        out.append(10)
    return SymBytes(out)._new(out)


def a2b_base64(data):
    if not isinstance(data, SymSeq):
        return _binascii.a2b_base64(data)
    v = [c for c in data.v if not (isinstance(c, int) and c in (10, 13, 32))]
    if len(v) % 4:
        raise _binascii.Error("Incorrect padding")
    out = []
    for i in range(0, len(v), 4):
        q = v[i:i+4]
        if all(isinstance(k, int) for k in q):
            out += _binascii.a2b_base64(bytes(q))
        else:
            key = tuple(str(k.e) for k in q if not isinstance(k, int))
            if key not in eng().base64 or any(k != 61 for k in q[len(key):]):
                raise EngineLimit("base64 decoding of arbitrary characters")
            out += eng().base64[key]
    return SymBytes(out)._new(out)


# Library functions with a contract instead of an implementation when they are applied to symbolic bytes:
#  zlib: decompress(compress(x)) == x;   base64 as above;   sha1, crc32: equal results for equal data only
def zlib_compress(data, *args, **kw):
    if not isinstance(data, SymBytes):
        return _zlib.compress(data, *args, **kw)
    return b"ZSYM" + data


def zlib_decompress(data, *args, **kw):
    if not isinstance(data, SymBytes) and data[:4] != b"ZSYM":
        return _zlib.decompress(data, *args, **kw)
    return data[4:]


def _digest(kind, data, real):
    known = eng().digests
    sym = isinstance(data, SymBytes)
    for k, old, value in known:
        if k == kind and len(old) == len(data) and (sym or isinstance(old, SymBytes)) and bool(data == old):
            return value
    value = ("%040x" % (0xabc0000 + len(known)) if kind == "sha1" else 0x5eed0000 + len(known)) if sym else real()
    if sym and kind == "sha1":
        value = value[::-1]
    known.append((kind, data, value))
    return value


def zlib_crc32(data, *args):
    if args:
        raise EngineLimit("crc32 with start value")
    return _digest("crc32", data, lambda: _zlib.crc32(data))


class sha1:
    def __init__(self, data=b"", **kw):
        self.data = data

    def update(self, data):
        self.data = self.data + data

    def hexdigest(self):
        return _digest("sha1", self.data, lambda: _hashlib.sha1(self.data).hexdigest())


class SFraction:
    """fractions.Fraction of symbolic integers (not reduced)"""

    def __new__(cls, num=0, denom=None):
        if not isinstance(num, (SymInt, SFraction)) and not isinstance(denom, SymInt):
            return _Fraction(num, denom)
        if isinstance(num, SFraction):
            assert denom is None
            return num
        self = object.__new__(cls)
        self.numerator, self.denominator = num, 1 if denom is None else denom
        if isinstance(self.denominator, SymInt) or self.denominator <= 0:
            if not bool(self.denominator != 0):
                raise ZeroDivisionError("Fraction(%s, 0)" % num)
            if bool(self.denominator < 0):
                self.numerator, self.denominator = -self.numerator, -self.denominator
        return self

    @staticmethod
    def _parts(o):
        if isinstance(o, (int, SymInt, SFraction, _Fraction)):
            return o.numerator, o.denominator
        raise EngineLimit("fraction with other numbers")

    def __mul__(self, o):
        n, d = self._parts(o)
        return SFraction(self.numerator*n, self.denominator*d) if isinstance(self.numerator*n, SymInt) else _Fraction(self.numerator*n, self.denominator*d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        n, d = self._parts(o)
        return SFraction(self.numerator*d, self.denominator*n)

    def __add__(self, o):
        n, d = self._parts(o)
        return SFraction(self.numerator*d + n*self.denominator, self.denominator*d)
    __radd__ = __add__

    def __neg__(self):
        return SFraction(-self.numerator, self.denominator)

    def __sub__(self, o):
        return self + -o

    def __abs__(self):
        return SFraction(abs(self.numerator), self.denominator)

    def _cmp(op):
        def f(self, o):
            n, d = self._parts(o)
            return getattr(self.numerator*d, op)(n*self.denominator)
        return f
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_cmp, ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"))
    __hash__ = None

    def __bool__(self):
        return bool(self.numerator != 0)

    def __float__(self):
        return float(_Fraction(eng().concretize(self.numerator), eng().concretize(self.denominator)))


STANDINS = {
    "fractions": _module("fractions", _fractions, Fraction=SFraction),
    "zlib": _module("zlib", _zlib, compress=zlib_compress, decompress=zlib_decompress, crc32=zlib_crc32),
    "hashlib": _module("hashlib", _hashlib, sha1=sha1),
    "math": symmath,
    "struct": _module("struct", _struct, pack=struct_pack, unpack=struct_unpack),
    "array": _module("array", _array, array=array_array),
    "io": _module("io", _io, BytesIO=SymBytesIO, StringIO=SymStringIO),
    "binascii": _module("binascii", _binascii, b2a_hex=b2a_hex, a2b_hex=a2b_hex, hexlify=b2a_hex, unhexlify=a2b_hex, b2a_base64=b2a_base64, a2b_base64=a2b_base64),
}


class _TextWriter:
    """in place of the io.TextIOWrapper in XMLGenerator"""

    def __init__(self, out, encoding):
        self.out, self.encoding = out, encoding

    def write(self, s):
        self.out.write(s.encode(self.encoding) if isinstance(s, SymStr) else s.encode(self.encoding, "xmlcharrefreplace"))

    def flush(self):
        pass


def _rewritten(name):
    """a pure Python module of the standard library, run symbolically as the code of pyx"""
    real = importlib.import_module(name)
    with open(real.__file__, encoding="utf-8") as f:
        tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(f.read(), real.__file__)))
    m = types.ModuleType(name)
    m.__dict__.update(__package__=name.rpartition(".")[0], __file__=real.__file__, _ps_=sys.modules[__name__], __builtins__=BUILTINS)
    exec(compile(tree, real.__file__, "exec"), m.__dict__)
    return m


def _saxutils():
    import xml, xml.sax
    m = _rewritten("xml.sax.saxutils")
    m._gettextwriter = _TextWriter
    return _module("xml", xml, sax=_module("xml.sax", xml.sax, saxutils=m))


REWRITTEN = {"colorsys"}


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name == "xml.sax.saxutils" and not fromlist:
        if name not in STANDINS:
            STANDINS[name] = _saxutils()
        builtins.__import__(name)
        return STANDINS[name]
    if level == 0 and name in REWRITTEN and name not in STANDINS:
        STANDINS[name] = _rewritten(name)
    if level == 0 and name in STANDINS:
        return STANDINS[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS.update(float=SFloat, int=SInt, str=SStr, bytes=SBytes, min=s_minmax("min"), max=s_minmax("max"),
                ord=s_ord, chr=s_chr, round=s_round, sum=s_sum, divmod=s_divmod, pow=s_pow,
                __import__=s_import)
OPEN_HOOK = [None]


def s_open(name, *a, **k):
    if OPEN_HOOK[0] is not None:
        r = OPEN_HOOK[0](name, *a, **k)
        if r is not None:
            return r
    return open(name, *a, **k)


BUILTINS["open"] = s_open


class _Rewrite(ast.NodeTransformer):
    def _h(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id="_ps_", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._h("mod", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.copy_location(ast.Assign(targets=[node.target], value=self._h("mod", load, node.value)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._h("contains", node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and not node.keywords and len(node.args) == 1:
            if isinstance(node.func.value, ast.Attribute) and node.func.value.attr == "path":
                return node     # os.path.join
            return ast.copy_location(self._h("call_join", node.func.value, *node.args), node)
        return node


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pyx" and not fullname.startswith("pyx."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return importlib.util.spec_from_file_location(fullname, os.path.join(base, "__init__.py"), loader=self,
                                                          submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, fn)
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        code = compile(tree, fn, "exec")
        module.__dict__["_ps_"] = sys.modules[__name__]
        module.__dict__["__builtins__"] = BUILTINS
        module.__dict__["__file__"] = fn
        LOADED.append(os.path.relpath(fn, REPO))
        exec(code, module.__dict__)


LOADED = []


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
