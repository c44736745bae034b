"""Axis ticks: rational numbers, merging of tick lists, linear and logarithmic partitions."""
import math
from fractions import Fraction
from pysym.api import harness

BOUNDS = ("rationals with arbitrary numerators up to 10^6 for a set of denominators and powers, decimal notations with up to 5 arbitrary digits; merging of up to 3 + 3 ticks at arbitrary positions; "
          "axis ranges within [-6, 6] (linear) and [0.003, 500], [-500, -0.003] (logarithmic) for a set of tick distances and prefix/exponent lists; automatic partitions: three steps in each direction")
ASSUMPTIONS = ["logarithms are exact to double precision: monotone function with the values of the powers of the base and multiples of them"]


def chars(x, *parts):
    """text of literal parts and symbolic digits"""
    if not x.symbolic:
        return "".join(p if isinstance(p, str) else chr(48 + p) for p in parts)
    from pysym.values import SymStr
    r = SymStr([])
    for p in parts:
        r = r + (p if isinstance(p, str) else SymStr([p + 48]))
    return r


def same(x, q, num, den, label):
    """q (rational of the code) is num/den"""
    x.check(q.num*den == num*q.denom, label)
    x.check(x.not_(q.denom == 0), label + ": denominator")


# ---------------------------------------------------------------------- rational numbers
FORMS = ["i", "i.f", "-i.f", "+i", ".f", "i.", "-.f", "iEe", "i.fE-e", "i.fe+e", "i/i", "i.f/-i", " i ", "i.f/f.i"]


@harness(cases=FORMS, simplify=True)
def notation(x, form):
    """strings: digits, sign, fractional part, exponent, quotient"""
    from pyx.graph.axis import tick
    from functools import reduce
    parts, num, den = [], 0, 1
    n = 0
    total = [0, 1]
    for side in form.split("/"):
        text = side.strip()
        neg = text[0] == "-"
        body = text.lstrip("+-")
        if text[0] in "+-":
            parts.append(text[0])
        e = 0
        if "E" in body or "e" in body:
            k = body.upper().index("E")
            ex = body[k+1:]
            body, mark = body[:k], body[k:k+1]
        else:
            ex = None
        val, scale = 0, 1
        point = False
        for ch in body:
            if ch == ".":
                parts.append(".")
                point = True
                continue
            for _ in range(2 if ch == "i" else 3):
                d = x.int("d%d" % n, 0, 9)
                n += 1
                parts.append(d)
                val = 10*val + d
                if point:
                    scale *= 10
        if ex is not None:
            k = x.choice("exp", [0, 1, 2, 5, 12])
            parts += [mark + ex.replace("e", str(k))]
            if "-" in ex:
                scale *= 10**k
            else:
                val = val*10**k
        if neg:
            val = -val
        if parts and form.startswith(" "):
            parts.insert(0, "  ")
            parts.append("\n")
        if total == [0, 1] and num == 0 and not any(p == "/" for p in parts):
            num, den = val, scale
            if "/" in form:
                parts.append("/")
        else:
            num, den = num*scale, den*val
    s = chars(x, *parts)
    try:
        q = tick.rational(s)
    except ZeroDivisionError:
        x.check(den == 0, "a zero denominator only is refused")
        return
    same(x, q, num, den, "value")


@harness(cases=["a", "1,5", "1.2.3", "1/2/3", "1e2e3", "0x10", "1e1.5", "--1", "1/0", "0/0"])
def malformed(x, s):
    from pyx.graph.axis import tick
    try:
        tick.rational(s)
    except (ValueError, ZeroDivisionError):
        x.check(True, "refused")
    else:
        x.check(False, "refused")


@harness(cases=[("pair", p) for p in (-3, -2, -1, 0, 1, 2, 3)] + [("int", 1), ("fraction", 1), ("copy", 1), ("copy", -1), ("copy", 2)], simplify=True)
def construct(x, case):
    """from pairs, integers, fractions and other rationals; powers"""
    from pyx.graph.axis import tick
    how, power = case
    n = x.int("n", -1000, 1000)
    d = x.choice("d", [1, 3, 7, -4])
    if how == "pair":
        a = (n, d)
    elif how == "int":
        a, d = n*10**12 + 1, 1
        n = a
    elif how == "fraction":
        k = x.choice("k", [1, -5, 10**13 + 3])
        a, n, d = Fraction(k, 7), k, 7
    else:
        a = tick.rational((n, d))
    if power < 0:
        x.assume(x.not_(n == 0))
    q = tick.rational(a, power=power)
    if power >= 0:
        same(x, q, n**power, d**power, "value")
    else:
        same(x, q, d**-power, n**-power, "value")
    if how == "copy":
        x.check(q is not a, "a copy")
        q *= tick.rational((2, 1))
        same(x, a, n, d, "the original is left alone")


@harness(cases=[(a, b) for a in (1, 3, -4) for b in (1, 7, -2)], simplify=True)
def arithmetics(x, case):
    """product, quotient, absolute value, order and equality, conversion to float"""
    from pyx.graph.axis import tick
    d1, d2 = case
    n1, n2 = x.int("n1", -1000, 1000), x.int("n2", -1000, 1000)
    a, b = tick.rational((n1, d1)), tick.rational((n2, d2))
    same(x, a*b, n1*n2, d1*d2, "product")
    q = tick.rational(a)
    q *= b
    same(x, q, n1*n2, d1*d2, "product in place")
    m = abs(a)
    same(x, m, abs(n1), abs(d1), "absolute value")
    s = 1 if d1*d2 > 0 else -1
    lt = s*(n1*d2 - n2*d1) < 0
    x.check(x.all([x.implies(a < b, lt), x.implies(lt, a < b)]), "smaller")
    eq = n1*d2 == n2*d1
    x.check(x.all([x.implies(a == b, eq), x.implies(eq, a == b)]), "equal")
    x.check(bool(a <= b) == bool(x.any([lt, eq])), "smaller or equal")
    x.check(bool(a > b) == (not bool(x.any([lt, eq]))), "bigger")
    x.eq(float(a) if not x.symbolic else a.num/a.denom, n1/d1, "value as a float", tol=1e-9)
    if bool(n2 == 0):
        return
    same(x, a/b, n1*d2, d1*n2, "quotient")
    q = tick.rational(a)
    q /= b
    same(x, q, n1*d2, d1*n2, "quotient in place")


@harness(cases=[0.1, 0.25, 1e-7, 123.456, -2.5, 1/3, 2/3*1e5, 1e22, math.pi, -math.e*1e-9, 5e-324])
def floats(x, v):
    """floats are taken with ten digits"""
    from pyx.graph.axis import tick
    q = tick.rational(v)
    x.check(abs(Fraction(q.num, q.denom) - Fraction(v)) <= abs(Fraction(v))*Fraction(6, 10**10) or v == 5e-324, "value")
    x.check(Fraction(q.num, q.denom) == Fraction("%.10g" % v), "ten digits")


# ---------------------------------------------------------------------- merging
def ticklist(x, name, n, den, patterns):
    from pyx.graph.axis import tick
    ticks = []
    k = x.choice("levels " + name, list(range(patterns)))
    for i in range(n):
        p = x.int("%s%d" % (name, i), -5, 5)
        if ticks:
            x.assume(ticks[-1].num < p)
        if name == "a":
            levels = [(None, 0), (1, None), (0, 2)][(i + k) % 3]
        else:
            levels = [(0, None), (None, 2), (None, None), (1, 1), (2, 0)][(i + k) % 5]
        ticks.append(tick.tick((p, den), ticklevel=levels[0], labellevel=levels[1], label=[None, name][(i + k) % 2]))
    return ticks


@harness(cases=[(n, m, e) for n, m in ((0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1)) for e in (True, False)],
         thorough=[(2, 2, True), (2, 2, False), (3, 2, False)])
def merge(x, case):
    """all ticks of both lists in order, once; at equal positions the lower levels win (or the second tick is left out)"""
    from pyx.graph.axis import tick
    n, m, equal = case
    small = n + m < 3
    a, b = ticklist(x, "a", n, 2, 3 if small else 2), ticklist(x, "b", m, 4, 5 if small else 2)
    key = [(t, t.ticklevel, t.labellevel, t.label) for t in a + b]
    r = tick.mergeticklists(a, b, mergeequal=equal) if not equal or n == 1 else tick.mergeticklists(a, b)
    x.check(len(a) == n and len(b) == m, "the lists are left alone")
    for s, t in zip(r, r[1:]):
        x.check(s.num*t.denom < t.num*s.denom, "in order")
    for t in a:
        x.check(any(s is t for s in r), "all ticks of the first list")
    count = n
    old = {id(t): k for t, *k in key}
    for t in b:
        hit = [s for s in a if bool(s.num*t.denom == t.num*s.denom)]
        if hit:
            s, = hit
            x.check(not any(s2 is t for s2 in r), "a tick at the same position is merged")
            low = lambda *l: min([k for k in l if k is not None], default=None)
            o, q = old[id(s)], old[id(t)]
            if equal:
                x.check(s.ticklevel == low(o[0], q[0]) and s.labellevel == low(o[1], q[1]), "levels of a merged tick")
                x.check(s.label == (o[2] if o[2] is not None else q[2]), "label of a merged tick")
            else:
                x.check((s.ticklevel, s.labellevel, s.label) == tuple(o), "the first tick is kept")
        else:
            count += 1
            x.check(any(s is t for s in r), "all ticks of the second list")
            x.check((t.ticklevel, t.labellevel, t.label) == tuple(old[id(t)]), "levels of a tick on its own")
    x.check(len(r) == count, "number of ticks")
    if not equal:
        for t, *k in key[:n]:
            x.check((t.ticklevel, t.labellevel, t.label) == tuple(k), "nothing is merged unless asked for")


@harness(cases=[0, 1, 2])
def maxlevels(x, n):
    from pyx.graph.axis import tick
    ts = [tick.tick((i, 1), ticklevel=x.choice("t%d" % i, [None, 0, 1, 2]), labellevel=x.choice("l%d" % i, [None, 0, 3])) for i in range(n)]
    a = max([t.ticklevel + 1 for t in ts if t.ticklevel is not None], default=0)
    b = max([t.labellevel + 1 for t in ts if t.labellevel is not None], default=0)
    x.check(tuple(tick.maxlevels(ts)) == (a, b), "number of levels")


# ---------------------------------------------------------------------- partitions
def verify(x, ticks, tickpos, labelpos, lo, hi, tol, what="", within=None, scale=float):
    """tickpos, labelpos: list (by level) of the candidate positions; all those within [lo, hi] have to be there, and none outside of within"""
    lo3, hi3 = within or (lo, hi)
    got = {}
    last = None
    inside, wrong, missing = [], [], []
    for t in ticks:
        p = Fraction(x.concretize(t.num), x.concretize(t.denom))
        x.check(last is None or last < p, what + "ticks in order")
        last = p
        got[p] = t
    cand = sorted(set().union(*tickpos, *labelpos))
    for p in got:
        x.check(p in set(cand), what + "no tick at other positions (%s)" % p)
    for p in cand:
        tl = min([i for i, s in enumerate(tickpos) if p in s], default=None)
        ll = min([i for i, s in enumerate(labelpos) if p in s], default=None)
        fp = scale(p)
        d = tol
        if p in got:
            inside += [fp >= lo3 - d, fp <= hi3 + d]
            if (got[p].ticklevel, got[p].labellevel) != (tl, ll):
                wrong.append(x.not_(x.all([fp > lo + d, fp < hi - d])))
        else:
            missing.append(x.not_(x.all([fp > lo + d, fp < hi - d])))
    x.check(x.all(inside), what + "ticks within the range")
    x.check(x.all(wrong), what + "levels of the ticks")
    x.check(x.all(missing), what + "no tick is missing")


def multiples(dist, lo, hi):
    return {dist*k for k in range(math.floor(lo/dist), math.ceil(hi/dist) + 1)}


LIN = [("1", None), ("2", None), (("1", "1/2"), None), (("2", "1"), ("1",)), (None, ("3/2",)), (("1.5", "1"), ("3", "1.5")), ((1, 0.5), None), (("5", "5/2"), ("5",))]


@harness(cases=[(i, e) for i in range(len(LIN)) for e in ("none", "tick", "label", "both")], thorough=[(i, "sub") for i in (2, 3, 5)], eager=True)
def linear(x, case):
    """ticks at all multiples of the distances within the range; extended to the next multiple where the range is free"""
    from pyx.graph.axis import parter
    (td, ld), how = LIN[case[0]], case[1]
    if isinstance(td, str):
        td = (td,)
    kw = {}
    if td is not None:
        kw["tickdists"] = list(td)
    if ld is not None:
        kw["labeldists"] = list(ld)
    et, el = {"none": (None, None), "tick": (0, None), "label": (None, 0), "both": (0, 0), "sub": (1, None)}[how]
    if how != "tick" or x.bool("explicit"):
        kw.update(extendtick=et, extendlabel=el)
    p = parter.linear(**kw)
    if case[0] % 2:
        p = parter.linear(tickdists=["7"])(**kw) if "tickdists" in kw and "labeldists" in kw else p(epsilon=1e-10)
    unit = min(float(Fraction(k)) for k in (td or ()) + (ld or ()))
    lo = x.real("lo", -2.2*unit, 1.2*unit)
    hi = x.real("hi", -2.2*unit, 4.2*unit)
    x.assume(hi > lo + 0.01)
    emin, emax = x.bool("emin"), x.bool("emax")
    fs = p.partfunctions(lo, hi, emin, emax)
    x.check(len(fs) == 1, "one partition")
    ticks = fs[0]()
    x.check(fs[0]() is None, "one partition only")
    td = [Fraction(k) for k in (td or ld[:1])]
    ld = [Fraction(k) for k in (ld or td[:1])]
    tp, lp = [multiples(k, -12, 12) for k in td], [multiples(k, -12, 12) for k in ld]
    lo2, hi2, lo3, hi3 = lo, hi, lo, hi
    pos = [Fraction(x.concretize(t.num), x.concretize(t.denom)) for t in ticks]
    for dist in [td[et] if et is not None else None, ld[el] if el is not None else None]:
        if dist is None:
            continue
        # the range grows to the next multiple of the distance
        if emin:
            lo2, lo3 = float(dist)*x.math.floor(lo2/float(dist) + 1e-7), float(dist)*x.math.floor(lo3/float(dist))
        if emax:
            hi2, hi3 = float(dist)*x.math.ceil(hi2/float(dist) - 1e-7), float(dist)*x.math.ceil(hi3/float(dist))
    verify(x, ticks, tp, lp, lo2, hi2, 1e-5, within=(lo3, hi3))
    if (et is not None or el is not None) and emin:
        x.check(pos[0] <= lo + 1e-5, "the first tick is not above the range")
    if (et is not None or el is not None) and emax:
        x.check(pos[-1] >= hi - 1e-5, "the last tick is not below the range")


PRE = {"1": [1], "125": [1, 2, 5], "1to9": list(range(1, 10)), "13": [1, 3], "2": [1]}
LOGS = [(("1",), None), (("1", "1to9"), None), (("1", "1to9"), ("1", "125")), (("13",), None), (("2",), None), (None, ("1",)), (("125", "1to9"), ("125",))]


def preexp(name):
    from pyx.graph.axis import parter, tick
    std = {"1": parter.logarithmic.pre1exp, "125": parter.logarithmic.pre125exp, "1to9": parter.logarithmic.pre1to9exp}
    if name in std:
        return std[name]
    return parter.preexp([tick.rational((k, 1)) for k in PRE[name]], 2 if name == "2" else 10)


def powers(name, neg, base=None):
    base = base or (2 if name == "2" else 10)
    lo, hi = (-12, 12) if base == 2 else (-5, 5)
    s = {Fraction(k)*Fraction(base)**e for k in PRE[name] for e in range(lo, hi)}
    return {-p for p in s} if neg else s


FREE = {"none": [(False, True)], "tick": [(False, True), (True, False)], "label": [(True, True)]}


@harness(cases=[(i, e, neg, free) for i in range(len(LOGS)) for e in FREE for neg in (False, True) for free in FREE[e] if not (i in (2, 6) and e == "none")],
         thorough=[(i, e, neg, free) for i in range(len(LOGS)) for e in FREE for neg in (False, True) for free in [(False, False), (True, True)] if not free in FREE[e]],
         timeout_ms=15000, weight=2)
def logarithmic(x, case):
    """ticks at all prefactors times powers within the range; extended to the next one where the range is free; negative ranges are mirrored"""
    from pyx.graph.axis import parter
    (tn, ln), how, neg, (emin, emax) = LOGS[case[0]], *case[1:]
    kw = {}
    if tn is not None:
        kw["tickpreexps"] = [preexp(k) for k in tn]
    if ln is not None:
        kw["labelpreexps"] = [preexp(k) for k in ln]
    et, el = {"none": (None, None), "tick": (0, None), "label": (None, 0)}[how]
    if how != "tick":
        kw.update(extendtick=et, extendlabel=el)
    p = parter.logarithmic(**kw)
    tn, lnames = tn or ln[:1], ln or tn[:1]
    width = {True: 1.4, False: 3.5}["1to9" in tn]
    many = "1to9" in tn
    lo = x.real("ln lo", -0.2 if many else -4, 2.4 if many else 4)     # the logarithms of the positive range
    hi = x.real("ln hi", -4, 6)
    x.assume(hi > lo + 0.05)
    x.assume(hi < lo + width)
    elo, ehi = x.math.exp(lo), x.math.exp(hi)
    ticks = p.partfunctions(*((-ehi, -elo) if neg else (elo, ehi)), emin, emax)[0]()
    a, b = (-hi, -lo) if neg else (lo, hi)
    ln = lambda p: -math.log(-p) if neg else math.log(p)
    tp, lp = [powers(k, neg) for k in tn], [powers(k, neg) for k in lnames]
    a2, b2 = a, b
    pos = [Fraction(x.concretize(t.num), x.concretize(t.denom)) for t in ticks]
    ext = tp[et] if et is not None else lp[el] if el is not None else None
    if ext is not None:
        s = sorted(ext)
        if emin:
            first = [q for q in pos if q in ext]
            x.check(bool(first), "a tick at the start of the extended range")
            a2 = ln(first[0])
            x.check(a2 <= a + 1e-5, "the first tick is not above the range")
            x.check(ln(s[s.index(first[0]) + 1]) >= a - 1e-5, "the range is not extended beyond the next position")
        if emax:
            first = [q for q in pos if q in ext]
            x.check(bool(first), "a tick at the end of the extended range")
            b2 = ln(first[-1])
            x.check(b2 >= b - 1e-5, "the last tick is not below the range")
            x.check(ln(s[s.index(first[-1]) - 1]) <= b + 1e-5, "the range is not extended beyond the previous position")
    verify(x, ticks, tp, lp, a2, b2, 2e-6, scale=ln)


@harness(cases=["linear none", "log", "autolog"])
def logrange(x, case):
    """logarithmic partitions need ranges of one sign"""
    from pyx.graph.axis import parter
    lo, hi = x.real("lo", -2, 0), x.real("hi", 0, 2)
    x.assume(hi > lo)
    if case == "linear none":
        x.check(len(parter.linear(["1"]).partfunctions(lo, hi, False, False)[0]()) >= 1, "zero is always a tick of a linear range including it")
        return
    p = parter.log([parter.log.pre1exp]) if case == "log" else parter.autolog()
    try:
        p.partfunctions(lo, hi, x.bool("e"), False)[0]()
    except RuntimeError:
        x.check(True, "refused")
    else:
        x.check(False, "a range including zero is refused")


@harness(cases=["up", "plain up", "down", "plain down"], thorough=["down2", "small up", "up3", "plain up3"], eager=True, timeout_ms=15000, weight=2)
def autolinear(x, case):
    """a series of ever wider (and another of ever closer) ticks: 1, 2, 5/2, 5 times powers of ten with half distances between"""
    from pyx.graph.axis import parter
    lo = x.real("lo", -0.5, 0.5) if case != "small up" else x.real("lo", -0.02, 0.02)
    w = x.real("w", 1.2, 9 if case.endswith("3") else 4) if case != "small up" else x.real("w", 0.012, 0.09)
    hi = lo + w
    x.lnfacts([10.0**e for e in range(-3, 3)])
    x.assume(x.not_(w == 1))
    p = parter.autolinear(extendtick=None) if "plain" in case else parter.autolinear()
    ext = p.extendtick is not None
    fs = p.partfunctions(lo, hi, True, True)
    x.check(len(fs) == 2, "two directions")
    base = Fraction(1) if case != "small up" else Fraction(1, 100)
    up = [(1, Fraction(1, 2)), (2, 1), (Fraction(5, 2), Fraction(5, 4)), (5, Fraction(5, 2)), (10, 5)]
    down = [(Fraction(5, 10), Fraction(5, 20)), (Fraction(5, 20), Fraction(5, 40))]
    f, dists = (fs[0], up[:3 if "3" in case else 2]) if "up" in case else (fs[1], down[:2 if case == "down2" else 1])
    for i, (d, s) in enumerate(dists):
        ticks = f()
        d, s = d*base, s*base
        lo2 = float(d)*x.math.floor(lo/float(d) + 1e-7) if ext else lo
        hi2 = float(d)*x.math.ceil(hi/float(d) - 1e-7) if ext else hi
        lo3 = float(d)*x.math.floor(lo/float(d)) if ext else lo
        hi3 = float(d)*x.math.ceil(hi/float(d)) if ext else hi
        verify(x, ticks, [multiples(d, -12*base, 24*base), multiples(s, -12*base, 24*base)], [multiples(d, -12*base, 24*base)], lo2, hi2, 1e-5*float(base), "step %d: " % i, (lo3, hi3))


@harness(cases=["variants", "powers"], thorough=["negative"], timeout_ms=15000, weight=2)
def autologarithmic(x, case):
    """labels at 1, 2, 5 or at the powers only; powers of hundred and so on for large ranges"""
    from pyx.graph.axis import parter
    neg = case == "negative"
    lo = x.real("ln lo", -1.5, 0.5)     # the logarithms of the positive range
    hi = x.real("ln hi", -1, 8)
    x.assume(hi > lo + 0.7)
    x.assume(hi < lo + (2 if case != "powers" else 7))
    if case == "powers":
        x.assume(hi > lo + 5.5)
    p = parter.autologarithmic(extendtick=None)
    elo, ehi = x.math.exp(lo), x.math.exp(hi)
    fs = p.partfunctions(*((-ehi, -elo) if neg else (elo, ehi)), True, True)
    a, b = (-hi, -lo) if neg else (lo, hi)
    ln = lambda p: -math.log(-p) if neg else math.log(p)
    x.check(len(fs) == 2, "two directions")
    if case != "powers":
        ticks = fs[0]()
        verify(x, ticks, [powers("1", neg), powers("1to9", neg)], [powers("1", neg)], a, b, 2e-6, "first: ", scale=ln)
        ticks = fs[0]()
        verify(x, ticks, [powers("1", neg), powers("1to9", neg)], [powers("1", neg), powers("125", neg)], a, b, 2e-6, "second: ", scale=ln)
        x.check(fs[0]() is None, "two variants")
    else:
        for base in (100, 1000):
            ticks = fs[1]()
            verify(x, ticks, [powers("1", neg, base), powers("1", neg)], [powers("1", neg, base)], a, b, 2e-6, "base %d: " % base, scale=ln)
