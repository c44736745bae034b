"""Tick labels: the number written is the position of the tick."""
from fractions import Fraction
from pysym.api import harness

BOUNDS = ("ticks num/denom with arbitrary numerators (|num| up to 3000, for exponential labels scaled by powers of ten) for a set of denominators, one or two ticks at a time; all combinations of the listed texter options")
ASSUMPTIONS = ["a label is read as: sign, digits, separators, an overlined period, mantissa, multiplication sign, base and exponent, or a fraction"]

SEPS = (" ", ",", "'", "_")


class Bad(Exception):
    pass


def items(x, label):
    """the characters of a label: literal characters, and integers for digits"""
    if isinstance(label, str):
        return [int(c) if c in "0123456789" else c for c in label]
    out = []
    for c in label.v:
        if isinstance(c, int):
            out.append(chr(c) if not 48 <= c < 58 else c - 48)
        else:
            d = c - 48
            x.check(x.all([d >= 0, d <= 9]), "a decimal digit")
            out.append(d)
    return out


def take(it, text):
    if [c for c in it[:len(text)]] == [int(c) if c in "0123456789" else c for c in text]:
        del it[:len(text)]
        return True
    return False


def expect(it, text):
    if not take(it, text):
        raise Bad("%r expected in %r" % (text, it))


def isdigit(c):
    return not isinstance(c, str)


def number(x, it, sep=".", thousand="", thousandth="", over=(r"\overline{", "}"), plus="", minus="-", infix=""):
    """reads a decimal number; returns sign, numerator, denominator, number of digits after the separator, whether periodic"""
    neg = take(it, minus)
    if not neg:
        expect(it, plus)
    expect(it, infix)
    digits = []
    groups = []
    while it and (isdigit(it[0]) or (thousand and it[0] == thousand and len(it) > 1 and isdigit(it[1]))):
        if isdigit(it[0]):
            digits.append(it.pop(0))
        else:
            groups.append(len(digits))
            it.pop(0)
    if not digits:
        raise Bad("no digits")
    n = len(digits)
    x.check(groups == ([k for k in range(1, n) if (n - k) % 3 == 0] if thousand else []), "thousands separated")
    if n > 1:
        x.check(digits[0] != 0, "no leading zero")
    num, den = 0, 1
    for d in digits:
        num = 10*num + d
    frac = 0
    last = None
    period = False
    if it and it[0] == sep:
        it.pop(0)
        pos = []
        start = None
        while it:
            if take(it, over[0]):
                if start is not None:
                    raise Bad("two periods")
                start = frac
                a, b = num, den
                continue
            if start is not None and take(it, over[1]):
                period = True
                break
            if thousandth and it[0] == thousandth:
                pos.append(frac)
                it.pop(0)
                continue
            if not isdigit(it[0]):
                break
            last = it.pop(0)
            num, den, frac = 10*num + last, den*10, frac + 1
        if not frac or (start is not None and (not period or frac == start)):
            raise Bad("digits missing")
        x.check([p for p in pos if p] == ([k for k in range(1, frac) if k % 3 == 0] if thousandth else []), "groups of three digits after the separator")
        x.check(0 not in pos, "no separator in front of the first digit")
        if period:
            num, den = num - a, den - b
    return (-1 if neg else 1), num, den, frac, last, period


def value(x, t, sign, num, den, label):
    """the label (sign, num, den) is the tick"""
    x.check(t.num*den == sign*num*t.denom, label)
    if sign < 0:
        x.check(t.num != 0, "no negative zero")


def tick(x, name, denom, hi=3000):
    from pyx.graph.axis import tick
    return tick.tick((x.int(name, -hi, hi), denom), ticklevel=None, labellevel=x.choice("level " + name, [0, 1]))


DEC = [{}, {"thousandsep": ","}, {"thousandthpartsep": " "}, {"equalprecision": True}, {"equalprecision": True, "thousandthpartsep": "_"}, {"decimalsep": ",", "thousandsep": "'", "thousandthpartsep": "'"},
       {"plus": "+", "prefix": "<", "infix": "|", "suffix": ">"}, {"minus": "~", "period": "(%s)", "decimalsep": "{,}"}]
DENOMS = [1, 2, 8, 3, 7, 12, 1000, 40000, -4]


@harness(cases=[(d, o) for d in DENOMS for o in range(len(DEC)) if (DENOMS.index(d) + o) % 2], thorough=[(d, o) for d in DENOMS for o in range(len(DEC)) if (DENOMS.index(d) + o + 1) % 2], digits=True, quotients=True, simplify=True)
def decimal(x, case):
    """one label: exact value, period just where needed, separators, signs"""
    from pyx.graph.axis import texter
    denom, kw = case[0], DEC[case[1]]
    t = tick(x, "num", denom, 300 if denom in (7, 12, 40000) else 3000)
    tx = texter.decimal(**kw) if case[1] % 2 else texter.decimal()(**kw)
    tx.labels([t])
    it = items(x, t.label)
    try:
        expect(it, kw.get("prefix", ""))
        over = kw.get("period", r"\overline{%s}").split("%s")
        if kw.get("decimalsep") == "{,}":
            k = next((i for i in range(len(it)) if it[i:i+3] == ["{", ",", "}"]), None)
            if k is not None:
                it[k:k+3] = [";"]
        s, n, d, frac, last, period = number(x, it, ";" if kw.get("decimalsep") == "{,}" else kw.get("decimalsep", "."), kw.get("thousandsep", ""), kw.get("thousandthpartsep", ""), over,
                                             kw.get("plus", ""), kw.get("minus", "-"), kw.get("infix", ""))
        expect(it, kw.get("suffix", ""))
        if it:
            raise Bad("%r left" % it)
    except Bad as e:
        x.check(False, "a decimal number", e)
        return
    value(x, t, s, n, d, "value of the label")
    if frac and not period:
        x.check(last != 0, "no zeros at the end")
    from pyx import text
    x.check([a for a in t.labelattrs] == [text.mathmode], "label attributes")


@harness(cases=[(a, b, o) for a, b in ((1, 8), (4, 1000), (1, 1), (2, 3), (1000, 1000), (64, 1)) for o in (0, 3, 4)], digits=True, quotients=True, simplify=True)
def precision(x, case):
    """several labels: as many digits in all of them when asked for (except for periodic ones); ticks without label level or with a label are left alone"""
    from pyx.graph.axis import texter, tick as T
    kw = DEC[case[2]]
    hi = x.tier == "quick" and 20 or 100
    a, b = tick(x, "a", case[0], hi), tick(x, "b", case[1], hi)
    own, none = T.tick((1, 16), label="own"), T.tick((1, 32), labellevel=None)
    texter.decimal(**kw).labels([a, own, none, b])
    x.check(own.label == "own" and own.labelattrs == [] and none.label is None and none.labelattrs == [], "other ticks are left alone")
    r = []
    for t in (a, b):
        it = items(x, t.label)
        try:
            s, n, d, frac, last, period = number(x, it, thousandth=kw.get("thousandthpartsep", ""))
            if it:
                raise Bad("%r left" % it)
        except Bad as e:
            x.check(False, "a decimal number", e)
            return
        value(x, t, s, n, d, "value of the label")
        r.append((frac, last, period))
    fracs = [f for f, l, p in r if not p]
    if kw.get("equalprecision"):
        x.check(len(set(fracs)) <= 1, "same number of digits")
        if fracs and fracs[0]:
            x.check(x.any([l != 0 for f, l, p in r if not p]), "no more digits than needed")
    else:
        for f, l, p in r:
            if f and not p:
                x.check(l != 0, "no zeros at the end")


def plain(x, parts):
    """unicode version of a label as list of (items, shift)"""
    from pyx import text
    out = []
    for p in parts if isinstance(parts, list) else [parts]:
        if isinstance(p, text.Text):
            out.append((items(x, p.text), p.shift))
        else:
            out.append((items(x, p), 0))
    return out


# (ticks as scale, options)
EXP = [("default", {}), ("each", {"skipmantissaunity": 1}), ("never", {"skipmantissaunity": 0}), ("own", {"uniformexponent": False}), ("limits", {"minexponent": 2, "minnegexponent": 3}),
       ("base 2", {"base": Fraction(2), "minexponent": 3}), ("texters", {"mantissatexter_plus": "+", "exponenttexter_plus": "+", "minusunity": "~", "multiplicationtex": "x", "multiplicationunicode": "y", "skipmantissaunity": 1})]
SCALES = [[(1, 1)], [(10**4, 1)], [(1, 10**4)], [(10**9, 1)], [(100, 3)], [(1, 1), (10**4, 1)], [(1000, 1), (1, 1000)]]


@harness(cases=[(s, o) for s in range(len(SCALES)) for o in range(len(EXP)) if o != 5 or s == 0], thorough=[(s, 5) for s in range(1, len(SCALES))], digits=True, quotients=True, simplify=True)
def exponential(x, case):
    """labels in the decimal or the exponential notation: exact value, a mantissa below the base, exponents where the limits ask for them, unity mantissas"""
    from pyx.graph.axis import texter, tick as T
    name, kw = EXP[case[1]]
    scales = SCALES[case[0]]
    base = kw.get("base", Fraction(10))
    one = len(scales) == 1
    ticks = [T.tick((x.int("n%d" % i, -30 if one else -11, 30 if one else 11)*k, d)) for i, (k, d) in enumerate(scales)]
    tx = texter.default(**kw) if name != "limits" else texter.default()(**kw)
    tx.labels(ticks)
    lo = kw.get("minnegexponent", kw.get("minexponent", 4))
    hi = kw.get("minexponent", 4)
    skip = kw.get("skipmantissaunity", 2)
    mplus, eplus = kw.get("mantissatexter_plus", ""), kw.get("exponenttexter_plus", "")
    wants, exps, unity = [], [], []
    for t in ticks:
        mag = abs(t.num)
        zero = bool(t.num == 0)
        # outside of the limits
        w = (not zero) and bool(x.any([mag >= base**hi*t.denom, mag*base**(lo - 1) < t.denom]))
        wants.append(w)
        if isinstance(t.label, str) or hasattr(t.label, "v"):
            exps.append(None)
            it = items(x, t.label)
            try:
                s, n, d, frac, last, period = number(x, it, plus=mplus)
                if it:
                    raise Bad("%r left" % it)
            except Bad as e:
                x.check(False, "a decimal number", e)
                return
            value(x, t, s, n, d, "value of the label")
            continue
        uni = plain(x, t.label.unicode)
        it = items(x, t.label.tex)
        it2 = [c for p, shift in uni for c in p]
        mult = kw.get("multiplicationtex", r"\cdot{}")
        try:
            vals = []
            for it, mult, tex in ((it, kw.get("multiplicationtex", r"\cdot{}"), True), (it2, kw.get("multiplicationunicode", "\u00b7"), False)):
                # mantissa or unity
                k = next((i for i in range(len(it)) if it[i:i+len(mult)] == list(mult)), None)
                if k is not None:
                    m = it[:k]
                    del it[:k + len(mult)]
                    s, n, d, frac, last, period = number(x, m, plus=mplus)
                    if m:
                        raise Bad("%r left" % m)
                else:
                    s, n, d = (-1 if take(it, kw.get("minusunity", "-")) else 1), 1, 1
                expect(it, str(base))
                if tex:
                    expect(it, "^{")
                    x.check(it.pop() == "}", "braces")
                es, en, ed, efrac, last, period = number(x, it, plus=eplus)
                if it or efrac:
                    raise Bad("%r left" % it)
                vals.append((s, n, d, es*en, k is None))
        except Bad as e:
            x.check(False, "an exponential number", e)
            return
        x.check(len(uni) > 1 and uni[-1][1] > 0 and all(p[1] == 0 for p in uni[:-1]), "the exponent is raised")
        (s, n, d, e, omitted), (s2, n2, d2, e2, omitted2) = vals
        x.check(x.all([s == s2, n*d2 == n2*d, e == e2, omitted == omitted2]), "same label for TeX and as unicode")
        e = x.concretize(e)
        exps.append(e)
        unity.append((bool(n == d), omitted))
        if e >= 0:
            x.check(t.num*d*base.denominator**e == s*n*t.denom*base.numerator**e, "value of the label")
        else:
            x.check(t.num*d*base.numerator**-e == s*n*t.denom*base.denominator**-e, "value of the label")
        x.check(x.any([t.num == 0, x.all([n >= d, n*base.denominator < d*base.numerator])]), "mantissa")
    uniform = kw.get("uniformexponent", True)
    for t, w, e in zip(ticks, wants, exps):
        if uniform and any(wants):
            x.check((e is not None) or bool(t.num == 0), "exponents in all labels")
        else:
            x.check((e is not None) == w, "exponents where the limits are exceeded")
    for isone, omitted in unity:
        if skip == 0:
            x.check(not omitted, "unity mantissas are written")
        elif skip == 1:
            x.check(omitted == isone, "unity mantissas are left out")
        else:
            x.check(omitted == all(i for i, o in unity), "unity mantissas are left out when all are")


RAT = [{}, {"over": "%s/%s"}, {"skipdenom1": False, "over": "%s:%s"}, {"equaldenom": True, "over": "%s/%s"}, {"minuspos": 1, "plus": "+", "over": "%s/%s"}, {"minuspos": -1, "over": "%s/%s"},
       {"suffix": "P", "over": "%s/%s"}, {"numsuffix": "P", "over": "%s/%s"}, {"skip1": False, "skipnum1": False, "skipnum0": False, "suffix": "P", "over": "%s/%s"}, {"denominfix": "D", "prefix": "<", "suffix": ">", "over": "%s/%s"}]


@harness(cases=[(d, o) for d in (1, 2, 6, 12, -4) for o in range(len(RAT))] + [("two", o) for o in (1, 3)], digits=True, quotients=True, simplify=True)
def rational(x, case):
    """fractions: exact, in lowest terms (or with a common denominator), options for signs, prefixes and unities"""
    from pyx.graph.axis import texter, tick as T
    kw = RAT[case[1]]
    none = T.tick((1, 5), labellevel=None)
    own = T.tick((1, 7), label="own")
    if case[0] == "two":
        ticks = [T.tick((x.int("a", -3, 5), 4)), none, own, T.tick((x.int("b", -4, 2) if case[1] != 3 else x.choice("b", [-3, 1, 2]), 6))]
    else:
        ticks = [none, T.tick((x.int("a", -40, 40), case[0])), own]
        if case[0] < 0:
            x.assume(ticks[1].num != 0)
    tx = texter.rational(**kw) if case[1] % 2 else texter.rational()(**kw)
    tx.labels(ticks)
    x.check(none.label is None and own.label == "own", "other ticks are left alone")
    dens = []
    for t in ticks:
        if t is none or t is own:
            continue
        neg = bool(t.num*t.denom < 0)
        from pyx import text
        if isinstance(t.label, text.MultiEngineText):
            it = items(x, t.label.tex)
            frac = True
            st = [p for p in t.label.unicode if isinstance(p, text.StackedText)]
            x.check(len(st) == 1 and st[0].frac and len(st[0].texts) == 2 and st[0].texts[0].shift > st[0].texts[1].shift, "a fraction in unicode")
            over = kw.get("over", r"{{%s}\over{%s}}").split("%s")
            u = [items(x, p) if not isinstance(p, text.StackedText) else list(over[0]) + items(x, p.texts[0].text) + list(over[1]) + items(x, p.texts[1].text) + list(over[2]) for p in t.label.unicode]
            u = [c for p in u for c in p]
            x.check(len(u) == len(it), "same label for TeX and as unicode")
            x.check(x.all([a == b for a, b in zip(u, it)]), "same label for TeX and as unicode")
        else:
            it = items(x, t.label)
            frac = False
        if kw.get("skipnum0", True) and bool(t.num == 0):
            x.check(it == [0], "zero")
            continue
        pos = kw.get("minuspos", 0)
        sign = "-" if neg else kw.get("plus", "")
        try:
            expect(it, kw.get("prefix", ""))
            if pos == 0:
                expect(it, sign)
            over = kw.get("over", r"{{%s}\over{%s}}").split("%s")
            if frac:
                expect(it, over[0])
            if pos == 1:
                expect(it, sign)
            n = []
            while it and isdigit(it[0]):
                n.append(it.pop(0))
            expect(it, kw.get("numsuffix", ""))
            num = 0
            for d in n:
                num = 10*num + d
            den = 1
            if frac:
                expect(it, over[1])
                if pos == -1:
                    expect(it, sign)
                expect(it, kw.get("denominfix", ""))
                d = []
                while it and isdigit(it[0]):
                    d.append(it.pop(0))
                den = 0
                for k in d:
                    den = 10*den + k
                expect(it, over[2])
            expect(it, kw.get("suffix", ""))
            if it:
                raise Bad("%r left" % it)
        except Bad as e:
            x.check(False, "a fraction", e)
            return
        if not n:
            num = 1
            x.check((kw.get("numsuffix") and kw.get("skipnum1", True)) or (kw.get("suffix") and kw.get("skip1", True) and not frac), "a number is left out just besides a prefix or suffix")
        if not frac:
            x.check(not (pos == -1 and neg), "place for the sign of the denominator")
            x.check(kw.get("skipdenom1", True) and not kw.get("denominfix"), "the denominator one is left out only when asked for")
        x.check(abs(t.num)*den == num*abs(t.denom), "value of the label")
        den = x.concretize(den)
        dens.append(den)
        if not kw.get("equaldenom"):
            for p in (2, 3, 5, 7):
                if den % p == 0 and bool(num != 0):
                    x.check(num % p != 0, "lowest terms")
            if den == 1 and kw.get("skipdenom1", True) and not kw.get("denominfix") and not (pos == -1 and neg):
                x.check(not frac, "no denominator one")
        if kw.get("suffix") and kw.get("skip1", True) and not kw.get("denominfix") and den == 1 and pos == 0:
            x.check(x.any([num != 1, not n]), "the number one is left out besides a suffix")
        if not kw.get("skip1", True) and not kw.get("skipnum1", True):
            x.check(bool(n), "the number one is written")
    if kw.get("equaldenom"):
        x.check(len(set(dens)) <= 1, "common denominator")


@harness(cases=[(a, b) for a in (0, 12, 7, 30) for b in (1, 8, 30)], quotients=True)
def gcdlcm(x, case):
    from pyx.graph.axis import texter
    a, b = case
    n = x.int("n", 1, 20)
    r = texter.rational()
    g = r.gcd(n, a, b)
    g = x.concretize(g)
    for v in (n, a, b):
        x.check(v % g == 0, "divides")
    for p in (2, 3, 5, 7):
        x.check(x.not_(x.all([v % (g*p) == 0 for v in (n, a, b)])), "greatest")
    if a:
        m = x.concretize(r.lcm(n, a, b))
        for v in (n, a, b):
            x.check(m % x.concretize(v) == 0, "multiple")
        for p in (2, 3, 5, 7, 11, 13, 17, 19):
            if m % p == 0:
                x.check(not all((m//p) % x.concretize(v) == 0 for v in (n, a, b)), "least")
