"""Lengths and units."""
from pysym.api import harness

BOUNDS = "all component values in [-50, 50], scale factors in [0.1, 10], every unit, type and default unit"
ASSUMPTIONS = ["floats as reals, compared up to 1e-6..1e-3"]
UNITS = ["m", "cm", "mm", "inch", "pt"]
TYPES = "tuvwx"
M = {"m": 1, "cm": 0.01, "mm": 0.001, "inch": 0.0254, "pt": 0.0254 / 72}


def setup(x, default="cm"):
    from pyx import unit
    s = {}
    for k in "uvwx":
        s[k] = x.real("scale_" + k, 0.1, 10)
    unit.set(uscale=s["u"], vscale=s["v"], wscale=s["w"], xscale=s["x"], defaultunit=default)
    s["t"] = 1
    return s


def mixed(x, n):
    """a length with all five components (in varying units)"""
    from pyx import unit
    c = {}
    l = None
    for t, u in zip(TYPES, UNITS):
        v = x.real(n + t, -50, 50)
        c[t] = v * M[u]
        k = unit.length(v, type=t, unit=u)
        l = k if l is None else l + k
    return l, c


def meters(c, s):
    return sum([c[t] * s[t] for t in TYPES])


@harness(cases=[(t, u) for t in TYPES for u in UNITS + [None]])
def construct(x, case):
    from pyx import unit
    t, u = case
    d = x.choice("default", UNITS)
    s = setup(x, d)
    v = x.real("v", -50, 50)
    l = unit.length(v, type=t, unit=u) if u else unit.length(v, type=t)
    si = v * M[u or d] * s[t]
    for f, k in ((unit.tom, "m"), (unit.tocm, "cm"), (unit.tomm, "mm"), (unit.toinch, "inch"), (unit.topt, "pt")):
        x.eq(f(l) * M[k], si, "conversion to " + k, 1e-6)
    if t == "u":
        for f, k in ((unit.tom, "m"), (unit.tocm, "cm"), (unit.tomm, "mm"), (unit.toinch, "inch"), (unit.topt, "pt")):
            x.eq(f(v) * M[k], v * M[d] * s["u"], "plain number to " + k, 1e-6)


@harness()
def constants(x):
    from pyx import unit
    s = setup(x)
    v = x.real("v", -50, 50)
    for t in TYPES:
        for u in UNITS:
            x.eq(unit.tom(v * getattr(unit, t + "_" + u)), v * M[u] * s[t], "%s_%s" % (t, u), 1e-6)
    for u in UNITS:
        x.eq(unit.tom(v * getattr(unit, u)), v * M[u] * s["u"], u, 1e-6)


@harness(cases=["lengths", "number"])
def arithmetic(x, case):
    from pyx import unit
    d = x.choice("default", UNITS)
    s = setup(x, d)
    a, ca = mixed(x, "a")
    if case == "lengths":
        b, cb = mixed(x, "b")
    else:
        b = x.real("b", -50, 50)
        cb = dict(t=0, u=b * M[d], v=0, w=0, x=0)
    f = x.real("f", -20, 20)

    def comp(l, c, label):
        for t in TYPES:
            x.eq(getattr(l, t), c(t), label + " component " + t, 1e-6)
        x.eq(unit.tom(l), sum([c(t) * s[t] for t in TYPES]), label, 1e-4)
    comp(a + b, lambda t: ca[t] + cb[t], "sum")
    comp(b + a, lambda t: ca[t] + cb[t], "sum reversed")
    comp(a - b, lambda t: ca[t] - cb[t], "difference")
    comp(b - a, lambda t: cb[t] - ca[t], "difference reversed")
    comp(-a, lambda t: -ca[t], "negative")
    comp(a * f, lambda t: ca[t] * f, "product")
    comp(f * a, lambda t: ca[t] * f, "product reversed")
    comp(a, lambda t: ca[t], "operands are not modified")


@harness()
def division(x):
    from pyx import unit
    s = setup(x)
    a, ca = mixed(x, "a")
    f = x.real("f", -20, 20)
    x.assume(abs(f) > 0.05)
    q = a / f
    for t in TYPES:
        x.eq(getattr(q, t) * f, ca[t], "quotient component " + t, 1e-5)
    b, cb = mixed(x, "b")
    m = meters(cb, s)
    x.assume(abs(m) > 0.01)
    x.eq((a / b) * m, meters(ca, s), "quotient of lengths", 1e-5)


@harness(cases=["lengths", "number"])
def comparison(x, case):
    from pyx import unit
    s = setup(x)
    a, ca = mixed(x, "a")
    if case == "lengths":
        b, cb = mixed(x, "b")
    else:
        b = x.real("b", -50, 50)
        cb = dict(t=0, u=b * 0.01, v=0, w=0, x=0)
    ma, mb = meters(ca, s), meters(cb, s)
    x.assume(abs(ma - mb) > 1e-6)
    lt = a < b
    x.check(x.all([x.implies(lt, ma < mb), x.implies(x.not_(lt), ma > mb)]), "less than")
    gt = a > b
    x.check(x.all([x.implies(gt, ma > mb), x.implies(x.not_(gt), ma < mb)]), "greater than")
    le = a <= b
    x.check(x.all([x.implies(le, ma < mb), x.implies(x.not_(le), ma > mb)]), "less or equal")
    ge = a >= b
    x.check(x.all([x.implies(ge, ma > mb), x.implies(x.not_(ge), ma < mb)]), "greater or equal")
    x.check(x.not_(a == b), "not equal")
    x.check(a == a + 0 * unit.m, "equal")


@harness()
def default_settings(x):
    """set() changes only what it is given; afterwards existing lengths use the new scale factors"""
    from pyx import unit
    unit.set(uscale=1, vscale=1, wscale=1, xscale=1, defaultunit="cm")
    a, ca = mixed(x, "a")
    k = x.choice("which", "uvwx")
    f = x.real("f", 0.1, 10)
    unit.set(**{k + "scale": f})
    s = dict(t=1, u=1, v=1, w=1, x=1)
    s[k] = f
    x.eq(unit.tom(a), meters(ca, s), "one scale changed", 1e-5)
    x.eq(unit.tom(1), 0.01 * s["u"], "default unit kept", 1e-6)
    unit.set(defaultunit="inch")
    x.eq(unit.tom(a), meters(ca, s), "default unit changed", 1e-5)
    x.eq(unit.tom(1), 0.0254 * s["u"], "new default unit", 1e-6)
