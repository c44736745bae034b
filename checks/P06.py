"""Lines and Bezier curves: points, derivatives, tangents, curvature, sub curves and boxes."""
from pysym.api import harness
import lib

BOUNDS = ("all control points in [-100, 100]^2 pt and all parameters in [0, 1] (tangents: also all inner parameters of every curve); boxes: one coordinate "
          "at a time; arc lengths: curves of at most 10 pt size, precision 8..40 pt, one subdivision step")
ASSUMPTIONS = ["floats as reals", "no arc length bound for precisions which need more than one subdivision (the recursion is the same in every step)"]


def curve(x, n="", r=100):
    from pyx import normpath
    P = [(x.real("x%d%s" % (i, n), -r, r), x.real("y%d%s" % (i, n), -r, r)) for i in range(4)]
    return normpath.normcurve_pt(*[k for p in P for k in p]), P


def line(x, r=100):
    from pyx import normpath
    P = [(x.real("x%d" % i, -r, r), x.real("y%d" % i, -r, r)) for i in range(2)]
    return normpath.normline_pt(*[k for p in P for k in p]), P


def bez(P, t):
    """de Casteljau"""
    P = list(P)
    while len(P) > 1:
        P = [tuple((1-t)*a + t*b for a, b in zip(p, q)) for p, q in zip(P, P[1:])]
    return P[0]


def deriv(P):
    n = len(P) - 1
    return [tuple(n * (b - a) for a, b in zip(p, q)) for p, q in zip(P, P[1:])]


def pts(it):
    if hasattr(it, "x3_pt"):
        return [(it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt), (it.x2_pt, it.y2_pt), (it.x3_pt, it.y3_pt)]
    return [(it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt)]


def same(x, a, b, label, tol=1e-3):
    x.eq(a[0], b[0], label + " x", tol)
    x.eq(a[1], b[1], label + " y", tol)


def item(x, kind):
    return curve(x) if kind == "curve" else line(x)


@harness(cases=["curve", "line"])
def points(x, kind):
    c, P = item(x, kind)
    t, u = x.real("t", 0, 1), x.real("u", 0, 1)
    r = c.at_pt([t, u, 0, 1])
    x.check(len(r) == 4, "number of results")
    same(x, r[0], bez(P, t), "point")
    same(x, r[1], bez(P, u), "second point")
    same(x, r[2], P[0], "first point")
    same(x, r[3], P[-1], "last point")
    same(x, c.atbegin_pt(), P[0], "begin")
    same(x, c.atend_pt(), P[-1], "end")
    if kind == "curve":
        d = deriv(P)
        for f, w in (("", P), ("dot", d), ("ddot", deriv(d)), ("dddot", deriv(deriv(d)))):
            w = bez(w, t)
            x.eq(getattr(c, "x%s_pt" % f)(t), w[0], "x" + f, 1e-2)
            x.eq(getattr(c, "y%s_pt" % f)(t), w[1], "y" + f, 1e-2)


@harness(cases=[(k, w) for k in ("curve", "line") for w in ("reversed", "transformed", "begin", "end", "pathitem", "outputPS", "outputPDF", "svg", "svg font")])
def derived(x, case):
    from pyx import trafo, writer
    kind, what = case
    c, P = item(x, kind)
    before = pts(c)
    if what == "reversed":
        r, w = c.reversed(), P[::-1]
    elif what == "transformed":
        m = [[x.real("m%d%d" % (i, j), -3, 3) for j in (0, 1)] for i in (0, 1)]
        v = [x.real("v%d" % i, -50, 50) for i in (0, 1)]
        x.assume(x.any([m[0][0]*m[1][1] - m[0][1]*m[1][0] > 0.01, m[0][0]*m[1][1] - m[0][1]*m[1][0] < -0.01]))
        r = c.transformed(trafo.trafo_pt(m, v))
        w = [(m[0][0]*p[0] + m[0][1]*p[1] + v[0], m[1][0]*p[0] + m[1][1]*p[1] + v[1]) for p in P]
    elif what in ("begin", "end"):
        q = x.real("qx", -100, 100), x.real("qy", -100, 100)
        r = getattr(c, "modified%s_pt" % what)(*q)
        w = [q] + P[1:] if what == "begin" else P[:-1] + [q]
    else:
        if what == "pathitem":
            it = c.pathitem()
            f = x.BytesIO()
            it.outputPS(writer.writer(f), None)
            text = lib._text(f.getvalue())
        elif what.startswith("svg"):
            text = c.returnSVGdata(what == "svg")
        else:
            f = x.BytesIO()
            getattr(c, what)(writer.writer(f), None)
            text = lib._text(f.getvalue())
        if what.startswith("svg"):
            s = lib.svg_path(x, "M0 0" + text, lib.FLIP if what == "svg" else lib.IDENT).take()
        elif what == "outputPDF":
            s = lib.interp_pdf(x, "0 0 m\n" + text + "S\n")[0].path
        else:
            s = lib.interp_ps(x, "0 0 moveto\n" + text + "stroke\n")[0].path
        x.check([k[0] for k in s] == ["M", "C" if kind == "curve" else "L"], "operator")
        for a, b in zip(s[1][1:], P[1:]):
            same(x, a, b, what, 2e-3)
        return
    x.check(len(pts(r)) == len(w), "kind of the result")
    for a, b in zip(pts(r), w):
        same(x, a, b, what)
    for a, b in zip(pts(c), before):
        same(x, a, b, "operand unchanged")


@harness(cases=["curve", "line"])
def segments(x, kind):
    c, P = item(x, kind)
    t = [x.real("t%d" % i, 0, 1) for i in range(3)]
    r = c.segments(t)
    x.check(len(r) == 2, "number of segments")
    n = 4 if kind == "curve" else 2
    for i, s in enumerate(r):
        x.check(len(pts(s)) == n, "kind of segment")
        a, b = t[i], t[i+1]
        if kind == "line":
            w = [bez(P, a), bez(P, b)]
        else:
            # blossom of the curve
            def bl(u1, u2, u3):
                Q = P
                for u in (u1, u2, u3):
                    Q = [tuple((1-u)*e + u*f for e, f in zip(p, q)) for p, q in zip(Q, Q[1:])]
                return Q[0]
            w = [bl(a, a, a), bl(a, a, b), bl(a, b, b), bl(b, b, b)]
        for k, (p, q) in enumerate(zip(pts(s), w)):
            same(x, p, q, "segment %d point %d" % (i, k))
    for bad in ([], [0.5]):
        try:
            c.segments(bad)
            x.check(False, "too few parameters")
        except ValueError:
            x.check(True, "too few parameters")


@harness()
def split(x):
    c, P = curve(x)
    t = x.real("t", 0, 1)
    a, b = c._split(t)
    Q = P
    left, right = [P[0]], [P[3]]
    while len(Q) > 1:
        Q = [tuple((1-t)*e + t*f for e, f in zip(p, q)) for p, q in zip(Q, Q[1:])]
        left.append(Q[0])
        right.append(Q[-1])
    for i in range(4):
        same(x, pts(a)[i], left[i], "left %d" % i)
        same(x, pts(b)[i], right[::-1][i], "right %d" % i)


DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-4, 3), (-3, -4), (4, -3)]


@harness(cases=["curve", "line"] + [(d, i) for d in DIRS for i in range(2)], ob_timeout_ms=10000, deadline=100)
def tangents(x, kind):
    """rotation and trafo at a parameter: unit vector along the derivative"""
    if isinstance(kind, tuple):
        # derivative along a given direction at t
        from pyx import normpath
        d, i = kind
        s = x.real("s", 0.1, 20)
        if i:       # line
            o = x.real("x0", -50, 50), x.real("y0", -50, 50)
            P = [o, (o[0] + s*d[0], o[1] + s*d[1])]
            c = normpath.normline_pt(*[k for p in P for k in p])
            t = x.real("t", 0, 1)
        else:
            # straight curve
            o = x.real("x0", -50, 50), x.real("y0", -50, 50)
            f = [0, 0.25, 0.5, 1]
            P = [(o[0] + s*d[0]*k, o[1] + s*d[1]*k) for k in f]
            c = normpath.normcurve_pt(*[k for p in P for k in p])
            t = x.real("t", 0, 1)
        l = abs(d[0]) if not d[1] else abs(d[1]) if not d[0] else 5
        w = d[0] / l, d[1] / l
    else:
        c, P = item(x, kind)
        t = x.real("t", 0, 1)
        D = bez(deriv(P), t)
        x.assume(D[0]*D[0] + D[1]*D[1] > 1)
        w = None
    r, = c.rotation([t])
    m, = c.trafo([t])
    for q, n in ((r, "rotation"), (m, "trafo")):
        M = q.matrix
        if w is not None:
            x.eq(M[0][0], w[0], n + " cos")
            x.eq(M[1][0], w[1], n + " sin")
        else:
            x.eq(M[0][0] * D[1] - M[1][0] * D[0], 0, n + ": along the derivative", 1e-2)
            x.check(M[0][0] * D[0] + M[1][0] * D[1] > 0, n + ": forward")
        x.eq(M[0][0], M[1][1], n + ": rotation (cos)")
        x.eq(M[0][1], -M[1][0], n + ": rotation (sin)")
        x.eq(M[0][0]*M[0][0] + M[1][0]*M[1][0], 1, n + ": no scaling", 1e-3)
    same(x, m.vector, bez(P, t), "trafo: translation")
    same(x, r.vector, (0, 0), "rotation: no translation")


@harness(cases=["curve", "line"], ob_timeout_ms=20000)
def curvature(x, kind):
    c, P = item(x, kind)
    t = x.real("t", 0, 1)
    if kind == "line":
        r = c.curvature_pt([t, 0])
        x.check(len(r) == 2, "number of results")
        x.eq(r[0], 0, "curvature of a line")
        return
    d = deriv(P)
    D, DD = bez(d, t), bez(deriv(d), t)
    x.assume(D[0]*D[0] + D[1]*D[1] > 1)
    k, = c.curvature_pt([t])
    n = x.math.hypot(D[0], D[1])
    x.eq(k * n * n * n, D[0]*DD[1] - D[1]*DD[0], "curvature (left turns are positive)", 1e-2)


# control values along one axis: base + s * direction
FAMILIES = [([0, 0, 1, 1], [0, 1, 0, 0]), ([0, 0, 1, 1], [0, 1, -1, 0]), ([0, 2, -1, 1], [0, 1, 0, 1]), ([0, 1, 1, 0], [0, 0, 0, 1]),
            ([0, 1, 2, 3], [0, 0, 1, 0]), ([0, 0, 1, 0], [0, 1, 0, 0]), ([1, 0, 0, 1], [0, 1, 1, 0]), ([0, 5, -5, 0], [0, 0, 1, 1])]


@harness(cases=[(i, "x") for i in range(len(FAMILIES)) if i != 5] + [(2, "y"), (6, "y"), "degenerate"], ob_timeout_ms=15000, timeout_ms=4000, deadline=60)
def curvebox(x, case):
    """the bounding box contains all points of the curve"""
    from pyx import normpath
    if case == "degenerate":
        # quadratic coordinate functions (no cubic term)
        a, b = x.real("a", -10, 10), x.real("b", -10, 10)
        v, axis = [0, a, 2*a + b, 3*a + 3*b], "x"
    else:
        i, axis = case
        s = x.real("s", -4, 4)
        v = [e + s*f for e, f in zip(*FAMILIES[i])]
    o = [0, 1, 2, 3]
    P = list(zip(v, o)) if axis != "y" else list(zip(o, v))
    c = normpath.normcurve_pt(*[k for p in P for k in p])
    bb = c.bbox()
    lo, hi = (bb.llx_pt, bb.urx_pt) if axis != "y" else (bb.lly_pt, bb.ury_pt)
    t = x.real("t", 0, 1)
    p = bez([(k,) for k in v], t)[0]
    x.check(p <= hi + 1e-4, "maximum")
    x.check(p >= lo - 1e-4, "minimum")
    for e, n in ((bb.llx_pt if axis == "y" else bb.lly_pt, 0), (bb.urx_pt if axis == "y" else bb.ury_pt, 3)):
        x.eq(e, n, "other axis")


@harness(cases=["curve", "line"])
def controlbox(x, kind):
    c, P = item(x, kind)
    b = c.cbox()
    for k in (0, 1):
        v = [p[k] for p in P]
        lo, hi = (b.llx_pt, b.urx_pt) if k == 0 else (b.lly_pt, b.ury_pt)
        x.eq(lo, x.min(*v), "control box minimum")
        x.eq(hi, x.max(*v), "control box maximum")
    if kind == "line":
        b = c.bbox()
        for k in (0, 1):
            v = [p[k] for p in P]
            lo, hi = (b.llx_pt, b.urx_pt) if k == 0 else (b.lly_pt, b.ury_pt)
            x.eq(lo, x.min(*v), "box minimum")
            x.eq(hi, x.max(*v), "box maximum")


@harness(cases=[(v, i) for v in ("rise", "fall", "hump", "dip", "s", "one inner", "flat") for i in (0, 1)], ob_timeout_ms=20000)
def tightbox(x, case):
    """exact extrema for families of curves with known ones"""
    from pyx import normpath
    fam, ax = case
    o = x.real("o", -50, 50)
    h = x.real("h", 0.5, 50)
    f = {"rise": [0, 0.25, 0.75, 1], "fall": [1, 0.5, 0.5, 0], "hump": [0, 1, 1, 0], "dip": [1, 0, 0, 1], "s": [0, 1, -1, 0],
         "one inner": [0, 0, 1, 0], "flat": [1, 1, 1, 1]}[fam]
    s3 = 3 ** 0.5 / 6
    ex = {"rise": (0, 1), "fall": (0, 1), "hump": (0, 0.75), "dip": (0.25, 1), "s": (-s3, s3), "one inner": (0, 4.0/9), "flat": (1, 1)}[fam]
    v = [o + h*k for k in f]
    u = [0, 1, 2, 3]
    P = list(zip(v, u)) if ax == 0 else list(zip(u, v))
    c = normpath.normcurve_pt(*[k for p in P for k in p])
    b = c.bbox()
    lo, hi = (b.llx_pt, b.urx_pt) if ax == 0 else (b.lly_pt, b.ury_pt)
    x.eq(lo, o + h*ex[0], "minimum", 1e-3)
    x.eq(hi, o + h*ex[1], "maximum", 1e-3)


@harness(cases=DIRS)
def linelength(x, d):
    from pyx import normpath
    o = x.real("x0", -50, 50), x.real("y0", -50, 50)
    s = x.real("s", 0.1, 20)
    l = (abs(d[0]) if not d[1] else abs(d[1]) if not d[0] else 5) * s
    c = normpath.normline_pt(o[0], o[1], o[0] + s*d[0], o[1] + s*d[1])
    x.eq(c.arclen_pt(1e-5), l, "length")
    x.eq(c.arclen_pt(1e-5, upper=True), l, "upper bound")
    a = [x.real("a%d" % i, -20, 120) for i in range(2)]
    p = c.arclentoparam_pt(a, 1e-5)
    for i in range(2):
        x.eq(p[i] * l, a[i], "parameter at arc length", 1e-3)
    t = [x.real("t%d" % i, 0, 1) for i in range(2)]
    r, total = c._paramtoarclen_pt(t, 1e-5)
    x.eq(total, l, "total length")
    for i in range(2):
        x.eq(r[i], t[i] * l, "arc length at parameter", 1e-3)


SHAPES = [[(0, 0), (4, 0), (4, 3), (8, 3)], [(0, 0), (0, 3), (4, 3), (4, 0)], [(0, 0), (3, 4), (0, 4), (3, 0)]]


def truelength(P):
    """Simpson"""
    import math
    d = deriv(P)
    n = 2000
    f = [math.hypot(*bez(d, i/n)) for i in range(n + 1)]
    return sum((f[2*i] + 4*f[2*i+1] + f[2*i+2]) / 3 / n for i in range(n//2))


@harness(cases=[("bounds", i, e) for i in range(2) for e in (2, 4)] + ["straight", "flat"],
         thorough=[("bounds", 2, 2), ("bounds", 2, 4), ("bounds", 0, 1), ("bounds", 1, 1)], ob_timeout_ms=30000, deadline=100)
def curvelength(x, kind):
    from pyx import normpath
    if isinstance(kind, tuple):
        _, i, eps = kind
        s = x.real("s", 0.1, 1)
        c = normpath.normcurve_pt(*[k*s for p in SHAPES[i] for k in p])
        lo, up = c.arclen_pt(eps), c.arclen_pt(eps, upper=True)
        L = truelength(SHAPES[i])
        x.le(lo, s * L, "lower bound", 1e-4)
        x.le(s * L, up, "upper bound", 1e-4)
        x.le(up - lo, 2*eps, "precision")
        t = 0.5 if i < 2 else 0.25
        r, total = c._paramtoarclen_pt([t], eps)
        x.le(abs(total - s * L), 2*eps, "total length")
        half = truelength([bez(SHAPES[i][:1], 0)] + [bez(SHAPES[i][:k], t) for k in (2, 3, 4)])
        x.le(abs(r[0] - s * half), 2*eps, "arc length at parameter")
    elif kind == "straight":
        # equally spaced control points: the parameter is proportional to the arc length
        o = x.real("x0", -50, 50), x.real("y0", -50, 50)
        L = 48
        c = normpath.normcurve_pt(*[k for i in range(4) for k in (o[0] + L*i/3, o[1])])
        x.eq(c.arclen_pt(1e-3), L, "length")
        x.eq(c.arclen_pt(1e-3, upper=True), L, "upper bound")
        a = x.real("l", 0, 48)
        p, = c.arclentoparam_pt([a], 1e-3)
        x.eq(p * L, a, "parameter at arc length", 1e-3)
        t = x.real("t", 0, 1)
        r, total = c._paramtoarclen_pt([t], 1e-3)
        x.eq(total, L, "total length", 1e-2)
        x.eq(r[0], t * L, "arc length at parameter", 1e-2)
    else:
        # uneven control points on a line: s(t) is the coordinate
        u, v = x.real("u", 0, 8), x.real("v", 8, 16)
        c = normpath.normcurve_pt(0, 0, u, 0, v, 0, 16, 0)
        x.eq(c.arclen_pt(1e-3), 16, "length")
        t = x.real("t", 0.05, 0.95)
        r, total = c._paramtoarclen_pt([t], 1e-3)
        x.eq(total, 16, "total length", 1e-2)
        x.eq(r[0], bez([(0,), (u,), (v,), (16,)], t)[0], "arc length at parameter", 1e-2)
