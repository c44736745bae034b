"""Bounding boxes of paths."""
import math
from pysym.api import harness
import lib

BOUNDS = ("paths of up to 6 construction operators in 12 structural patterns, all coordinates in [-500, 500] pt; curves: 4 shapes of control points per "
          "coordinate (0, 1 or 2 inner extrema), all positions and sizes; arcs: all centers, radii in [0.1, 50], all pairs of angles in (-360, 360) degrees (thorough: (-630, 630))")
ASSUMPTIONS = ["floats as reals", "the range of cos on an interval of angles is that of its ends and of the multiples of 180 degrees in it",
               "curves with arbitrary control points are in P06"]

PATTERNS = ["m l l", "m rl rl rl", "m l m l", "m l l z rl", "m l rm rl", "m rm l z rm rl", "M3", "m M3 rl", "m", "m l z rm rl"]


def box(x, b, exp, label, tol=1e-3):
    got = b.left_pt(), b.bottom_pt(), b.right_pt(), b.top_pt()
    for g, e, n in zip(got, exp, ("left", "bottom", "right", "top")):
        x.eq(g, e, "%s %s" % (label, n), tol)


def hull(x, pts):
    return (x.min([p[0] for p in pts]) if len(pts) > 1 else pts[0][0], x.min([p[1] for p in pts]) if len(pts) > 1 else pts[0][1],
            x.max([p[0] for p in pts]) if len(pts) > 1 else pts[0][0], x.max([p[1] for p in pts]) if len(pts) > 1 else pts[0][1])


def lo(x, *v):
    r = v[0]
    for k in v[1:]:
        r = x.ite(k < r, k, r)
    return r


def hi(x, *v):
    r = v[0]
    for k in v[1:]:
        r = x.ite(k > r, k, r)
    return r


def hullof(x, pts):
    return lo(x, *[p[0] for p in pts]), lo(x, *[p[1] for p in pts]), hi(x, *[p[0] for p in pts]), hi(x, *[p[1] for p in pts])


@harness(cases=[(p, u) for p in PATTERNS for u in (0, 1)])
def lines(x, case):
    from pyx import path, unit
    pattern, u = case
    n = 0
    items, pts, cur, start = [], [], None, None

    def pt(r=500):
        nonlocal n
        n += 1
        return x.real("x%d" % n, -r, r), x.real("y%d" % n, -r, r)

    def mk(name, *p):
        args = [k for q in p for k in q]
        return getattr(path, name)(*[k * unit.t_pt for k in args]) if u else getattr(path, name + "_pt")(*args)
    for t in ("m " + pattern if pattern[0] == "M" else pattern).split():
        if t == "z":
            items.append(path.closepath())
            cur = start
            continue
        if t == "M3":
            q = [pt() for i in range(3)]
            items.append(path.multilineto_pt(q))
            pts += q
            cur = q[-1]
            continue
        p = pt()
        if t[0] == "r":
            items.append(mk({"rl": "rlineto", "rm": "rmoveto"}[t], p))
            cur = cur[0] + p[0], cur[1] + p[1]
        else:
            items.append(mk({"l": "lineto", "m": "moveto"}[t], p))
            cur = p
        if t[-1] == "m":
            start = cur
        pts.append(cur)
    p = path.path(*items)
    box(x, p.bbox(), hullof(x, pts), "box")


# control points with inner extrema at rational parameters
SHAPES = {"S": (0, 3, -2, 1), "mono": (0, 1, 2, 3), "bump": (0, 4, 4, 0), "late": (0, -1, -1, 3), "linear": (0, 2, 2, 0), "const": (2, 2, 2, 2)}


def extent(s):
    v = [((1-t)**3 * s[0] + 3*t*(1-t)**2 * s[1] + 3*t*t*(1-t) * s[2] + t**3 * s[3]) for t in roots(s)]
    return min(v), max(v)


def roots(s):
    a, b, c = s[3] - 3*s[2] + 3*s[1] - s[0], 2*s[0] - 4*s[1] + 2*s[2], s[1] - s[0]
    r = [0, 1]
    if a:
        d = b*b - 4*a*c
        if d >= 0:
            r += [(-b + q*math.sqrt(d)) / (2*a) for q in (1, -1)]
    elif b:
        r.append(-c/b)
    return [t for t in r if 0 <= t <= 1]


OPS = ["curveto", "curveto_pt", "rcurveto", "rcurveto_pt", "multicurveto_pt", "curve_pt", "curve", "normpath", "line+rcurveto_pt", "line+multi"]


@harness(cases=[(o, sx, sy) for i, o in enumerate(OPS) for sx, sy in [("S", "bump"), ("late", "S"), ("mono", "late")][i % 3:] + [("bump", "mono")]],
         thorough=[(o, sx, sy) for o in OPS for sx in SHAPES for sy in SHAPES if sx != sy])
def curves(x, case):
    from pyx import path, unit
    op, sx, sy = case
    sx, sy = SHAPES[sx], SHAPES[sy]
    k, l = x.real("k", -50, 50), x.real("l", -50, 50)
    x.assume(x.any([k > 0.1, k < -0.1]))
    x.assume(x.any([l > 0.1, l < -0.1]))
    k, l = (k if k > 0 else k), (l if l > 0 else l)
    o = x.real("ox", -100, 100), x.real("oy", -100, 100)
    P = [(o[0] + k*a, o[1] + l*b) for a, b in zip(sx, sy)]
    ex, ey = extent(sx), extent(sy)
    E = [o[0] + k*e for e in ex], [o[1] + l*e for e in ey]
    exp = lo(x, *E[0]), lo(x, *E[1]), hi(x, *E[0]), hi(x, *E[1])
    flat = [c for p in P[1:] for c in p]
    rel = [c for p in P[1:] for c in (p[0] - P[0][0], p[1] - P[0][1])]
    m = path.moveto_pt(*P[0])
    if op == "curveto":
        p = path.path(m, path.curveto(*[c * unit.t_pt for c in flat]))
    elif op == "curveto_pt":
        p = path.path(m, path.curveto_pt(*flat))
    elif op == "rcurveto":
        p = path.path(m, path.rcurveto(*[c * unit.t_pt for c in rel]))
    elif op == "rcurveto_pt":
        p = path.path(m, path.rcurveto_pt(*rel))
    elif op == "multicurveto_pt":
        p = path.path(m, path.multicurveto_pt([tuple(flat)]))
    elif op == "curve_pt":
        p = path.curve_pt(*(list(P[0]) + flat))
    elif op == "curve":
        p = path.curve(*[c * unit.t_pt for c in list(P[0]) + flat])
    elif op == "normpath":
        p = path.path(m, path.curveto_pt(*flat)).normpath(epsilon=None)
    else:
        # following a line; and followed by a relative line from its end point
        q = x.real("qx", -100, 100), x.real("qy", -100, 100)
        r = x.real("rx", -100, 100), x.real("ry", -100, 100)
        c = path.rcurveto_pt(*rel) if op == "line+rcurveto_pt" else path.multicurveto_pt([tuple(flat)])
        p = path.path(path.moveto_pt(*q), path.lineto_pt(*P[0]), c, path.rlineto_pt(*r))
        e = P[3][0] + r[0], P[3][1] + r[1]
        exp = lo(x, exp[0], q[0], e[0]), lo(x, exp[1], q[1], e[1]), hi(x, exp[2], q[0], e[0]), hi(x, exp[3], q[1], e[1])
    box(x, p.bbox(), exp, "box")


def arcbox(x, c, r, a, b):
    """a <= b degrees"""
    pts = [(c[0] + r*x.math.cos(x.math.radians(v)), c[1] + r*x.math.sin(x.math.radians(v))) for v in (a, b)]

    def has(deg):
        return x.any([x.all([a <= deg + 360*k, deg + 360*k <= b]) for k in range(-5, 9)])
    return (x.ite(has(180), c[0] - r, lo(x, pts[0][0], pts[1][0])), x.ite(has(270), c[1] - r, lo(x, pts[0][1], pts[1][1])),
            x.ite(has(0), c[0] + r, hi(x, pts[0][0], pts[1][0])), x.ite(has(90), c[1] + r, hi(x, pts[0][1], pts[1][1])))


def away(x, *angles):
    """not within 0.01 degrees of a multiple of 90 degrees"""
    for a in angles:
        for k in range(-12, 13):
            x.assume(x.any([a < 90*k - 0.01, a > 90*k + 0.01]))


ARC = [(d, q1, q2) for d in ("arc", "arcn") for q1 in range(-4, 4) for q2 in range(-4, 4)]


@harness(cases=ARC, thorough=[(d, q1, q2) for d in ("arc", "arcn") for q1 in range(-7, 7) for q2 in range(-7, 7) if (d, q1, q2) not in ARC], deadline=120)
def arcs(x, case):
    """first angle in quadrant q1, second in q2"""
    from pyx import path
    d, q1, q2 = case
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    r = x.real("r", 0.1, 50)
    a1 = x.angle("a1", 90*q1, 90*q1 + 90)
    if q1 == q2:
        a2 = x.angle("a2", 90*q2, 90*q2 + 90)
        x.assume(x.any([a2 - a1 > 0.01, a1 - a2 > 0.01]))
    else:
        a2 = x.angle("a2", 90*q2, 90*q2 + 90)
    away(x, a1, a2)
    if (q1 - q2) % 4 == 0:
        # sine and cosine are monotonic within a quadrant
        sh = 90 * (q1 - q2)
        x.assume(x.any([a1 - a2 - sh > 0.01, a2 + sh - a1 > 0.01]))
        for f, up in ((x.math.cos, q1 % 4 in (2, 3)), (x.math.sin, q1 % 4 in (0, 3))):
            u, v = f(x.math.radians(a1)), f(x.math.radians(a2))
            x.assume(x.implies(a1 < a2 + sh, u < v if up else v < u))
            x.assume(x.implies(a2 + sh < a1, v < u if up else u < v))
    p = path.path(getattr(path, d + "_pt")(c[0], c[1], r, a1, a2))
    s, e = (a1, a2) if d == "arc" else (a2, a1)
    # counterclockwise from s to e
    if e < s:
        e = e + 360
        if e < s:
            e = e + 360
    box(x, p.bbox(), arcbox(x, c, r, s, e), d)


@harness(cases=[(d, n) for d in ("arc", "arcn") for n in (1, 2)])
def fullarcs(x, case):
    """at least one full turn"""
    from pyx import path
    d, n = case
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    r = x.real("r", 0.1, 50)
    a1 = x.angle("a1", 0, 90)
    a2 = x.angle("a2", 0, 90)
    x.assume(a1 + 0.01 < a2)
    away(x, a1, a2)
    A = (a1, a2 + 360*n) if d == "arc" else (a2 + 360*n, a1)
    p = path.path(getattr(path, d + "_pt")(c[0], c[1], r, *A))
    box(x, p.bbox(), (c[0] - r, c[1] - r, c[0] + r, c[1] + r), d)


@harness(cases=[(d, w) for d in ("arc", "arcn") for w in ("first", "line", "rel", "closed")])
def arccontext(x, case):
    """arcs within a path: connecting line, and continuing from their end or start"""
    from pyx import path
    d, where = case
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    r = x.real("r", 0.1, 50)
    a1 = x.angle("a1", 0, 90)
    a2 = x.angle("a2", 90, 180)
    away(x, a1, a2)
    A = (a1, a2) if d == "arc" else (a2, a1)
    on = lambda v: (c[0] + r*x.math.cos(x.math.radians(v)), c[1] + r*x.math.sin(x.math.radians(v)))
    arc = getattr(path, d + "_pt")(c[0], c[1], r, *A)
    e = arcbox(x, c, r, a1, a2)
    q = x.real("qx", -100, 100), x.real("qy", -100, 100)
    v = x.real("vx", -100, 100), x.real("vy", -100, 100)
    first, last = on(A[0]), on(A[1])
    add = lambda p, w: (p[0] + w[0], p[1] + w[1])
    if where == "first":
        p, pts = path.path(arc, path.rlineto_pt(*v)), [add(last, v)]
    elif where == "line":
        p, pts = path.path(path.moveto_pt(*q), arc, path.rlineto_pt(*v)), [q, add(last, v)]
    elif where == "rel":
        p, pts = path.path(path.moveto_pt(0, 0), path.rlineto_pt(*q), arc, path.rmoveto_pt(*v)), [(0, 0), q, add(last, v)]
    else:
        p, pts = path.path(arc, path.closepath(), path.rlineto_pt(*v)), [add(first, v)]
    exp = (lo(x, e[0], *[k[0] for k in pts]), lo(x, e[1], *[k[1] for k in pts]), hi(x, e[2], *[k[0] for k in pts]), hi(x, e[3], *[k[1] for k in pts]))
    box(x, p.bbox(), exp, where)


@harness(cases=["rect_pt", "rect", "line_pt", "line", "circle_pt", "circle", "empty", "normpath", "twosub"])
def shapes(x, name):
    from pyx import path, unit, bbox
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    v = x.real("vx", -100, 100), x.real("vy", -100, 100)
    mk = lambda n, *a: getattr(path, n)(*[k * unit.t_pt for k in a]) if not n.endswith("_pt") else getattr(path, n)(*a)
    e = c[0] + v[0], c[1] + v[1]
    if name.startswith("rect"):
        p, exp = mk(name, c[0], c[1], v[0], v[1]), hullof(x, [c, e])
    elif name.startswith("line"):
        p, exp = mk(name, c[0], c[1], e[0], e[1]), hullof(x, [c, e])
    elif name.startswith("circle"):
        r = x.real("r", 0.1, 50)
        p, exp = mk(name, c[0], c[1], r), (c[0] - r, c[1] - r, c[0] + r, c[1] + r)
    elif name == "empty":
        p = path.path()
        b = p.bbox()
        b += bbox.bbox_pt(c[0], c[1], c[0] + 1, c[1] + 1)
        box(x, b, (c[0], c[1], c[0] + 1, c[1] + 1), "empty is neutral")
        return
    elif name == "normpath":
        w = x.real("wx", -100, 100), x.real("wy", -100, 100)
        p = path.path(path.moveto_pt(*c), path.lineto_pt(*e), path.lineto_pt(*w)).normpath(epsilon=None)
        exp = hullof(x, [c, e, w])
    else:
        w = x.real("wx", -100, 100), x.real("wy", -100, 100)
        p = (path.line_pt(*(c + e)) + path.line_pt(w[0], w[1], w[0] + 20, w[1] - 30)).normpath(epsilon=None)
        exp = hullof(x, [c, e, w, (w[0] + 20, w[1] - 30)])
    box(x, p.bbox(), exp, name, 2e-3 if name == "circle" else 1e-3)
