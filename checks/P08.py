"""Intersections of lines, curves and paths."""
from pysym.api import harness
import lib

BOUNDS = ("lines: all positions with crossing parameters in [0.02, 0.98], at the ends, beyond the ends, and parallel; paths: 8 shapes of one or two subpaths with "
          "symbolic segment lengths and positions, up to 4 intersections; curves: straight ones at full precision, and curves of 20..40 pt with a "
          "precision of 1 pt cut by lines at all offsets")
ASSUMPTIONS = ["floats as reals", "the parameter on a nearly straight piece of a curve is the root of its cubic (mathutils.realpolyroots by contract: its trigonometric solution of cubics is not encoded)"]
EPS = 1e-5


def same(x, a, b, label, tol=1e-3):
    x.eq(a[0], b[0], label + " x", tol)
    x.eq(a[1], b[1], label + " y", tol)


def L(p, q):
    from pyx import normpath
    return normpath.normline_pt(p[0], p[1], q[0], q[1])


DIRS = [((1, 0), (0, 1)), ((1, 0), (3, 4)), ((3, 4), (-4, 3)), ((0, -1), (4, 3)), ((-3, 4), (12, 5))]


@harness(cases=[(i, w) for i in range(len(DIRS)) for w in ("cross", "touch begin", "touch end", "short of", "beyond", "other beyond")])
def crossing(x, case):
    """lines along fixed directions, crossing point at all relative positions"""
    i, where = case
    u, v = DIRS[i]
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    # line a runs from c - a0*u to c + a1*u
    b0, b1 = x.real("b0", 0.5, 20), x.real("b1", 0.5, 20)
    a0, a1 = x.real("a0", 0.5, 20), x.real("a1", 0.5, 20)
    if where == "touch begin":
        a0 = 0
    elif where == "touch end":
        a1 = 0
    elif where == "short of":
        a1 = -0.01
    elif where == "beyond":
        a0 = -0.01
    elif where == "other beyond":
        b0 = -0.01
    pt = lambda d, s: (c[0] + d[0]*s, c[1] + d[1]*s)
    a, b = L(pt(u, -a0), pt(u, a1)), L(pt(v, -b0), pt(v, b1))
    r = a.intersect(b, EPS)
    if where in ("cross", "touch begin", "touch end"):
        x.check(len(r) == 1, "number of intersections", len(r))
        (s, t), = r
        x.eq(s * (a0 + a1), a0, "parameter", 1e-3)
        x.eq(t * (b0 + b1), b0, "other parameter", 1e-3)
    else:
        x.check(len(r) == 0, "no intersection", len(r))


SHAPES = [((10, 0), (0, 15)), ((10, 0), (3, 14)), ((8, 6), (-5, 12)), ((0, -20), (7, 1)), ((10, 0), (12, 0)), ((10, 0), (20, .5))]


@harness(cases=list(range(len(SHAPES))), deadline=140, max_paths=100, simplify=True, eager=True)
def sound(x, i):
    """for all positions of two lines: whatever is reported is a common point, and lines with a common point are reported"""
    u, v = SHAPES[i]
    p = (x.real("px", -20, 20), x.real("py", -20, 20))
    s = (2, -3)
    q, t = (p[0] + u[0], p[1] + u[1]), (s[0] + v[0], s[1] + v[1])
    eps = 1e-3
    r = L(p, q).intersect(L(s, t), eps)
    x.check(len(r) <= 1, "at most one")
    for a, b in r:
        x.check(x.all([0 <= a, a <= 1, 0 <= b, b <= 1]), "parameter range")
        same(x, (p[0] + u[0]*a, p[1] + u[1]*a), (s[0] + v[0]*b, s[1] + v[1]*b), "common point", 2.5*eps)
    det = u[0]*v[1] - u[1]*v[0]
    if not r and det:
        # a*u - b*v = s - p
        w = s[0] - p[0], s[1] - p[1]
        a, b = (w[0]*v[1] - w[1]*v[0]) / det, (w[0]*u[1] - w[1]*u[0]) / det
        x.check(x.not_(x.all([0 <= a, a <= 1, 0 <= b, b <= 1])), "missed intersection")


PARALLEL = ["overlap", "overlap reversed", "inside", "around", "touch", "touch reversed", "apart", "beside"]


@harness(cases=[(w, k) for w in PARALLEL for k in ("h", "d")])
def parallel(x, case):
    where, kind = case
    d = (1, 0) if kind == "h" else (3, 4)
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    l, a, b = x.real("l", 1, 20), x.real("a", 0.1, 0.4), x.real("b", 0.6, 0.9)
    lo, hi = {"overlap": (a*l, l + 1), "overlap reversed": (l + 1, a*l), "inside": (a*l, b*l), "around": (-1, l + 1), "touch": (l, l + 2), "touch reversed": (-2, 0),
              "apart": (l + 0.01, l + 3), "beside": (a*l, b*l)}[where]
    n = (-d[1], d[0]) if where == "beside" else (0, 0)
    pt = lambda s, k=0: (c[0] + d[0]*s + n[0]*k, c[1] + d[1]*s + n[1]*k)
    A, B = L(pt(0), pt(l)), L(pt(lo, 0.01), pt(hi, 0.01))
    r = A.intersect(B, EPS)
    if where in ("apart", "beside"):
        x.check(len(r) == 0, "no intersection", len(r))
    else:
        x.check(len(r) == 1, "one intersection", len(r))
        (s, t), = r
        x.check(x.all([0 <= s, s <= 1, 0 <= t, t <= 1]), "parameter range")
        x.eq(s * l, lo + (hi - lo) * t, "common point", 1e-3)


@harness(cases=["self", "other", "both", "self far", "other far", "both far"])
def short(x, case):
    """lines shorter than the precision count as their middle point"""
    which = case.split()[0]
    eps = 1
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    d = x.real("dx", -0.3, 0.3), x.real("dy", -0.3, 0.3)
    S = L((c[0] - d[0], c[1] - d[1]), (c[0] + d[0], c[1] + d[1]))
    o = (0.2, 0.3) if not case.endswith("far") else (1.2, 1.3)
    if which == "both":
        q = c[0] + o[0], c[1] + o[1]
        # parallel to it
        A, B = S, L((q[0] - 0.1, q[1]), (q[0] + 0.1, q[1]))
    else:
        # (almost) parallel and long
        x.assume(x.all([d[1] < 0.001, d[1] > -0.001]))
        T = L((c[0] - 20, c[1] + o[1]), (c[0] + 30, c[1] + o[1]))
        A, B = (S, T) if which == "self" else (T, S)
    r = A.intersect(B, eps)
    if case.endswith("far"):
        x.check(len(r) == 0, "no intersection", len(r))
        return
    x.check(len(r) == 1, "one intersection", len(r))
    (s, t), = r
    P = lambda l, t: (l.x0_pt + (l.x1_pt - l.x0_pt)*t, l.y0_pt + (l.y1_pt - l.y0_pt)*t)
    if which != "both":
        a, b = P(A, s), P(B, t)
        x.le(a[0] - b[0], eps, "common point x")
        x.le(b[0] - a[0], eps, "common point x")
        x.le(a[1] - b[1], eps, "common point y")
        x.le(b[1] - a[1], eps, "common point y")
    if which == "self" or which == "both":
        x.eq(s, 0.5, "middle")
    if which == "other" or which == "both":
        x.eq(t, 0.5, "middle")


def poly(*pts, closed=False):
    from pyx import path
    it = [path.moveto_pt(*pts[0])] + [path.lineto_pt(*p) for p in pts[1:]]
    if closed:
        it.append(path.closepath())
    return path.path(*it)


def common(x, A, B, r, exp, label="", tol=1e-3):
    """r: pair of lists of parameters; exp: points in the order along A"""
    ra, rb = r
    x.check(len(ra) == len(exp) and len(rb) == len(exp), label + "number of intersections", (len(ra), len(rb), len(exp)))
    for a, b, e in zip(ra, rb, exp):
        same(x, a.normpath.at_pt(a), e, label + "point on the first path", tol)
        same(x, b.normpath.at_pt(b), e, label + "point on the second path", tol)


COMB = ["comb", "comb reversed", "comb closed", "comb two"]


@harness(cases=[(s, how) for s in COMB for how in ("path", "normpath", "swapped")], simplify=True, eager=True)
def several(x, case):
    """a vertical line crosses a comb of horizontal lines"""
    shape, how = case
    o = 3, -4
    if how == "normpath":
        h, w = [7, 5, 9], x.real("w", 10, 60)
    else:
        h, w = [x.real("h%d" % i, 1, 20) for i in range(3)], 40
    y = [o[1], o[1] + h[0], o[1] + h[0] + h[1], o[1] + h[0] + h[1] + h[2]]
    l, r = o[0], o[0] + w
    if shape == "comb two":
        A = poly((l, y[0]), (r, y[0])) + poly((r, y[2]), (l, y[2]), (l, y[3]), (r, y[3]))
        ys = [y[0], y[2], y[3]]
    else:
        A = poly((l, y[0]), (r, y[0]), (r, y[1]), (l, y[1]), (l, y[2]), (r, y[2])) if shape != "comb closed" else poly((l, y[0]), (r, y[0]), (r, y[1]), (l, y[1]), closed=True)
        ys = [y[0], y[1], y[2]] if shape != "comb closed" else [y[0], y[1]]
    xx = x.real("xx", 4, 62)
    x.assume(xx < r - 1)
    v = (xx, -20), (xx, 80)
    B = poly(*(v[::-1] if "reversed" in shape else v))
    if how == "normpath":
        A, B = A.normpath(), B.normpath()
    exp = [(xx, k) for k in ys]
    if how == "swapped":
        A, B = B, A
        if "reversed" in shape:
            exp = exp[::-1]
    res = A.intersect(B)
    common(x, A, B, res, exp)
    # parameters come in ascending order along the first path
    s = [p.normpath.paramtoarclen_pt(p) for p in res[0]]
    for a, b in zip(s, s[1:]):
        x.check(a < b, "order along the first path")


@harness(cases=["vertex", "vertex of both", "start of closed", "end", "closed vertex", "two vertices"], simplify=True, eager=True)
def vertices(x, shape):
    """intersections at common end points of items are reported once"""
    a, b = x.real("a", 5, 40), x.real("b", 5, 40)
    o = x.real("ox", -20, 20), x.real("oy", -20, 20)
    P = lambda u, v: (o[0] + u, o[1] + v)
    if shape == "vertex":
        A = poly(P(-a, 0), P(0, 0), P(0, a))
        B = poly(P(-b, b), P(b, -b))
        exp = [P(0, 0)]
    elif shape == "vertex of both":
        A = poly(P(-a, 0), P(0, 0), P(0, a))
        B = poly(P(-b, b), P(0, 0), P(b, -b))
        exp = [P(0, 0)]
    elif shape == "start of closed":
        A = poly(P(0, 0), P(a, 0), P(a, b), P(0, b), closed=True)
        B = poly(P(-3, 3), P(3, -3))
        exp = [P(0, 0)]
    elif shape == "closed vertex":
        A = poly(P(0, 0), P(a, 0), P(a, b), P(0, b), closed=True)
        B = poly(P(a - 3, -3), P(a + 3, 3))
        exp = [P(a, 0)]
    elif shape == "two vertices":
        A = poly(P(0, 0), P(a, 0), P(a, a), P(0, a), closed=True)
        B = poly(P(-2, -2), P(a + 2, a + 2))
        exp = [P(0, 0), P(a, a)]
    else:
        A = poly(P(-a, 0), P(0, 0))
        B = poly(P(0, -b), P(0, 0), P(b, b))
        exp = [P(0, 0)]
    common(x, A, B, A.intersect(B), exp)


@harness(cases=["lines", "parallel", "boxes"])
def disjoint(x, kind):
    a, b, g = x.real("a", 5, 40), x.real("b", 5, 40), x.real("g", 0.01, 10)
    if kind == "boxes":
        A = poly((0, 0), (a, 0), (a, b), (0, b), closed=True)
        B = poly((g/3, g/3), (a - g/3, g/3), (a - g/3, b - g/3), (g/3, b - g/3), closed=True)
        x.assume(g < 6)
    elif kind == "parallel":
        A, B = poly((0, 0), (a, a)), poly((g, 0), (a + g, a), (a + g, a + b))
    else:
        A, B = poly((0, 0), (a, 0), (a, b)), poly((0, g), (a - g, g), (a - g, b))
        x.assume(g < 4)
    r = A.intersect(B)
    x.check(len(r[0]) == 0 and len(r[1]) == 0, "no intersection", (len(r[0]), len(r[1])))


@harness(cases=["split", "indices"], simplify=True, eager=True)
def usage(x, what):
    """intersection parameters are parameters of the paths"""
    a, b, c = x.real("a", 5, 40), x.real("b", 5, 40), x.real("c", 0.1, 0.9)
    A = (poly((-50, -50), (-50, -60)) + poly((0, 0), (a, 0), (a, b))).normpath()
    B = (poly((a - 3, c*b), (a + 4, c*b)) + poly((c*a, -2), (c*a, 3))).normpath()
    ra, rb = A.intersect(B)
    x.check(len(ra) == 2 and len(rb) == 2, "number of intersections")
    if what == "indices":
        x.check([p.normsubpathindex for p in ra] == [1, 1], "subpaths of the first path")
        x.check(all(p.normpath is A for p in ra) and all(p.normpath is B for p in rb), "paths of the parameters")
        x.check(sorted(p.normsubpathindex for p in rb) == [0, 1], "subpaths of the second path")
        for p, q in zip(ra, rb):
            same(x, A.at_pt(p), B.at_pt(q), "common point")
            e = (c*a, 0) if q.normsubpathindex == 1 else (a, c*b)
            same(x, A.at_pt(p), e, "point")
    else:
        ps = sorted(ra)
        parts = A.split(ps)
        x.check(len(parts) == 3, "number of pieces")
        same(x, parts[0].atend_pt(), (c*a, 0), "first piece end")
        same(x, parts[1].atbegin_pt(), (c*a, 0), "second piece begin")
        same(x, parts[1].atend_pt(), (a, c*b), "second piece end")
        same(x, parts[2].atbegin_pt(), (a, c*b), "third piece begin")


@harness(cases=[("line", "h"), ("line", "d"), ("curve", "h"), ("swapped", "h")], deadline=140, simplify=True, eager=True)
def straightcurve(x, case):
    """a straight curve behaves like a line"""
    from pyx import path
    kind, d = case
    c = x.real("c", 2, 46)
    # (a crossing exactly a precision away from where the curve is cut in halves may count twice)
    x.assume(x.any([c < 24 - 1e-3, c > 24 + 1e-3]))
    g, k = 6, 7
    d = (1, 0) if d == "h" else (3, 4)
    n = (-d[1], d[0])
    o = 3, -4
    P = lambda s, t=0: (o[0] + d[0]*s + n[0]*t, o[1] + d[1]*s + n[1]*t)
    A = path.curve_pt(*[v for i in range(4) for v in P(16*i)])
    if kind == "curve":
        B = path.curve_pt(*[v for i in range(4) for v in P(c, -g + (g + k)*i/3)])
    else:
        B = path.line_pt(*(P(c, -g) + P(c, k)))
    r = B.intersect(A) if kind == "swapped" else A.intersect(B)
    common(x, A, B, r, [P(c)], tol=2e-3)


ARCH = [(0, 0), (0, 20), (40, 20), (40, 0)]
QUARTER = [(0, 20), (11, 20), (20, 11), (20, 0)]
WAVE = [(0, 0), (15, 30), (25, -30), (40, 0)]


def bez(P, t):
    P = list(P)
    while len(P) > 1:
        P = [tuple((1-t)*a + t*b for a, b in zip(p, q)) for p, q in zip(P, P[1:])]
    return P[0]


@harness(cases=[("arch", "v"), ("arch", "h"), ("quarter", "v"), ("quarter", "h"), ("arch", "v", 4), ("wave", "h")],
         thorough=[(s, d, e) for s in ("arch", "quarter", "wave") for d in "vh" for e in (2, .5)] + [("wave", "v")], deadline=140, max_paths=200, simplify=True, eager=True, observe=False)
def curvedline(x, case):
    """reported points of curves and lines coincide within the precision, and all crossings are found"""
    from pyx import normpath
    lib.roots_by_contract(x)
    shape, d = case[:2]
    P = dict(arch=ARCH, quarter=QUARTER, wave=WAVE)[shape]
    eps = case[2] if len(case) == 3 else 1
    lo, hi = {"archv": (2, 38), "quarterv": (2, 18), "wavev": (2, 38), "archh": (2, 13), "quarterh": (2, 18), "waveh": (-3, 3)}[shape + d]
    c = x.real("c", lo, hi)
    A = normpath.normcurve_pt(*[k for p in P for k in p])
    B = normpath.normline_pt(*((c, -40, c, 40) if d == "v" else (-10, c, 60, c)))
    how = x.choice("how", ["curve", "line"])
    r = A.intersect(B, eps) if how == "curve" else [(a, b) for b, a in B.intersect(A, eps)]
    want = 2 if shape == "arch" and d == "h" else 1 if shape != "wave" or d == "v" else None
    if want is None:
        x.check(len(r) >= 1, "at least one intersection", len(r))
    else:
        # closer ones than the precision may be reported several times here
        x.check(len(r) >= want, "number of intersections", len(r))
    sides = [0, 0]
    for p, q in r:
        x.check(x.all([0 <= p, p <= 1, 0 <= q, q <= 1]), "parameter range")
        a, b = A.at_pt([p])[0], B.at_pt([q])[0]
        x.eq(a[0], b[0], "common x", 2*eps)
        x.eq(a[1], b[1], "common y", 2*eps)
        if want == 2:
            sides[0 if a[0] < 20 else 1] += 1
    if want == 2:
        x.check(sides[0] > 0 and sides[1] > 0, "both crossings")
