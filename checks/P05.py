"""Path construction operators describe the same geometry in PostScript, PDF, SVG and as normalized path."""
from pysym.api import harness
import lib

BOUNDS = ("paths of up to 6 construction operators in 18 structural patterns, all coordinates in [-500, 500] pt; arcs: all centers, radii in (0.1, 50], "
          "all start angles, all angular extents covered by up to 3 (thorough: 5) Bezier segments, extents given with 0, 1 or 2 extra turns")
ASSUMPTIONS = ["floats as reals", "numerals written with %g/%f are taken as exact (format precision is outside the claim)"]

PATTERNS = ["m l", "m l l z", "m c", "m c c z", "m rl rl z", "m rc", "m rc rl z", "m rm l", "m l m l z", "m l z m rl", "m l l z rm l", "M3", "C2",
            "m l rm rl z", "m M3 z", "m C2 rl", "m c rm c", "m rl m rc z", "m l l z l", "m l l z rc z", "m rl rl z rl rl z"]


class Model:
    """the meaning of the construction operators (PostScript language reference)"""

    def __init__(self):
        self.segs, self.cur, self.start = [], None, None

    def m(self, p):
        self.segs.append(("M", p))
        self.cur = self.start = p

    def again(self):
        """a new subpath at the current point after closepath"""
        if self.segs[-1][0] == "Z":
            self.segs.append(("M", self.cur))

    def l(self, p):
        self.again()
        self.segs.append(("L", p))
        self.cur = p

    def c(self, p, q, r):
        self.again()
        self.segs.append(("C", p, q, r))
        self.cur = r

    def z(self):
        self.segs.append(("Z",))
        self.cur = self.start


def build(x, pattern, unit_variant):
    from pyx import path, unit
    mo = Model()
    items = []
    n = 0

    def pt():
        nonlocal n
        n += 1
        return x.real("x%d" % n, -500, 500), x.real("y%d" % n, -500, 500)
    if pattern[0] in "MC":
        pattern = "m " + pattern

    def mk(name, *pts):
        args = [k for p in pts for k in p]
        if unit_variant:
            return getattr(path, name)(*[k * unit.t_pt for k in args])
        return getattr(path, name + "_pt")(*args)
    add = lambda p, d: (p[0] + d[0], p[1] + d[1])
    for t in pattern.split():
        if t == "m":
            p = pt()
            mo.m(p)
            items.append(mk("moveto", p))
        elif t == "l":
            p = pt()
            mo.l(p)
            items.append(mk("lineto", p))
        elif t == "c":
            p = pt(), pt(), pt()
            mo.c(*p)
            items.append(mk("curveto", *p))
        elif t == "rm":
            p = pt()
            mo.m(add(mo.cur, p))
            items.append(mk("rmoveto", p))
        elif t == "rl":
            p = pt()
            mo.l(add(mo.cur, p))
            items.append(mk("rlineto", p))
        elif t == "rc":
            p = pt(), pt(), pt()
            mo.c(*[add(mo.cur, k) for k in p])
            items.append(mk("rcurveto", *p))
        elif t == "z":
            mo.z()
            items.append(path.closepath())
        elif t == "M3":
            ps = [pt() for i in range(3)]
            for p in ps:
                mo.l(p)
            items.append(path.multilineto_pt(ps))
        elif t == "C2":
            ps = [(pt(), pt(), pt()) for i in range(2)]
            for p in ps:
                mo.c(*p)
            items.append(path.multicurveto_pt([tuple(k for q in p for k in q) for p in ps]))
        else:
            raise ValueError(t)
    return path.path(*items), mo.segs


def out(x, p, backend):
    """segments written for the path, in PyX coordinates"""
    from pyx import writer
    f = x.BytesIO()
    w = writer.writer(f)
    if backend == "ps":
        p.outputPS(w, None)
        d = lib.interp_ps(x, lib._text(f.getvalue()) + "stroke\n")
    elif backend == "pdf":
        p.outputPDF(w, None)
        d = lib.interp_pdf(x, lib._text(f.getvalue()) + "S\n")
    elif backend == "svg":
        return lib.svg_path(x, p.returnSVGdata(), lib.FLIP).take()
    else:
        return lib.svg_path(x, p.returnSVGdata(inverse_y=False), lib.IDENT).take()
    return d[0].path


@harness(cases=[(p, b) for p in PATTERNS for b in ("ps", "pdf", "svg", "svg font", "normpath")])
def operators(x, case):
    pattern, backend = case
    p, segs = build(x, pattern, (len(pattern) + len(backend)) % 2)
    if backend == "normpath":
        r = lib.normpath_segs(p.normpath(epsilon=None))
        for i, s in enumerate(segs):
            if s[0] == "L":
                q = segs[i-1][-1] if len(segs[i-1]) > 1 else None
                if q is not None:
                    x.assume(x.any([abs(s[1][0] - q[0]) >= 0.01, abs(s[1][1] - q[1]) >= 0.01]))
        r = lib.drop_tiny(x, r)
        segs = lib.drop_tiny(x, segs)
    else:
        r = out(x, p, backend)
    lib.same_segs(x, r, segs, pattern, 2e-2)


@harness(cases=["line", "curve", "rect", "line len", "curve len", "rect len"])
def shapes(x, case):
    from pyx import path, unit
    name = case.split()[0]
    U = unit.t_mm if "len" in case else 1
    f = 72 / 25.4 if "len" in case else 1
    n = {"line": 4, "curve": 8, "rect": 4}[name]
    a = [x.real("a%d" % i, -100, 100) for i in range(n)]
    p = getattr(path, name + ("" if "len" in case else "_pt"))(*[k * U for k in a])
    P = [(a[i] * f, a[i+1] * f) for i in range(0, n, 2)]
    if name == "line":
        segs = [("M", P[0]), ("L", P[1])]
    elif name == "curve":
        segs = [("M", P[0]), ("C",) + tuple(P[1:])]
    else:
        (lx, ly), (w, h) = P
        segs = [("M", (lx, ly)), ("L", (lx + w, ly)), ("L", (lx + w, ly + h)), ("L", (lx, ly + h)), ("Z",)]
    for b in ("ps", "pdf", "svg"):
        lib.same_segs(x, out(x, p, b), segs, b, 2e-2)


@harness(cases=["m l l", "m l l z", "m rl rl", "m M3", "m l m l", "m l l z m l"])
def normpath_lines(x, case):
    """normalization with the usual precision keeps the geometry of lines longer than it"""
    p, segs = build(x, case, 0)
    cur = None
    for s in segs:
        if s[0] == "M":
            cur = start = s[1]
        elif s[0] == "L":
            x.assume(x.any([abs(s[1][0] - cur[0]) >= 0.1, abs(s[1][1] - cur[1]) >= 0.1]))
            cur = s[1]
        elif s[0] == "Z":
            x.assume(x.any([abs(start[0] - cur[0]) >= 0.1, abs(start[1] - cur[1]) >= 0.1]))
    n = p.normpath()
    r = lib.normpath_segs(n)
    lib.same_segs(x, r, segs, case, 1e-4)
    lib.same_segs(x, lib.normpath_segs(n.path().normpath()), segs, case + " back as path", 1e-4)
    for b in ("ps", "pdf", "svg"):
        lib.same_segs(x, out(x, n, b), segs, case + " normalized " + b, 2e-2)
    lib.same_segs(x, out(x, n.path(), "ps"), segs, case + " path of the normalized", 1e-4)


# ------------------------------------------------------------------------ arcs
def arcsetup(x, k, lo=0, hi=45):
    """start angle, k steps of delta"""
    if k == 1:
        c = x.real("cx", -50, 50), x.real("cy", -50, 50)
        r = x.real("r", 0.5, 50)
    else:
        c, r = (3.0, -1.0), 2.0
    a1 = x.angle("a1", -180, 180)
    de = x.angle("delta", lo, hi)
    return c, r, a1, de


def on(x, c, r, a):
    a = a * (x.math.pi / 180)
    return c[0] + r * x.math.cos(a), c[1] + r * x.math.sin(a)


def check_arc_curves(x, cs, p0, c, r, k, a1, de, sgn, label):
    """Bezier segments cs starting at p0 form the arc of k*de degrees"""
    x.check(all(s[0] == "C" for s in cs) and len(cs) >= 1, label + ": curves", [s[0] for s in cs])
    rad = x.math.pi / 180
    if len(cs) == k:
        ch, sh = x.math.cos(de * rad / 2), x.math.sin(de * rad / 2)
        for i, s in enumerate(cs):
            a, b, d = s[1:]
            e = on(x, c, r, a1 + sgn * (i+1) * de)
            x.eq(d[0], e[0], label + ": end of a segment x", 1e-3)
            x.eq(d[1], e[1], label + ": end of a segment y", 1e-3)
            for ang, h, n in ((a1 + sgn*i*de, (a[0] - p0[0], a[1] - p0[1]), "begin"), (a1 + sgn*(i+1)*de, (d[0] - b[0], d[1] - b[1]), "end")):
                t = -sgn * x.math.sin(ang * rad), sgn * x.math.cos(ang * rad)
                x.eq(t[0]*h[1] - t[1]*h[0], 0, label + ": tangent at the " + n, 1e-3)
                # handle length 4/3 tan(de/4) r (middle of the segment on the circle), counted along the tangent
                l = t[0]*h[0] + t[1]*h[1]
                x.eq(3 * sh * l, 4 * (1 - ch) * r, label + ": handle length at the " + n, 5e-3)
            p0 = d
        return p0
    r2 = r * r
    for i, s in enumerate(cs):
        a, b, d = s[1:]
        u = (p0[0] - c[0], p0[1] - c[1])
        v = (d[0] - c[0], d[1] - c[1])
        x.eq(v[0]*v[0] + v[1]*v[1], r2, label + ": end of a segment on the circle", 1e-3)
        ta = (a[0] - p0[0], a[1] - p0[1])
        tb = (d[0] - b[0], d[1] - b[1])
        x.eq(ta[0]*u[0] + ta[1]*u[1], 0, label + ": tangent at the begin", 1e-3)
        x.eq(tb[0]*v[0] + tb[1]*v[1], 0, label + ": tangent at the end", 1e-3)
        x.check(sgn * (u[0]*v[1] - u[1]*v[0]) > 0, label + ": direction")
        # the middle of the curve is close to the circle
        m = [(p0[j] + 3*a[j] + 3*b[j] + d[j]) / 8 - c[j] for j in (0, 1)]
        x.eq((m[0]*m[0] + m[1]*m[1]) / r2, 1, label + ": middle of a segment on the circle", 2e-3)
        p0 = d
    return p0


@harness(cases=[(k, "arc", turn) for k in (1, 2) for turn in (0, -1)] + [(k, "arcn", turn) for k in (1, 2) for turn in (0, 1)],
         thorough=[(3, "arc", 0), (3, "arcn", 0), (3, "arc", -1), (3, "arcn", 1)], deadline=300, ob_timeout_ms=30000)
def arcs(x, case):
    """normalized arcs"""
    from pyx import path
    k, kind, turn = case
    c, r, a1, de = arcsetup(x, k, 45 * (k - 1) / k + 0.01 if k > 1 else 1, 45 - 0.01)
    sgn = 1 if kind == "arc" else -1
    a2 = a1 + sgn * k * de + 360 * turn
    p = path.path(getattr(path, kind + "_pt")(c[0], c[1], r, a1, a2))
    s = lib.normpath_segs(p.normpath(epsilon=None))
    x.check(s[0][0] == "M", "starts with a moveto")
    b = on(x, c, r, a1)
    x.eq(s[0][1][0], b[0], "begin x", 1e-3)
    x.eq(s[0][1][1], b[1], "begin y", 1e-3)
    e = check_arc_curves(x, s[1:], b, c, r, k, a1, de, sgn, "arc")
    d = on(x, c, r, a2)
    x.eq(e[0], d[0], "end x", 1e-3)
    x.eq(e[1], d[1], "end y", 1e-3)


TURNS = [(0, 450), (30, 400), (-170, 200), (10, 740), (100, 1000), (-300, 500), (45, 405), (200, 930)]


@harness(cases=[(k, t) for k in ("arc", "arcn") for t in TURNS])
def turns(x, case):
    """arcs of more than a full turn: one full turn and the rest (fixed angles)"""
    from pyx import path
    import math
    kind, (a, b) = case
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    r = x.real("r", 0.5, 50)
    sgn = 1 if kind == "arc" else -1
    if sgn < 0:
        a, b = -a, -b
    p = path.path(getattr(path, kind + "_pt")(c[0], c[1], r, a, b))
    for be in ("normpath", "pdf"):
        s = lib.normpath_segs(p.normpath(epsilon=None)) if be == "normpath" else out(x, p, "pdf")
        x.check(s[0][0] == "M" and all(k[0] == "C" for k in s[1:]), be + " structure")
        rad = math.pi / 180
        for q, v, l in ((s[0][1], a, "begin"), (s[-1][3], b, "end")):
            x.eq(q[0], c[0] + r * math.cos(v * rad), be + " " + l + " x", 1e-3)
            x.eq(q[1], c[1] + r * math.sin(v * rad), be + " " + l + " y", 1e-3)
        prev, area = s[0][1], 0
        for k in s[1:]:
            m = [(prev[j] + 3*k[1][j] + 3*k[2][j] + k[3][j]) / 8 - c[j] for j in (0, 1)]
            x.eq((m[0]*m[0] + m[1]*m[1]) / (r*r), 1, be + " middle of a segment on the circle", 1e-3)
            u, v = (prev[0]-c[0], prev[1]-c[1]), (k[3][0]-c[0], k[3][1]-c[1])
            x.check(sgn * (u[0]*v[1] - u[1]*v[0]) > 0, be + " direction")
            area = area + sgn * (u[0]*v[1] - u[1]*v[0]) / (r*r)
            prev = k[3]
        # the angle passed, from below and above (the segments are at most 45 degrees, sin(x)/x >= 0.9)
        total = (abs(b - a) if abs(b - a) <= 720 else abs(b - a) % 360 + 360) * rad
        x.check(x.all([area <= total + 0.01, area >= 0.9 * total]), be + " angle passed")
    # all of the circle
    bb = p.bbox()
    for u, v in ((bb.llx_pt, c[0]-r), (bb.lly_pt, c[1]-r), (bb.urx_pt, c[0]+r), (bb.ury_pt, c[1]+r)):
        x.eq((u - v) / r, 0, "bounding box", 1e-3)
    # PostScript knows about turns itself
    s = out(x, p, "ps")
    x.check([k[0] for k in s] in (["M", "A"], ["A"]), "ps structure", [k[0] for k in s])
    x.eq(s[-1][5], a, "ps begin")
    x.eq(s[-1][6], b, "ps end")
    # svg: from begin to end
    s = out(x, p, "svg")
    for q, v, l in ((s[0][1], a, "begin"), (s[-1][1], b, "end")):
        x.eq(q[0], c[0] + r * math.cos(v * rad), "svg " + l + " x", 1e-3)
        x.eq(q[1], c[1] + r * math.sin(v * rad), "svg " + l + " y", 1e-3)


PRE = ["l", "rl", "c", "rc", "M3", "C2", "l l z", "l rm", "m", "rc l", "arc", "arcn", "arct", "rc z", "rl rl z"]


@harness(cases=[(q, be, big) for q in PRE for be in ("svg", "svg font", "normpath", "pdf") for big in (0, 1) if be == "svg" or big])
def follow(x, case):
    """a tangent arc or an arc following any other operator starts at its end point"""
    from pyx import path
    import math
    prefix, be, big = case
    o = x.real("ox", -50, 50), x.real("oy", -50, 50)
    rel = []
    at = lambda dx, dy: (o[0] + dx, o[1] + dy)
    items, cur, start = [path.moveto_pt(*o)], (0, 0), (0, 0)
    k = [0]

    def d():
        k[0] += 1
        return [(7, -3), (11, 6), (-4, 9), (13, 2), (5, -8), (-9, 1), (3, 12)][k[0] % 7]
    add = lambda a, b: (a[0] + b[0], a[1] + b[1])
    for t in prefix.split():
        if t == "m":
            cur = start = add(cur, d())
            items.append(path.moveto_pt(*at(*cur)))
        elif t == "rm":
            q = d()
            cur = start = add(cur, q)
            items.append(path.rmoveto_pt(*q))
        elif t == "l":
            cur = add(cur, d())
            items.append(path.lineto_pt(*at(*cur)))
        elif t == "rl":
            q = d()
            cur = add(cur, q)
            items.append(path.rlineto_pt(*q))
        elif t == "c":
            q = [d(), d(), d()]
            items.append(path.curveto_pt(*[c for p in q for c in at(*add(cur, p))]))
            cur = add(cur, q[-1])
        elif t == "rc":
            q = [d(), d(), d()]
            items.append(path.rcurveto_pt(*[c for p in q for c in p]))
            cur = add(cur, q[-1])
        elif t == "M3":
            q = [add(cur, d()) for i in range(3)]
            items.append(path.multilineto_pt([at(*p) for p in q]))
            cur = q[-1]
        elif t == "C2":
            q = [[add(cur, d()) for i in range(3)] for j in range(2)]
            items.append(path.multicurveto_pt([tuple(c for p in u for c in at(*p)) for u in q]))
            cur = q[-1][-1]
        elif t in ("arc", "arcn"):
            cen = add(cur, (20, 5))
            items.append(getattr(path, t + "_pt")(*(at(*cen) + (5, 180, 270))))
            cur = add(cen, (0, -5))
        elif t == "arct":
            # a right angle
            items.append(path.arct_pt(*(at(*add(cur, (30, 0))) + at(*add(cur, (30, 30))) + (10,))))
            cur = add(cur, (30, 10))
        elif t == "z":
            items.append(path.closepath())
            cur = start
    # right turn from horizontal to vertical: tangent points 10 before and after the corner
    c = add(cur, (25, 0)) if big else add(cur, (0, 25))
    e = add(c, (0, -40)) if big else add(c, (40, 0))
    items.append(path.arct_pt(*(at(*c) + at(*e) + (10,))))
    q = x.real("qx", -30, 30), x.real("qy", -30, 30)
    x.assume(x.all([q[0] > 0.1]))
    items.append(path.rlineto_pt(*q))
    t1 = add(cur, (15, 0)) if big else add(cur, (0, 15))
    t2 = add(c, (0, -10)) if big else add(c, (10, 0))
    p = path.path(*items)
    s = lib.normpath_segs(p.normpath(epsilon=None)) if be == "normpath" else out(x, p, be)
    s = lib.drop_tiny(x, s, 1e-2)

    def same(u, v, l):
        v = at(*v)
        x.eq(u[0], v[0], "%s %s x" % (be, l), 1e-2)
        x.eq(u[1], v[1], "%s %s y" % (be, l), 1e-2)
    x.check(s[-1][0] == "L", "line at the end")
    same(s[-1][1], add(t2, q), "end")
    i = len(s) - 2
    if be.startswith("svg"):
        x.check(s[i][0] == "SA", "arc")
        same(s[i][1], t2, "second tangent point")
    else:
        same(s[i][3], t2, "second tangent point")
        while s[i-1][0] == "C" and (prefix[-1] != "c" or not x.all([abs(s[i-1][3][0] - at(*t1)[0]) < 1e-2, abs(s[i-1][3][1] - at(*t1)[1]) < 1e-2])):
            i -= 1
    x.check(s[i-1][0] == "L", "line to the arc")
    same(s[i-1][1], t1, "first tangent point")


@harness(cases=["arc", "arcn"])
def arc_in_path(x, kind):
    """an arc in a path is connected by a straight line, and is followed from its end point"""
    from pyx import path, unit
    c, r, a1, de = arcsetup(x, 1, 1, 44)
    sgn = 1 if kind == "arc" else -1
    p0 = x.real("x0", -50, 50), x.real("y0", -50, 50)
    q = x.real("dx", -50, 50), x.real("dy", -50, 50)
    a2 = a1 + sgn * de
    p = path.path(path.moveto_pt(*p0), getattr(path, kind)(c[0] * unit.t_pt, c[1] * unit.t_pt, r * unit.t_pt, a1, a2), path.rlineto_pt(*q), path.closepath())
    b, e = on(x, c, r, a1), on(x, c, r, a2)
    end = (e[0] + q[0], e[1] + q[1])

    def same(u, v, l):
        x.eq(u[0], v[0], l + " x", 1e-3)
        x.eq(u[1], v[1], l + " y", 1e-3)
    for be in ("normpath", "pdf"):
        s = lib.normpath_segs(p.normpath(epsilon=None)) if be == "normpath" else out(x, p, "pdf")
        if be == "normpath" and s[1][0] == "L" and s[2][0] == "L":
            del s[1]
        x.check([k[0] for k in s] == ["M", "L", "C", "L", "Z"], be + " structure", [k[0] for k in s])
        same(s[0][1], p0, be + " moveto")
        same(s[1][1], b, be + " line to the begin of the arc")
        same(s[2][3], e, be + " end of the arc")
        same(s[3][1], end, be + " relative line")
    s = out(x, p, "ps")
    x.check([k[0] for k in s] == ["M", "L", "A", "L", "Z"], "ps structure", [k[0] for k in s])
    same(s[3][1], end, "ps relative line")
    x.check(s[2][7] == (kind == "arc"), "ps direction")
    for u, v, l in zip(s[2][4:7], (r, a1, a2), ("radius", "angle1", "angle2")):
        x.eq(u, v, "ps " + l, 2e-3)
    same(s[2][2], c, "ps center")
    for be, f in (("svg", 1), ("svg font", -1)):
        s = out(x, p, be)
        x.check([k[0] for k in s] == ["M", "L", "SA", "L", "Z"], be + " structure", [k[0] for k in s])
        same(s[1][1], b, be + " line to the begin of the arc")
        same(s[2][1], e, be + " end of the arc")
        same(s[3][1], end, be + " relative line")
        x.eq(s[2][2], r, be + " rx")
        x.eq(s[2][3], r, be + " ry")


@harness(cases=[(kind, rng, turn, iy) for kind, t in (("arc", -1), ("arcn", 1)) for rng in ("small", "large", "full") for turn in (0, t) for iy in (True, False)])
def arc_svg(x, case):
    kind, rng, turn, inverse = case
    from pyx import path
    lo, hi = {"small": (1, 179), "large": (181, 349), "full": (351, 359.5)}[rng]
    c, r, a1, d = arcsetup(x, 1, lo, hi)
    sgn = 1 if kind == "arc" else -1
    a2 = a1 + sgn * d + 360 * turn
    p = path.path(getattr(path, kind + "_pt")(c[0], c[1], r, a1, a2))
    m = lib.FLIP if inverse else lib.IDENT
    s = lib.svg_path(x, p.returnSVGdata(inverse_y=inverse), m).take()
    x.check(s[0][0] == "M" and all(k[0] == "SA" for k in s[1:]), "structure")
    b, e = on(x, c, r, a1), on(x, c, r, a2)
    x.eq(s[0][1][0], b[0], "begin x", 1e-3)
    x.eq(s[0][1][1], b[1], "begin y", 1e-3)
    x.eq(s[-1][1][0], e[0], "end x", 1e-3)
    x.eq(s[-1][1][1], e[1], "end y", 1e-3)
    prev = b
    n = len(s) - 1
    for k in s[1:]:
        x.eq(k[2], r, "rx")
        x.eq(k[3], r, "ry")
        q = k[1]
        u, v = (prev[0] - c[0], prev[1] - c[1]), (q[0] - c[0], q[1] - c[1])
        x.eq(v[0]*v[0] + v[1]*v[1], r*r, "points on the circle", 1e-3)
        cross = sgn * (u[0]*v[1] - u[1]*v[0])
        large = x.num(str(k[5])) if isinstance(k[5], str) else k[5]
        # the smaller angle between the points is passed in drawing direction iff the flag is not set
        x.check(x.implies(cross > 1e-4, large == 0), "large arc flag (small)")
        x.check(x.implies(cross < -1e-4, large == 1), "large arc flag (large)")
        # with the y axis pointing down, flag 1 is clockwise on the page
        # (fonts keep the direction of the y axis: the glyph transformation flips it)
        if inverse:
            x.check(k[6] == (0 if kind == "arc" else 1), "sweep flag", k[6])
        prev = q
    if rng == "full":
        x.check(n >= 2, "nearly full circles are split")     # a single segment from a point to (nearly) itself is not drawn


CORNERS = [(0, 90, 5, 7), (0, -90, 6, 2), (90, 45, 3, 3), (37, -120, 4, 9), (200, 150, 10, 1), (-60, -20, 8, 8), (180, 60, 2, 11), (270, -75, 5, 5)]


@harness(cases=[(c, b) for c in CORNERS for b in ("ps", "svg", "svg font", "arct")] + [(CORNERS[i], b) for i in (0, 3, 5) for b in ("normpath", "pdf")],
         thorough=[(CORNERS[i], b) for i in (1, 2, 4, 6, 7) for b in ("normpath", "pdf")])
def arct(x, case):
    """tangent arc: touches both lines at equal distances from the corner"""
    import math
    from pyx import path, unit, writer
    (a, turn, l1, l2), be = case
    p1 = x.real("x1", -100, 100), x.real("y1", -100, 100)
    r = x.real("r", 0.5, 20)
    rad = math.pi / 180
    d1 = math.cos(a * rad), math.sin(a * rad)
    d2 = math.cos((a + turn) * rad), math.sin((a + turn) * rad)
    p0 = p1[0] - l1 * d1[0], p1[1] - l1 * d1[1]
    p2 = p1[0] + l2 * d2[0], p1[1] + l2 * d2[1]
    q = x.real("dx", -50, 50), x.real("dy", -50, 50)
    if be == "arct":
        it = path.arct(*[k * unit.t_pt for k in (p1 + p2 + (r,))])
    else:
        it = path.arct_pt(p1[0], p1[1], p2[0], p2[1], r)
    p = path.path(path.moveto_pt(*p0), it, path.rlineto_pt(*q))
    if be in ("ps", "arct"):
        f = x.BytesIO()
        p.outputPS(writer.writer(f), None)
        t = [l.split() for l in lib._text(f.getvalue()).splitlines()]
        t = [l for l in t if l[-1] == "arct"]
        x.check(len(t) == 1 and len(t[0]) == 6, "ps operator")
        for u, v in zip(t[0], p1 + p2 + (r,)):
            x.eq(x.num(u), v, "ps operand", 2e-2)
        return
    h = r * math.tan(abs(turn) * rad / 2)
    t1 = p1[0] - h * d1[0], p1[1] - h * d1[1]
    t2 = p1[0] + h * d2[0], p1[1] + h * d2[1]
    end = t2[0] + q[0], t2[1] + q[1]

    def same(u, v, l, tol=1e-2):
        x.eq(u[0], v[0], be + " " + l + " x", tol)
        x.eq(u[1], v[1], be + " " + l + " y", tol)
    x.assume(abs(h - l1) > 0.1)
    x.assume(q[0] > 0.1)
    s = lib.normpath_segs(p.normpath(epsilon=None)) if be == "normpath" else out(x, p, be)
    s = lib.drop_tiny(x, s, 1e-2)
    same(s[0][1], p0, "begin")
    x.check(s[1][0] == "L" and s[-1][0] == "L", "structure", [k[0] for k in s])
    same(s[1][1], t1, "first tangent point")
    same(s[-1][1], end, "point after the arc")
    if be.startswith("svg"):
        x.check([k[0] for k in s] == ["M", "L", "SA", "L"], "structure", [k[0] for k in s])
        same(s[2][1], t2, "second tangent point")
        x.eq(s[2][2], r, "svg radius", 1e-3)
        large = x.num(str(s[2][5])) if isinstance(s[2][5], str) else s[2][5]
        x.check(large == 0, "svg large flag")
        if be == "svg":
            x.check(s[2][6] == (0 if turn > 0 else 1), "svg sweep flag")
    else:
        x.check(all(k[0] == "C" for k in s[2:-1]), "curves")
        same(s[-2][3], t2, "second tangent point")
        # the control points lie on the tangents
        cross = lambda u, v: u[0]*v[1] - u[1]*v[0]
        u = s[2][1][0] - t1[0], s[2][1][1] - t1[1]
        v = t2[0] - s[-2][2][0], t2[1] - s[-2][2][1]
        x.eq(cross(u, d1), 0, "tangent at the begin", 2e-2)
        x.eq(cross(v, d2), 0, "tangent at the end", 2e-2)
        x.check(u[0]*d1[0] + u[1]*d1[1] > 0, "direction at the begin")
        x.check(v[0]*d2[0] + v[1]*d2[1] > 0, "direction at the end")
        # all points on the circle
        sgn = 1 if turn > 0 else -1
        m = t1[0] - sgn * r * d1[1], t1[1] + sgn * r * d1[0]
        for k in s[2:-1]:
            w = k[3][0] - m[0], k[3][1] - m[1]
            x.eq((w[0]*w[0] + w[1]*w[1]) / (r*r), 1, "on the circle", 1e-2)


@harness(cases=["circle_pt", "circle"])
def circles(x, case):
    """the circle is written as one closed arc around the center"""
    from pyx import path, unit
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    r = x.real("r", 0.5, 50)
    if case == "circle":
        p = path.circle(c[0] * unit.t_pt, c[1] * unit.t_pt, r * unit.t_pt)
    else:
        p = path.circle_pt(c[0], c[1], r)
    for be in ("normpath", "pdf"):
        s = lib.normpath_segs(p.normpath(epsilon=None)) if be == "normpath" else out(x, p, "pdf")
        x.check(s[-1][0] == "Z", be + " closed")
        pts = [k[-1] for k in s if len(k) > 1]
        for q in pts:
            x.eq(((q[0]-c[0])*(q[0]-c[0]) + (q[1]-c[1])*(q[1]-c[1])) / (r*r), 1, be + " point on the circle", 1e-3)
        n = 0
        prev = None
        for k in s:
            if k[0] == "C":
                m = [(prev[j] + 3*k[1][j] + 3*k[2][j] + k[3][j]) / 8 - c[j] for j in (0, 1)]
                x.eq((m[0]*m[0] + m[1]*m[1]) / (r*r), 1, be + " middle of a segment on the circle", 1e-3)
                u, v = (prev[0]-c[0], prev[1]-c[1]), (k[3][0]-c[0], k[3][1]-c[1])
                x.check((u[0]*v[1] - u[1]*v[0]) > 0, be + " counterclockwise")
                n += 1
            if len(k) > 1:
                prev = k[-1]
        x.check(n >= 4, be + " number of segments")
        # closed up to a small gap
        g = (pts[0][0]-prev[0], pts[0][1]-prev[1])
        x.check(g[0]*g[0] + g[1]*g[1] <= 1e-4 * r * r, be + " gap")
    bb = p.bbox()
    for u, v in ((bb.llx_pt, c[0]-r), (bb.lly_pt, c[1]-r), (bb.urx_pt, c[0]+r), (bb.ury_pt, c[1]+r)):
        x.eq((u - v) / r, 0, "bounding box", 1e-3)


@harness(cases=["ellipse_pt", "ellipse"], ob_timeout_ms=30000)
def ellipses(x, case):
    from pyx import path, unit
    c = x.real("cx", -50, 50), x.real("cy", -50, 50)
    a, b = x.real("a", 0.5, 20), x.real("b", 0.5, 20)
    al = x.angle("alpha", -180, 180)
    if case == "ellipse":
        p = path.ellipse(c[0] * unit.t_pt, c[1] * unit.t_pt, a * unit.t_pt, b * unit.t_pt, al)
    else:
        p = path.ellipse_pt(c[0], c[1], a, b, al)
    rad = x.math.pi / 180
    co, si = x.math.cos(al * rad), x.math.sin(al * rad)
    unitc = path.circle_pt(0, 0, 1)
    t = lambda q: (c[0] + co * a * q[0] - si * b * q[1], c[1] + si * a * q[0] + co * b * q[1])
    s = lib.normpath_segs(p.normpath(epsilon=None))
    w = lib.normpath_segs(unitc.normpath(epsilon=None))
    lib.same_segs(x, lib.drop_tiny(x, s), lib.map_segs(t, lib.drop_tiny(x, w)), "ellipse", 1e-3)


@harness(cases=["append", "extend", "+", "+="])
def combine(x, case):
    """combined paths consist of the items of both"""
    from pyx import path
    p, s1 = build(x, "m l", 0)
    q0 = x.real("qx", -500, 500), x.real("qy", -500, 500)
    q1 = x.real("rx", -500, 500), x.real("ry", -500, 500)
    qi = [path.moveto_pt(*q0), path.lineto_pt(*q1), path.closepath()]
    s2 = [("M", q0), ("L", q1), ("Z",)]
    n0 = p.normpath(epsilon=None)       # no stale results afterwards
    p.bbox()
    if case == "append":
        for i in qi:
            p.append(i)
    elif case == "extend":
        p.extend(qi)
    elif case == "+":
        old = p
        p = p + path.path(*qi)
        lib.same_segs(x, out(x, old, "ps"), s1, "operand", 2e-2)
    else:
        p += path.path(*qi)
    for b in ("ps", "pdf", "svg"):
        lib.same_segs(x, out(x, p, b), s1 + s2, b, 2e-2)
    bb = p.bbox()
    x.check(x.all([bb.llx_pt <= q1[0], bb.urx_pt >= q1[0], bb.lly_pt <= q0[1], bb.ury_pt >= q0[1]]), "bounding box")
