"""Affine transformations: composition, inverse, elementary transformations about points, output."""
from pysym.api import harness
import lib

BOUNDS = "all matrix entries and coordinates in [-20, 20], |det| >= 0.05 for inverses, angles in (-400, 400) degrees"
ASSUMPTIONS = ["floating point numbers are treated as exact reals (decimal reading of literals); results are compared up to 1e-5..1e-3",
               "numbers written with %f/%g are taken as exact"]


def tr(x, n, det=True):
    from pyx import trafo
    a = [x.real("%s%d" % (n, i), -20, 20) for i in range(6)]
    if det:
        d = a[0] * a[3] - a[1] * a[2]
        x.assume(abs(d) >= 0.05)
    return trafo.trafo_pt(((a[0], a[1]), (a[2], a[3])), (a[4], a[5])), a


def pt(x, n="p"):
    return x.real(n + "x", -20, 20), x.real(n + "y", -20, 20)


def same(x, a, b, label, tol=1e-4):
    x.eq(a[0], b[0], label + " x", tol)
    x.eq(a[1], b[1], label + " y", tol)


@harness()
def apply_definition(x):
    t, a = tr(x, "t", False)
    p = pt(x)
    same(x, t.apply_pt(*p), (a[0]*p[0] + a[1]*p[1] + a[4], a[2]*p[0] + a[3]*p[1] + a[5]), "matrix application")


@harness()
def composition(x):
    """(t1*t2) applies t2 first"""
    t1, _ = tr(x, "s", False)
    t2, _ = tr(x, "t", False)
    p = pt(x)
    same(x, (t1 * t2).apply_pt(*p), t1.apply_pt(*t2.apply_pt(*p)), "composition", 1e-3)


@harness()
def inverse(x):
    t, _ = tr(x, "t")
    p = pt(x)
    i = t.inverse()
    same(x, i.apply_pt(*t.apply_pt(*p)), p, "left inverse", 1e-3)
    same(x, t.apply_pt(*i.apply_pt(*p)), p, "right inverse", 1e-3)


@harness(cases=["pt", "len"])
def translate(x, case):
    from pyx import trafo, unit
    p, v = pt(x), pt(x, "v")
    if case == "pt":
        t = trafo.translate_pt(*v)
    else:
        t = trafo.translate(v[0] * unit.t_pt, v[1] * unit.t_pt)
    same(x, t.apply_pt(*p), (p[0] + v[0], p[1] + v[1]), "translation")
    t0, _ = tr(x, "t", False)
    t2 = t0.translated_pt(*v) if case == "pt" else t0.translated(v[0] * unit.t_pt, v[1] * unit.t_pt)
    q = t0.apply_pt(*p)
    same(x, t2.apply_pt(*p), (q[0] + v[0], q[1] + v[1]), "translated")


def _about(x, case, c):
    from pyx import unit
    if "about" not in case:
        return ()
    return c if "pt" in case else (c[0] * unit.t_pt, c[1] * unit.t_pt)


@harness(cases=["pt", "pt about", "len", "len about"])
def rotate(x, case):
    from pyx import trafo
    a = x.angle("alpha", -400, 400)
    p, c = pt(x), pt(x, "c")
    ab = _about(x, case, c)
    c = c if ab else (0, 0)
    phi = a * (x.math.pi / 180)
    co, si = x.math.cos(phi), x.math.sin(phi)
    want = lambda q: (c[0] + co*(q[0]-c[0]) - si*(q[1]-c[1]), c[1] + si*(q[0]-c[0]) + co*(q[1]-c[1]))
    t = (trafo.rotate_pt if "pt" in case else trafo.rotate)(a, *ab)
    same(x, t.apply_pt(*p), want(p), "counterclockwise rotation about the point")
    t0, _ = tr(x, "t", False)
    t2 = (t0.rotated_pt if "pt" in case else t0.rotated)(a, *ab)
    same(x, t2.apply_pt(*p), want(t0.apply_pt(*p)), "rotated", 1e-3)


@harness()
def rotations_add(x):
    from pyx import trafo
    a, b = x.angle("alpha"), x.angle("beta")
    p = pt(x)
    same(x, (trafo.rotate(a) * trafo.rotate(b)).apply_pt(*p), trafo.rotate(a + b).apply_pt(*p), "angles add")
    same(x, trafo.rotate(a).inverse().apply_pt(*p), trafo.rotate(-a).apply_pt(*p), "inverse rotation")


@harness(cases=["pt", "pt about", "len", "len about", "pt uniform", "len uniform", "pt uniform about"])
def scale(x, case):
    from pyx import trafo
    p, c = pt(x), pt(x, "c")
    sx = x.real("sx", -20, 20)
    sy = sx if "uniform" in case else x.real("sy", -20, 20)
    ab = _about(x, case, c)
    c = c if ab else (0, 0)
    want = lambda q: (c[0] + sx*(q[0]-c[0]), c[1] + sy*(q[1]-c[1]))
    if "uniform" in case:
        args = (sx, None) + ab if ab else (sx,)
    else:
        args = (sx, sy) + ab
    t = (trafo.scale_pt if "pt" in case else trafo.scale)(*args)
    same(x, t.apply_pt(*p), want(p), "scaling about the point", 1e-3)
    t0, _ = tr(x, "t", False)
    t2 = (t0.scaled_pt if "pt" in case else t0.scaled)(*args)
    same(x, t2.apply_pt(*p), want(t0.apply_pt(*p)), "scaled", 1e-2)


@harness(cases=["pt", "pt about", "len", "len about"])
def slant(x, case):
    """slanting keeps the line through the fixed point in direction -angle and shears along it"""
    from pyx import trafo
    p, c = pt(x), pt(x, "c")
    s = x.real("s", -5, 5)
    a = x.angle("alpha")
    ab = _about(x, case, c)
    c = c if ab else (0, 0)
    t = (trafo.slant_pt if "pt" in case else trafo.slant)(s, a, *ab)
    phi = a * (x.math.pi / 180)
    d = (x.math.cos(phi), -x.math.sin(phi))      # fixed direction
    n = (x.math.sin(phi), x.math.cos(phi))
    h = (p[0]-c[0])*n[0] + (p[1]-c[1])*n[1]
    want = (p[0] + s*h*d[0], p[1] + s*h*d[1])
    same(x, t.apply_pt(*p), want, "slant", 1e-3)
    t0, _ = tr(x, "t", False)
    t2 = (t0.slanted_pt if "pt" in case else t0.slanted)(s, a, *ab)
    same(x, t2.apply_pt(*p), t.apply_pt(*t0.apply_pt(*p)), "slanted", 1e-2)


@harness()
def mirror(x):
    """mirroring at the line through the origin with the given direction"""
    from pyx import trafo
    a = x.angle("alpha", -360, 360)
    phi = a * (x.math.pi / 180)
    d = (x.math.cos(phi), x.math.sin(phi))
    k, h = x.real("k", -20, 20), x.real("h", -20, 20)
    t = trafo.mirror(a)
    p = (k*d[0] - h*d[1], k*d[1] + h*d[0])
    q = (k*d[0] + h*d[1], k*d[1] - h*d[0])
    same(x, t.apply_pt(*p), q, "mirror image")
    t0, _ = tr(x, "t", False)
    p = pt(x)
    same(x, t0.mirrored(a).apply_pt(*p), t.apply_pt(*t0.apply_pt(*p)), "mirrored", 1e-3)


@harness()
def lengths(x):
    """apply() on lengths is apply_pt() on their values in points"""
    from pyx import unit
    t, _ = tr(x, "t", False)
    p = pt(x)
    r = t.apply(p[0] * unit.t_pt, p[1] * unit.t_pt)
    q = t.apply_pt(*p)
    same(x, (unit.topt(r[0]), unit.topt(r[1])), q, "apply")
    r = t.apply(p[0] * unit.t_cm, p[1] * unit.t_inch)
    q = t.apply_pt(p[0] * 72 / 2.54, p[1] * 72)
    same(x, (unit.topt(r[0]), unit.topt(r[1])), q, "apply", 1e-3)
    from pyx import trafo
    v = pt(x, "v")
    t2 = trafo.trafo(((1, 0), (0, 1)), (v[0] * unit.t_mm, v[1] * unit.t_inch))
    same(x, t2.apply_pt(*p), (p[0] + v[0] * 72 / 25.4, p[1] + v[1] * 72), "vector with units", 1e-3)


@harness(cases=["ps", "pdf", "svg"])
def output(x, case):
    """the transformation written to the output maps coordinates like apply_pt"""
    from pyx import writer
    t, _ = tr(x, "t", False)
    p = pt(x)
    f = x.BytesIO()
    w = writer.writer(f)
    if case == "svg":
        attrs = {}
        t.processSVGattrs(attrs, None, None, None)
        s = attrs["transform"]
        x.check(s.startswith("matrix(") and s.endswith(")"), "svg syntax")
        m = tuple(x.num(k) for k in s[7:-1].split(","))
        q = lib.app(lib.mul(lib.FLIP, lib.mul(m, lib.FLIP)), p)
    elif case == "ps":
        t.processPS(w, None, None, None)
        s = f.getvalue().decode("ascii").split()
        x.check(s[-1] == "concat" and s[0][0] == "[" and s[-2][-1] == "]", "ps syntax")
        m = tuple(x.num(k) for k in " ".join(s[:-1])[1:-1].split())
        q = lib.app(m, p)
    else:
        t.processPDF(w, None, None, None)
        s = f.getvalue().decode("ascii").split()
        x.check(s[-1] == "cm" and len(s) == 7, "pdf syntax")
        m = tuple(x.num(k) for k in s[:-1])
        q = lib.app(m, p)
    same(x, q, t.apply_pt(*p), "written matrix", 1e-3)


@harness(cases=["curve", "line", "subpath"])
def paths(x, case):
    """transforming a path transforms its points"""
    from pyx import path, trafo
    t, _ = tr(x, "t")
    P = [(x.real("x%d" % i, -20, 20), x.real("y%d" % i, -20, 20)) for i in range(4)]
    if case == "curve":
        c = path.normcurve_pt(*[k for p in P for k in p])
        d = c.transformed(t)
        for a, b in zip(((d.x0_pt, d.y0_pt), (d.x1_pt, d.y1_pt), (d.x2_pt, d.y2_pt), (d.x3_pt, d.y3_pt)), P):
            same(x, a, t.apply_pt(*b), "control point", 1e-3)
    elif case == "line":
        l = path.normline_pt(*(P[0] + P[1]))
        m = l.transformed(t)
        same(x, (m.x0_pt, m.y0_pt), t.apply_pt(*P[0]), "line begin", 1e-3)
        same(x, (m.x1_pt, m.y1_pt), t.apply_pt(*P[1]), "line end", 1e-3)
    else:
        items = [path.normline_pt(*(P[0] + P[1])), path.normline_pt(*(P[1] + P[2]))]
        n = path.normpath([path.normsubpath(items, epsilon=None)])
        m = n.transformed(t)
        lib.same_segs(x, lib.normpath_segs(m), lib.map_segs(lambda q: t.apply_pt(*q), lib.normpath_segs(n)), "transformed path", 1e-2)
