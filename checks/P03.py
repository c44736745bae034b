"""Bounding box algebra."""
from pysym.api import harness

BOUNDS = "all box corners and points in [-100, 100], empty and non-empty boxes, transformation entries in [-10, 10]"
ASSUMPTIONS = ["floats as reals"]


def box(x, n, empty=False):
    from pyx import bbox
    if empty:
        return bbox.empty(), None
    lx, ly = x.real(n + "llx", -100, 100), x.real(n + "lly", -100, 100)
    ux, uy = x.real(n + "urx", -100, 100), x.real(n + "ury", -100, 100)
    x.assume(lx <= ux)
    x.assume(ly <= uy)
    return bbox.bbox_pt(lx, ly, ux, uy), (lx, ly, ux, uy)


def inside(x, b, p):
    """point in box given by tuple, None: empty"""
    if b is None:
        return False
    return x.all([b[0] <= p[0], p[0] <= b[2], b[1] <= p[1], p[1] <= b[3]])


def tup(b):
    return b.highrestuple_pt() if b else None


def same(x, b, t, label):
    if t is None:
        x.check(not b, label + " is empty")
    else:
        x.check(bool(b), label + " is not empty")
        for u, v, n in zip(b.highrestuple_pt(), t, ("llx", "lly", "urx", "ury")):
            x.eq(u, v, label + " " + n)


E4 = [(False, False), (True, False), (False, True), (True, True)]


@harness(cases=[e + (ip,) for e in E4 for ip in (False, True)])
def join(x, case):
    ea, eb, ip = case
    a, ta = box(x, "a", ea)
    b, tb = box(x, "b", eb)
    if ip:
        a += b
        r = a
    else:
        r = a + b
        same(x, a, ta, "first operand")
    same(x, b, tb, "second operand")
    if ta is None or tb is None:
        want = ta or tb
    else:
        want = (x.min(ta[0], tb[0]), x.min(ta[1], tb[1]), x.max(ta[2], tb[2]), x.max(ta[3], tb[3]))
    same(x, r, want, "union")


@harness(cases=[e + (ip,) for e in E4 for ip in (False, True)])
def intersection(x, case):
    ea, eb, ip = case
    a, ta = box(x, "a", ea)
    b, tb = box(x, "b", eb)
    hit = a.intersects(b)
    if ta is not None and tb is not None:
        want = x.all([ta[0] <= tb[2], tb[0] <= ta[2], ta[1] <= tb[3], tb[1] <= ta[3]])
        x.check(x.all([x.implies(hit, want), x.implies(want, hit)]), "intersects")
    else:
        x.check(x.not_(hit), "intersects (empty)")
    if ip:
        a *= b
        r = a
    else:
        r = a * b
        same(x, a, ta, "first operand")
    same(x, b, tb, "second operand")
    p = (x.real("px", -100, 100), x.real("py", -100, 100))
    both = x.all([inside(x, ta, p), inside(x, tb, p)])
    res = inside(x, tup(r), p)
    x.check(x.all([x.implies(both, res), x.implies(res, both)]), "points of the intersection")
    if ta is None or tb is None:
        x.check(not r, "intersection with an empty box is empty")
    elif not hit:
        x.check(not r, "intersection of disjoint boxes is empty")
    # the result can be used further
    c, tc = box(x, "c")
    r2 = r + c
    x.check(x.implies(x.any([inside(x, tc, p), both]), inside(x, tup(r2), p)), "union with the intersection covers both")
    if not r:
        same(x, r2, tc, "union with an empty box")


@harness(cases=[(e, ip) for e in (False, True) for ip in ("transform", "transformed")])
def transformation(x, case):
    from pyx import trafo
    e, how = case
    a, ta = box(x, "a", e)
    m = [x.real("m%d" % i, -10, 10) for i in range(6)]
    t = trafo.trafo_pt(((m[0], m[1]), (m[2], m[3])), (m[4], m[5]))
    if how == "transform":
        a.transform(t)
        r = a
    else:
        r = a.transformed(t)
        same(x, a, ta, "operand")
    if ta is None:
        return x.check(not r, "empty")
    C = [t.apply_pt(ta[i], ta[j]) for i in (0, 2) for j in (1, 3)]
    xs, ys = [c[0] for c in C], [c[1] for c in C]
    same(x, r, (x.min(*xs), x.min(*ys), x.max(*xs), x.max(*ys)), "hull of the corners")


@harness(cases=[(e, w) for e in (False, True) for w in ("enlarge_pt", "enlarged_pt", "enlarge", "enlarged")])
def enlarge(x, case):
    from pyx import unit
    e, how = case
    a, ta = box(x, "a", e)
    U = 1 if how.endswith("_pt") else unit.t_pt
    sfx = "_pt" if how.endswith("_pt") else ""
    k = x.choice("given", list(range(16)))
    al = x.real("all", -5, 20)
    names = ["left", "bottom", "right", "top"]
    v = [al] * 4
    kw = {"all" + sfx: al * U}
    for i in range(4):
        if k >> i & 1:
            v[i] = x.real(names[i], -5, 20)
            kw[names[i] + sfx] = v[i] * U
    r = getattr(a, how)(**kw)
    if "enlarged" not in how:
        r = a
    else:
        same(x, a, ta, "operand")
    if ta is None:
        return x.check(not r, "empty")
    same(x, r, (ta[0] - v[0], ta[1] - v[1], ta[2] + v[2], ta[3] + v[3]), "enlarged box")


@harness(cases=[False, True])
def accessors(x, e):
    from pyx import unit
    a, t = box(x, "a", e)
    names = ["height", "width", "top", "bottom", "left", "right", "center"]
    if t is None:
        for n in names + [k + "_pt" for k in names] + ["rect", "path", "lowrestuple_pt", "highrestuple_pt"]:
            try:
                getattr(a, n)()
                x.check(False, n + " of an empty box raises ValueError")
            except ValueError:
                x.check(True, n + " of an empty box raises ValueError")
        return
    want = dict(height=t[3]-t[1], width=t[2]-t[0], top=t[3], bottom=t[1], left=t[0], right=t[2])
    for n, w in want.items():
        x.eq(getattr(a, n + "_pt")(), w, n + "_pt")
        x.eq(unit.topt(getattr(a, n)()), w, n)
    c = a.center_pt()
    x.eq(2 * c[0], t[0] + t[2], "center_pt x")
    x.eq(2 * c[1], t[1] + t[3], "center_pt y")
    d = a.center()
    x.eq(unit.topt(d[0]), c[0], "center x")
    x.eq(unit.topt(d[1]), c[1], "center y")
    l = a.lowrestuple_pt()
    for i in range(4):
        x.check(x.isint(l[i]), "low resolution values are integers")
        s = -1 if i < 2 else 1
        x.check(x.all([s * (l[i] - t[i]) >= 0, s * (l[i] - t[i]) < 1]), "low resolution box is the smallest integer box around")
    b = a.copy()
    same(x, b, t, "copy")
    b.includepoint_pt(200, 200)
    same(x, a, t, "original of the copy")


@harness(cases=[False, True])
def includepoint(x, e):
    a, t = box(x, "a", e)
    p = x.real("px", -100, 100), x.real("py", -100, 100)
    a.includepoint_pt(*p)
    if t is None:
        same(x, a, p + p, "box of a point")
    else:
        same(x, a, (x.min(t[0], p[0]), x.min(t[1], p[1]), x.max(t[2], p[0]), x.max(t[3], p[1])), "box including the point")
    from pyx import bbox
    b = bbox.empty()
    b.set(a)
    same(x, b, a.highrestuple_pt(), "set")


@harness()
def rect(x):
    """the rectangle of a box is the path around it"""
    from pyx import path
    a, t = box(x, "a")
    for p in (a.rect(), a.path()):
        pts = []
        for i in p.pathitems:
            if isinstance(i, path.closepath):
                pts.append("close")
            else:
                pts.append((i.x_pt, i.y_pt))
        # relative or absolute coordinates: use the written PS operators
        cur = None
        abs_ = []
        for i in p.pathitems:
            n = i.__class__.__name__
            if n == "closepath":
                continue
            if n in ("moveto_pt", "lineto_pt"):
                cur = (i.x_pt, i.y_pt)
            else:
                d = (i.dx_pt, i.dy_pt)
                cur = (cur[0] + d[0], cur[1] + d[1])
            abs_.append(cur)
        want = [(t[0], t[1]), (t[2], t[1]), (t[2], t[3]), (t[0], t[3])]
        x.check(len(abs_) == 4 and p.pathitems[-1].__class__.__name__ == "closepath", "closed rectangle")
        alt = [want[0]] + want[:0:-1]
        ok = lambda w: x.all([abs(u[k] - v[k]) <= 1e-6 for u, v in zip(abs_, w) for k in (0, 1)])
        x.check(x.any([ok(want), ok(alt)]), "corners")
    from pyx import bbox, unit
    b = bbox.bbox(t[0] * unit.t_mm, t[1] * unit.t_cm, t[2] * unit.t_mm, t[3] * unit.t_cm)
    same(x, b, (t[0] * 72 / 25.4, t[1] * 72 / 2.54, t[2] * 72 / 25.4, t[3] * 72 / 2.54), "constructor with lengths")
