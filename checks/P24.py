"""Axes: positions of values, ranges, ticks, labels, subaxes, linked axes and axes along paths."""
import math
from fractions import Fraction
from pysym.api import harness

BOUNDS = ("axes along straight lines of arbitrary position (and along paths of up to three segments), ranges of up to four data values, ranges up to 3 times the tick distance for painted axes, "
          "up to three subaxes, nested twice")
ASSUMPTIONS = ["texts are replaced by boxes of a given size around their anchor", "logarithms are exact to double precision"]


class Engine:
    """text engine: labels are boxes around their position"""

    def __init__(self, width=6, height=4):
        self.texts = []
        self.size = width, height

    def text_pt(self, x_pt, y_pt, expr, textattrs=[], **kwargs):
        from pyx import box, baseclasses

        class label(box.rect_pt, baseclasses.canvasitem):

            def processPS(self, *args):
                pass
            processPDF = processSVG = processPS

        w, h = self.size
        r = label(x_pt - w/2, y_pt - h/2, w, h, abscenter_pt=(w/2, h/2))
        r.x, r.y, r.expr, r.attrs = x_pt, y_pt, expr, list(textattrs)
        self.texts.append(r)
        return r


class Pos:
    """a straight axis with arbitrary position; remembers nothing"""

    def __init__(self, x0, y0, x1, y1, d, grid=None):
        from pyx.graph.axis import positioner
        self.a = (x0, y0, x1, y1)
        self.d = d
        self.p = positioner.lineaxispos_pt(x0, y0, x1, y1, d, grid)

    def at(self, v):
        x0, y0, x1, y1 = self.a
        return x0 + v*(x1 - x0), y0 + v*(y1 - y0)


def line(x, name="", length=(20, 60), kind="h", grid=None):
    x0, y0 = x.real("x0" + name, -20, 20), x.real("y0" + name, -20, 20)
    l = x.real("length" + name, *length)
    dx, dy = {"h": (1, 0), "v": (0, 1), "s": (0.6, 0.8)}[kind]
    d = {"h": (0, 1), "v": (-1, 0), "s": (0.8, -0.6)}[kind]
    return Pos(x0, y0, x0 + l*dx, y0 + l*dy, d, grid)


def anchored(ax, pos=None, engine=None, data=()):
    from pyx.graph import axis
    pos = pos or Pos(0, 0, 100, 0, (0, 1))
    a = axis.anchoredaxis(ax, engine or Engine(), "n")
    a.setcreatecall(a.create)
    a.setpositioner(pos.p if hasattr(pos, "p") else pos)
    for column in data:
        a.adjustaxis(column)
    return a


def layer(canvas, name):
    """the items of a layer; [] without the layer"""
    return list(canvas.layers[name].items) if name in canvas.layers else []


def strokes(x, items, op="stroke"):
    out = []
    for d in items:
        if hasattr(d, "items"):
            out += strokes(x, d.items)
        elif hasattr(d.path, "pathitems"):
            out.append(([(i.x_pt, i.y_pt) for i in d.path.pathitems if hasattr(i, "x_pt")], d))
        else:
            out.append(([p for sp in d.path.normsubpaths for p in [sp.atbegin_pt()] + [i.atend_pt() for i in sp.normsubpathitems]], d))
    return out


# ---------------------------------------------------------------------- positions of values
def values(x, kind, n):
    """values and their natural scale"""
    vs = []
    for i in range(n):
        if kind == "lin":
            v = x.real("value%d" % i, -50, 50)
            vs.append((v, v))
        else:
            u = x.real("ln value%d" % i, -3, 6)
            e = x.math.exp(u)
            vs.append((e, u) if kind == "log" else (-e, -u))
    return vs


@harness(cases=[(k, r) for k in ("lin", "log", "neglog") for r in ("data", "min", "max", "both", "swapped")], timeout_ms=10000)
def mapping(x, case):
    """the range is that of the data (or given); values are mapped linearly (logarithmically) onto it, in reverse if requested"""
    from pyx.graph import axis
    kind, given = case
    vs = values(x, kind, 3)
    lo, hi = values(x, kind, 3)[:0], None
    probe = x.real("probe", -60, 60) if kind == "lin" else x.real("ln probe", -4, 7)
    pval = probe if kind == "lin" else x.math.exp(probe)
    if kind == "neglog":
        probe, pval = -probe, -pval
    kw = {}
    bound = x.real("bound", -60, 60) if kind == "lin" else x.real("ln bound", -4, 7)
    bval = bound if kind == "lin" else x.math.exp(bound)
    if kind == "neglog":
        bound, bval = -bound, -bval
    s = [u for v, u in vs]
    mn, mx = x.min(*s), x.max(*s)
    reverse = x.bool("reverse")
    flip = False
    if given == "min":
        kw["min"], mn = bval, bound
        x.assume(mx > mn + 0.01)
    elif given == "max":
        kw["max"], mx = bval, bound
        x.assume(mx > mn + 0.01)
    elif given in ("both", "swapped"):
        # the first value is the other bound
        x.assume(s[0] > bound + 0.01)
        kw["min"], kw["max"] = (bval, vs[0][0]) if given == "both" else (vs[0][0], bval)
        flip = given == "swapped"
        mn, mx = bound, s[0]
    else:
        x.assume(mx > mn + 0.01)
    ax = (axis.linear if kind == "lin" else axis.logarithmic)(parter=None, painter=None, reverse=reverse, **kw)
    if x.bool("modified copy"):
        ax = ax(title="x")
    columns = [[vs[0][0], None, vs[1][0]], [vs[2][0], "text"]] if given not in ("both", "swapped") else [[vs[1][0]], [vs[2][0]]]
    a = anchored(ax, data=columns)
    v = a.convert(pval)
    if reverse != flip:
        x.eq((1 - v)*(mx - mn), probe - mn, "position", tol=1e-6)
    else:
        x.eq(v*(mx - mn), probe - mn, "position", tol=1e-6)


@harness(cases=["range", "tuple", "none", "empty"])
def fallback(x, case):
    """data without extent: the fallback range, or an error"""
    from pyx.graph import axis
    c = x.real("c", -50, 50)
    w = x.real("w", 0.1, 10)
    fb = {"range": w, "tuple": (c - w, c + 2*w), "none": None, "empty": w}[case]
    a = anchored(axis.linear(parter=None, painter=None, fallbackrange=fb), data=[[c, c]] if case != "empty" else [[None]])
    try:
        a.create()
    except RuntimeError:
        x.check(case in ("none", "empty"), "an error just without a range")
        return
    x.check(case in ("range", "tuple"), "an error without a range")
    x.eq(a.convert(c), 0.5 if case == "range" else 1/3, "position of the value", tol=1e-6)
    x.eq((a.convert(c + w) - a.convert(c))*(1 if case == "range" else 3), 1, "width of the range", tol=1e-6)


@harness(cases=["both", "min", "max", "none", "reverse", "linked"], eager=True, timeout_ms=10000)
def extended(x, case):
    """ranges coming from data are extended to full ticks, given ones are kept"""
    from pyx.graph import axis
    lo, w = x.real("lo", -2, 2), x.real("w", 1.01, 3)
    hi = lo + w
    for v in (lo, hi):
        # not within the precision of a tick
        r = v - x.math.floor(v)
        x.assume(x.all([r > 1e-4, r < 1 - 1e-4]))
    kw = {}
    if case in ("min", "none"):
        kw["min"] = lo
    if case in ("max", "none"):
        kw["max"] = hi
    a = anchored(axis.linear(parter=axis.parter.linear([1]), painter=None, reverse=case == "reverse", **kw), data=[[hi, lo], [lo + w/2]])
    mn = lo if "min" in kw else x.math.floor(lo + 1e-5)
    mx = hi if "max" in kw else x.math.ceil(hi - 1e-5)
    b = a
    if case == "linked":
        b = axis.linkedaxis(a)
        b.setpositioner(Pos(0, 0, 1, 1, (1, 0)).p)
        b.setcreatecall(b.create)
    p = x.real("probe", -4, 6)
    v = b.convert(p)
    if case == "reverse":
        v = 1 - v
    x.le(abs(v*(mx - mn) - (p - mn)), 1e-4, "position")


# ---------------------------------------------------------------------- painting
PAINT = ["plain", "reverse", "grid", "both lengths", "divisor", "none", "manual", "levels", "outer", "off", "title"]


@harness(cases=[(o, k) for o in PAINT for k in ("h", "v", "s") if k == "h" or o in ("plain", "title", "levels")] + [(d, k) for d in (0, 90, 180, 45) for k in ("h", "v", "s")], eager=True, timeout_ms=10000)
def paint(x, case):
    """a tick and a label at the position of each tick value, with the lengths and distances given; grid, base line, title"""
    from pyx import path, style, color, attr, unit, trafo
    from pyx.graph import axis
    option, kind = case
    grid = lambda v: path.line_pt(v, 3, v, 4)
    pos = line(x, "", kind=kind, grid=grid)
    engine = Engine(x.real("label width", 2, 8), x.real("label height", 2, 8))
    if option in ("levels", "grid"):
        lo, w = x.real("lo", -0.3, 0.3), x.real("w", 1.1, 1.4)
    elif option == "divisor":
        lo, w = x.real("lo", -1.2, 1.2), x.real("w", 2.1, 3)
    else:
        lo, w = x.real("lo", -0.6, 0.6), x.real("w", 1.1, 1.9)
    inner, outer = x.real("inner", -5, 5), x.real("outer", -5, 5)
    dist = x.real("labeldist", 0.5, 9)
    tdist = x.real("titledist", 0.5, 9)
    pkw = dict(innerticklength=inner*unit.t_pt, labeldist=dist*unit.t_pt, titledist=tdist*unit.t_pt)
    kw = {}
    factor = Fraction(1)
    f = 1
    if option in ("both lengths", "levels"):
        f = 0.5 if option == "levels" else 0.25
        pkw.update(innerticklength=axis.painter.ticklength(inner*unit.t_pt, f), outerticklength=outer*unit.t_pt)
    elif option == "outer":
        pkw.update(innerticklength=None, outerticklength=outer*unit.t_pt)
    elif option == "none":
        pkw.update(innerticklength=None)
    elif option == "grid":
        pkw.update(gridattrs=[attr.changelist([style.linestyle.solid, None])])
    elif not isinstance(option, str):
        pkw.update(labeldirection=axis.painter.rotatetext(option), labelattrs=[color.rgb.red])
    elif option == "off":
        pkw.update(labelattrs=None, tickattrs=None, basepathattrs=None, titleattrs=None)
        kw["title"] = "A title"
    elif option == "title":
        pkw.update(titlepos=x.real("titlepos", 0, 1))
        kw["title"] = "A title"
    if option == "divisor":
        kw["divisor"] = 2
        factor = Fraction(2)
    if option == "manual":
        kw["manualticks"] = [axis.tick.tick((1, 4), label="own", ticklevel=None), axis.tick.tick((1, 2), label="half", ticklevel=0)]
    levels = [1, Fraction(1, 2)] if option in ("levels", "grid") else [1]
    ax = axis.linear(min=lo, max=lo + w, reverse=option == "reverse", parter=axis.parter.linear(["1", "1/2"][:len(levels)], ["1"], extendtick=None),
                     painter=axis.painter.regular(**pkw), **kw)
    a = anchored(ax, pos, engine)
    c = a.create()
    hi = lo + w
    # the ticks expected: value, tick level, label
    want = []
    step = levels[-1]*factor
    for k in range(-4, 9):
        v = k*step
        if not -1.2 <= v <= 4.3:
            continue
        # not within the precision of a tick
        x.assume(x.all([x.any([lo < v - 1e-4, lo > v + 1e-4]), x.any([hi < v - 1e-4, hi > v + 1e-4])]))
        if not bool(x.all([lo <= v, v <= hi])):
            continue
        t = next((i for i, l in enumerate(levels) if (v/factor) % l == 0), None)
        lab = str(v/factor) if (v/factor) % 1 == 0 else None
        want.append((float(v), t, lab))
    if option == "manual":
        for v, t, lab in ((0.25, None, "own"), (0.5, 0, "half")):
            # manual ticks are kept also when outside of the range
            want = [i for i in want if i[0] != v] + [(v, t, lab)]
        want.sort()
        if not bool(x.all([lo <= 0.25, 0.5 <= hi])):
            x.reject()
    V = lambda v: (v - lo)/w if option != "reverse" else (hi - v)/w
    dx, dy = pos.d
    ticks = strokes(x, layer(c, "ticks"))
    withticks = [i for i in want if i[1] is not None]
    if option in ("none", "off"):
        x.check(not ticks, "no ticks")
    else:
        x.check(len(ticks) == len(withticks), "number of ticks", ("%d", len(ticks)))
        if len(ticks) != len(withticks):
            return
        for (pts, d), (v, level, lab) in zip(ticks, withticks):
            px, py = pos.at(V(v))
            i = inner*f**level if option != "outer" else 0
            o = outer if option in ("both lengths", "levels", "outer") else 0
            x.check(len(pts) == 2, "a line")
            q = pts[-1]
            x.check(x.all([abs(pts[0][0] - px - dx*i) < 1e-6, abs(pts[0][1] - py - dy*i) < 1e-6, abs(q[0] - px + dx*o) < 1e-6, abs(q[1] - py + dy*o) < 1e-6]), "place of tick")
    labels = [l for l in engine.texts if l.expr != "A title"]
    withlabels = [i for i in want if i[2] is not None]
    if option == "off":
        x.check(not labels or not layer(c, "labels"), "no labels")
        x.check(not c.layers, "nothing is painted")
        return
    x.check([l.expr for l in labels] == [i[2] for i in withlabels], "labels")
    x.check(len(layer(c, "labels")) == len(labels), "labels are painted")
    extent = 0
    for l, (v, level, lab) in zip(labels, withlabels):
        px, py = pos.at(V(v))
        # the nearest corner has the label distance
        near = x.min(*[-(cx - px)*dx - (cy - py)*dy for cx, cy in l.corners])
        x.eq(near, dist, "distance of label", tol=1e-6)
        # the center is moved along the tick direction
        cx, cy = l.center
        x.eq((cx - px)*dy - (cy - py)*dx, 0, "place of label", tol=1e-6)
        if not isinstance(option, str):
            r = [t for t in l.attrs if isinstance(t, trafo.trafo_pt)]
            x.check(len(r) == 1 and color.rgb.red in l.attrs, "label attributes")
            want_angle = pkw["labeldirection"].direction + math.degrees(math.atan2(dy, dx))
            ca, sa = r[0].matrix[0][0], r[0].matrix[1][0]
            x.check(abs(ca*math.sin(math.radians(want_angle)) - sa*math.cos(math.radians(want_angle))) < 1e-6, "direction of label")
            x.check(ca > -1e-6, "labels are not upside down")
    if option == "grid":
        g = strokes(x, layer(c, "grid"))
        full = [i for i in want if i[1] == 0] if len(set(i[1] for i in withticks)) > 1 or True else []
        x.check(len(g) == len(full), "grid lines for the full ticks")
        for (pts, d), (v, level, lab) in zip(g, full):
            x.eq(pts[0][0], V(v), "place of grid line", tol=1e-6)
    b = strokes(x, layer(c, "baseline"))
    x.check(len(b) == 1 and len(b[0][0]) == 2, "base line")
    x0, y0, x1, y1 = pos.a
    (p, q) = b[0][0]
    x.check(x.all([abs(p[0] - x0) < 1e-6, abs(p[1] - y0) < 1e-6, abs(q[0] - x1) < 1e-6, abs(q[1] - y1) < 1e-6]), "place of base line")
    ext = 0
    tl = [0]
    if option != "none":
        if option in ("both lengths", "levels", "outer"):
            tl.append(outer)
        if option != "outer":
            tl += [-inner*f**l for v, l, lab in withticks]
    for l, (v, level, lab) in zip(labels, withlabels):
        px, py = pos.at(V(v))
        tl.append(x.max(*[-(cx - px)*dx - (cy - py)*dy for cx, cy in l.corners]))
    if option == "title":
        t = [l for l in engine.texts if l.expr == "A title"]
        x.check(len(t) == 1, "one title")
        t = t[0]
        px, py = pos.at(pkw["titlepos"])
        x.eq(t.x, px, "place of title", tol=1e-6)
        x.eq(t.y, py, "place of title", tol=1e-6)
        near = x.min(*[-(cx - px)*dx - (cy - py)*dy for cx, cy in t.corners])
        x.eq(near, x.max(*tl) + tdist, "distance of title", tol=1e-6)
    else:
        x.eq(c.extent_pt, x.max(*tl), "extent", tol=1e-6)


@harness(cases=[(0, 10, "h"), (0.5, 9.5, "h"), (-3, 4, "v")], thorough=[(0.013, 0.019, "h"), (1, 2, "v")], timeout_ms=10000, simplify=True)
def automatic(x, case):
    """among the partitions proposed one is used whose labels do not overlap"""
    from pyx.graph import axis
    lo, hi, kind = case
    l = 60
    pos = Pos(3, 7, 3 + l, 7, (0, 1)) if kind == "h" else Pos(3, 7, 3, 7 + l, (-1, 0))
    size = x.real("label size", 1, 25)
    engine = Engine(size, 3) if kind == "h" else Engine(3, size)
    # for horizontal axes the distances of labels are not rated (just whether they overlap)
    rater = axis.rater.linear() if kind == "v" else axis.rater.linear(distance=axis.rater.distance(1, weight=0))
    a = anchored(axis.linear(painter=axis.painter.regular(titleattrs=None), rater=rater), pos, engine, data=[[lo, hi]])
    try:
        c = a.create()
    except RuntimeError as e:
        x.check("no valid" in str(e), "an error just when no partition fits")
        x.check(size > (pos.a[2] - pos.a[0] if kind == "h" else pos.a[3] - pos.a[1])/3, "an error just when labels are large")
        return
    x.check(a.data.min <= lo and a.data.max >= hi, "the range includes the data")
    labels = list(c.labels)
    x.check(len(labels) > 1, "at least two labels")
    u = 0 if kind == "h" else 1
    for l1, l2 in zip(labels, labels[1:]):
        x.check(min(p[u] for p in l2.corners[:1]) >= l1.corners[2][u] - 1e-8, "labels do not overlap")
    ticks = [t for t in a.data.ticks if t.labellevel is not None]
    x.check([t.label for t in ticks] == [l.expr for l in labels], "labels of the ticks")
    for t, l in zip(ticks, labels):
        px, py = pos.at((float(t) - a.data.min)/(a.data.max - a.data.min))
        x.check(abs(l.center[u] - (px, py)[u]) < 1e-6, "place of label")
    st = strokes(x, layer(c, "ticks"))
    x.check(len(st) == len(a.data.ticks), "ticks are painted")
    for t, (pts, d) in zip(a.data.ticks, st):
        v = a.convert(t)
        x.eq(v*(a.data.max - a.data.min), float(t) - a.data.min, "position of tick", tol=1e-6)
        px, py = pos.at(v)
        x.check(x.all([abs(pts[-1][0] - px) < 1e-6, abs(pts[-1][1] - py) < 1e-6]), "place of tick")


# ---------------------------------------------------------------------- bar axes
@harness(cases=["plain", "reverse", "sized", "autosized", "nested", "listed", "epsilon", "copy", "split"], timeout_ms=10000)
def bars(x, case):
    """subaxes in order of appearance, with their sizes and the distances; values are placed inside of the one they belong to"""
    from pyx.graph import axis
    dist, first, last = x.real("dist", 0, 2), x.real("firstdist", 0, 2), x.real("lastdist", 0, 2)
    kw = dict(dist=dist)
    if case in ("plain", "copy"):
        first = last = dist/2
    elif case == "split":
        first = last = 0
    elif case == "sized":
        kw.update(firstdist=first)
        last = dist/2
    else:
        kw.update(firstdist=first, lastdist=last)
    names = ["b", "a", "c"]
    sizes = [1, 1, 1]
    lo = [x.real("lo%d" % i, -5, 5) for i in range(3)]
    wd = [x.real("w%d" % i, 0.5, 5) for i in range(3)]
    data = [[(names[0], lo[0]), (names[1], lo[1] + wd[1]), (names[0], lo[0] + wd[0])], [(names[1], lo[1]), (None, 7.5), (names[2], lo[2]), (names[2], lo[2] + wd[2])]]
    sub = dict(parter=None, painter=None)
    if case == "sized":
        s = [x.real("size%d" % i, 0.5, 3) for i in range(2)]
        kw["subaxes"] = {"a": axis.sizedlinear(s[0], **sub), "c": axis.sizedlinear(size=s[1], **sub), "unused": axis.sizedlinear(100, **sub)}
        if x.bool("copies"):
            kw["subaxes"] = {k: v(title="t") for k, v in kw["subaxes"].items()}
        sizes = [1, s[0], s[1]]
        kw["defaultsubaxis"] = axis.linear(**sub)
    elif case == "autosized":
        kw["defaultsubaxis"] = axis.autosizedlinear(painter=None, parter=None)
        sizes = wd
    elif case == "listed":
        kw["subaxes"] = [axis.sizedlinear(2, **sub), axis.linear(**sub), None]
        names = [1, 0]
        data = [[(1, lo[0]), (2, 5.5), (0, lo[1])], [(1, lo[0] + wd[0]), (0, lo[1] + wd[1])]]
        sizes = [1, 2]
    elif case == "split":
        kw["defaultsubaxis"] = axis.linear(**sub)
    elif case == "nested":
        d2 = x.real("inner dist", 0, 1)
        kw["defaultsubaxis"] = axis.bar(dist=d2, painter=None, linkpainter=None)
        names = ["b", "a"]
        data = [[("b", ("u", lo[0])), ("a", ("w", lo[1])), ("b", ("v", lo[2])), ("b", ("u", lo[0] + wd[0])), ("a", ("w", lo[1] + wd[1])), ("b", ("v", lo[2] + wd[2]))]]
        sizes = [2 + 2*d2, 1 + d2]
    cls = axis.split if case == "split" else axis.nestedbar if case == "nested" else axis.bar
    if case == "copy":
        ax = cls(painter=None, dist=x.real("other dist", 0, 2), title="u")(dist=dist)
        x.check(ax.title == "u" and ax.painter is None, "the copy keeps other settings")
    else:
        ax = cls(painter=None, reverse=case == "reverse", **kw)
    a = anchored(ax, data=data)
    total = first + last + dist*(len(names) - 1)
    for s in sizes:
        total = total + s
    order = list(range(len(names)))
    if case == "reverse":
        order.reverse()
    at = first
    start, end = {}, {}
    for i in order:
        start[i] = at
        at = at + sizes[i]
        end[i] = at
        at = at + dist
    i = x.choice("probe in", list(range(len(names))))
    p = x.real("probe", -0.2 if case == "epsilon" else 0, 1.2 if case == "epsilon" else 1)
    name = names[i]
    if case == "nested":
        subname = x.choice("sub", ["u", "v"]) if i == 0 else "w"
        k = {"u": 0, "v": 2, "w": 1}[subname]
        v = a.convert((name, (subname, lo[k] + p*wd[k])))
        off = d2/2 + (1 + d2 if subname == "v" else 0)
        x.eq(v*total, start[i] + off + p, "position", tol=1e-6)
        return
    try:
        v = a.convert((name, lo[i] + p*wd[i]))
    except ValueError:
        x.check(case == "epsilon", "values in the range are accepted")
        x.check(x.any([p < 1e-9, p > 1 - 1e-9]), "values in the range are accepted")
        return
    if case == "epsilon":
        x.check(x.all([p > -1e-9, p < 1 + 1e-9]), "values outside of the range are refused")
    x.eq(v*total, start[i] + p*(end[i] - start[i]), "position", tol=1e-6)
    try:
        a.convert((None, 1))
    except ValueError:
        pass
    else:
        x.check(False, "None is no subaxis")


@harness(cases=["plain", "ticks", "linked", "subaxes", "linked subaxes", "split", "linked split"], eager=True, timeout_ms=10000)
def barpaint(x, case):
    """names at their place below the range of the subaxis, ticks between the subaxes; subaxes painted at their place; breaks between the parts of a split axis"""
    from pyx import unit, attr
    from pyx.graph import axis
    dist = x.real("dist", 0.1, 2)
    kind = x.choice("kind", ["h", "v", "s"])
    pos = line(x, "", kind=kind)
    engine = Engine()
    ndist = x.real("namedist", 0.5, 9)
    tdist = x.real("titledist", 0.5, 9)
    namepos = x.real("namepos", 0, 1)
    inner, outer = x.real("inner", -5, 5), x.real("outer", -5, 5)
    s = x.real("size", 0.5, 3)
    names = ["b", "a"]
    sizes = [1, s]
    ticks = "ticks" in case or "split" not in case and "linked" in case
    issplit = "split" in case
    sub = dict(parter=None, painter=None, linkpainter=None)
    linetick = axis.painter.regular(innerticklength=1*unit.t_pt, labelattrs=None, basepathattrs=None)
    if "subaxes" in case:
        sub = dict(parter=axis.parter.linear(["1/2"], extendtick=None), painter=linetick, linkpainter=axis.painter.linked(innerticklength=2*unit.t_pt, basepathattrs=None))
    pkw = dict(namedist=ndist*unit.t_pt, namepos=namepos, titledist=tdist*unit.t_pt)
    if ticks:
        pkw.update(innerticklength=inner*unit.t_pt, outerticklength=outer*unit.t_pt)
    first = dist/2
    if issplit:
        first = 0
        bd, bl = x.real("breaklinesdist", 0.5, 3), x.real("breaklineslength", 2, 10)
        ang = x.choice("breaklinesangle", [-60, 90, 30])
        skw = dict(breaklinesdist=bd*unit.t_pt, breaklineslength=bl*unit.t_pt, breaklinesangle=ang)
        ax = axis.split(dist=dist, subaxes={"a": axis.sizedlinear(s, min=0, max=1, **sub)}, defaultsubaxis=axis.linear(min=0, max=1, **sub),
                        painter=axis.painter.split(**skw), linkpainter=axis.painter.linkedsplit(**skw))
    else:
        ax = axis.bar(dist=dist, subaxes={"a": axis.sizedlinear(s, min=0, max=1, **sub)}, defaultsubaxis=axis.linear(min=0, max=1, **sub),
                      painter=axis.painter.bar(**pkw), linkpainter=axis.painter.linkedbar(**pkw), title=None if case == "linked" else "A title")
    a = anchored(ax, pos, engine, data=[[("b", 0.3), ("a", 0.4)]])
    c = a.create()
    if "linked" in case:
        engine.texts = []
        pos = line(x, " linked", kind=kind)
        b = axis.linkedaxis(a)
        b.setpositioner(pos.p)
        b.setcreatecall(b.create)
        c = b.create()
    total = 1 + s + dist + 2*first
    start = [first/total, (first + 1 + dist)/total]
    end = [(first + 1)/total, (first + 1 + dist + s)/total]
    mid = (first + 1 + dist/2)/total
    dx, dy = pos.d
    if issplit:
        # three fills and strokes: the break is a stroke at each side
        items = layer(c, "baseline")
        st = strokes(x, [i for i in items])
        x.check(len(st) == 3, "a break")
        if len(st) != 3:
            return
        (white, dw), (l1, d1), (l2, d2) = st
        px, py = pos.at(mid)
        ax_ = (-dy, dx) if kind != "s" else (-dy, dx)
        # direction of the axis
        X0, Y0, X1, Y1 = pos.a
        ux, uy = {"h": (1, 0), "v": (0, 1), "s": (0.6, 0.8)}[kind]
        al = math.radians(ang)
        bx, by = ux*math.cos(al) - uy*math.sin(al), ux*math.sin(al) + uy*math.cos(al)
        allp = l1 + l2
        x.check(len(allp) == 4, "two lines")
        x.eq(sum(p[0] for p in allp)/4, px, "the break is centered", tol=1e-5)
        x.eq(sum(p[1] for p in allp)/4, py, "the break is centered", tol=1e-5)
        for l in (l1, l2):
            vx, vy = l[1][0] - l[0][0], l[1][1] - l[0][1]
            x.check(x.all([abs(vx - bl*bx) < 1e-5, abs(vy - bl*by) < 1e-5]), "direction and length of the break")
            x.eq(abs(((l[0][0] + l[1][0])/2 - px)*by - ((l[0][1] + l[1][1])/2 - py)*bx), bd/2, "width of the break", tol=1e-5)
        x.check(len(white) >= 4, "the base line is hidden")
        return
    # names
    texts = [t for t in engine.texts if t.expr != "A title"]
    ext = 0
    if "linked" in case:
        x.check(not texts, "no names")
    else:
        x.check([t.expr for t in texts] == names, "names")
        for t, v0, v1 in zip(texts, start, end):
            px, py = pos.at(v0 + namepos*(v1 - v0))
            x.check(x.all([abs(t.x - px) < 1e-6, abs(t.y - py) < 1e-6]), "place of name")
            near = x.min(*[-(cx - px)*dx - (cy - py)*dy for cx, cy in t.corners])
            x.eq(near, ndist, "distance of name", tol=1e-6)
            cx, cy = t.center
            x.eq((cx - px)*dy - (cy - py)*dx, 0, "direction of name", tol=1e-6)
    t = strokes(x, layer(c, "ticks"))
    if ticks and "subaxes" not in case:
        x.check(len(t) == 3, "ticks at both ends and between the subaxes")
        for (pts, d), v in zip(t, [0, mid, 1]):
            px, py = pos.at(v)
            q = pts[-1]
            x.check(x.all([abs(pts[0][0] - px - dx*inner) < 1e-6, abs(pts[0][1] - py - dy*inner) < 1e-6, abs(q[0] - px + dx*outer) < 1e-6, abs(q[1] - py + dy*outer) < 1e-6]), "place of tick")
    if case.endswith("subaxes"):
        # three ticks of each subaxis
        items = layer(c, "ticks")
        i = 2 if "linked" in case else 1
        found = []
        for item in items:
            if hasattr(item, "items"):
                found += strokes(x, item.items)
        want = [v0 + f*(v1 - v0) for v0, v1 in zip(start, end) for f in (0, 0.5, 1)]
        x.check(len(found) == len(want), "ticks of the subaxes")
        for (pts, d), v in zip(found, want):
            px, py = pos.at(v)
            x.check(x.all([abs(pts[0][0] - px - dx*i) < 1e-6, abs(pts[0][1] - py - dy*i) < 1e-6, abs(pts[-1][0] - px) < 1e-6, abs(pts[-1][1] - py) < 1e-6]), "place of tick")
    b = strokes(x, [i for i in layer(c, "baseline") if not hasattr(i, "items")])
    x.check(len(b) == 1, "base line")
    (p, q) = b[0][0]
    x.check(x.all([abs(u - v) < 1e-6 for u, v in zip((p[0], p[1], q[0], q[1]), pos.a)]), "place of base line")


@harness(cases=["lin", "reverse", "log", "bar", "nested"], timeout_ms=10000)
def points(x, case):
    """points, directions, grid lines and parts of the base path of an axis; subaxes"""
    from pyx import path, unit
    from pyx.graph import axis
    kind = x.choice("kind", ["h", "s"])
    pos = line(x, "", kind=kind, grid=lambda v: path.line_pt(v, 3, v, 4))
    p, q = x.real("p", 0, 1), x.real("q", 0, 1)
    lo, w = x.real("lo", -5, 5), x.real("w", 0.5, 5)
    if case in ("lin", "reverse"):
        a = anchored(axis.linear(min=lo, max=lo + w, parter=None, painter=None, reverse=case == "reverse"), pos)
        V, W = (p, q) if case == "lin" else (1 - p, 1 - q)
        vp, vq = lo + p*w, lo + q*w
        s = a
    elif case == "log":
        a = anchored(axis.logarithmic(min=x.math.exp(lo), max=x.math.exp(lo + w), parter=None, painter=None), pos)
        V, W = p, q
        vp, vq = x.math.exp(lo + p*w), x.math.exp(lo + q*w)
        s = a
    else:
        dist = x.real("dist", 0.1, 2)
        inner = axis.linear(min=lo, max=lo + w, parter=None, painter=None)
        if case == "bar":
            a = anchored(axis.bar(dist=dist, defaultsubaxis=inner, painter=None), pos, data=[[("u", lo), ("v", lo)]])
            total = 2 + 2*dist
            V, W = (dist*1.5 + 1 + p)/total, (dist*1.5 + 1 + q)/total
            vp, vq = ("v", lo + p*w), ("v", lo + q*w)
        else:
            a = anchored(axis.nestedbar(dist=dist, defaultsubaxis=axis.bar(dist=0, defaultsubaxis=inner, painter=None, linkpainter=None), painter=None), pos, data=[[("u", ("k", lo)), ("v", ("l", lo)), ("v", ("m", lo))]])
            total = 3 + 2*dist
            V, W = (dist*1.5 + 2 + p)/total, (dist*1.5 + 2 + q)/total
            vp, vq = ("v", ("m", lo + p*w)), ("v", ("m", lo + q*w))
        s = a
    def near(pt, v, label):
        px, py = pos.at(v)
        x.check(x.all([abs(pt[0] - px) < 1e-6, abs(pt[1] - py) < 1e-6]), label)
    near(a.tickpoint_pt(vp), V, "tickpoint")
    near([unit.topt(u) for u in a.tickpoint(vp)], V, "tickpoint")
    near(a.vtickpoint_pt(p), p, "vtickpoint")
    near([unit.topt(u) for u in a.vtickpoint(p)], p, "vtickpoint")
    x.check(tuple(a.tickdirection(vp)) == tuple(pos.d) and tuple(a.vtickdirection(p)) == tuple(pos.d), "direction")
    g = a.gridpath(vp).normpath().atbegin_pt()
    x.eq(g[0], V, "gridpath", tol=1e-6)
    x.eq(a.vgridpath(p).normpath().atbegin_pt()[0], p, "vgridpath", tol=1e-6)
    def ends(path, v1, v2, label):
        it = list(path.pathitems)
        near((it[0].x_pt, it[0].y_pt), v1, label)
        near((it[-1].x_pt, it[-1].y_pt), v2, label)
    ends(a.basepath(), 0, 1, "base path")
    ends(a.basepath(vp), V, 1, "base path from")
    ends(a.basepath(None, vp), 0, V, "base path to")
    ends(a.basepath(x2=vp), 0, V, "base path to")
    ends(a.basepath(vp, vq), V, W, "base path from and to")
    ends(a.vbasepath(p, q), p, q, "vbasepath")
    if case in ("bar", "nested"):
        sub = a.data.subaxes["v"]
        f = 1 if case == "bar" else 2
        v0, v1 = (dist*1.5 + 1)/total, (dist*1.5 + 1 + f)/total
        near(sub.vtickpoint_pt(p), v0 + p*(v1 - v0), "point of a subaxis")
        ends(sub.basepath(), (dist + 1)/total, 1, "base path of a subaxis")
        ends(sub.vbasepath(p, q), v0 + p*(v1 - v0), v0 + q*(v1 - v0), "base path of a subaxis")
        if case == "bar":
            first = a.data.subaxes["u"]
            ends(first.basepath(), 0, (dist + 1)/total, "base path of the first subaxis")
            ends(sub.basepath(lo + p*w), V, 1, "base path of a subaxis")


@harness(cases=[("L", 1), ("L", -1), ("Z", 1), ("line", -1), ("Z", "parts")], timeout_ms=10000, eager=True)
def alongpath(x, case):
    """axes along paths: ticks are at the arc length corresponding to their position, orthogonal to the path"""
    from pyx import path, unit
    from pyx.graph import axis
    shape, direction = case
    dirs = {"L": [(1, 0), (0, 1)], "Z": [(0.6, 0.8), (1, 0), (0, -1)], "line": [(0.8, -0.6)]}[shape]
    x0, y0 = x.real("x0", -20, 20), x.real("y0", -20, 20)
    ls = [x.real("l%d" % i, 3, 20) for i in range(len(dirs))]
    pts = [(x0, y0)]
    for l, (ux, uy) in zip(ls, dirs):
        pts.append((pts[-1][0] + l*ux, pts[-1][1] + l*uy))
    p = path.path(path.moveto_pt(*pts[0]), *[path.lineto_pt(*q) for q in pts[1:]])
    total = sum(ls[1:], ls[0])
    t = x.real("value", 0.02, 0.98)
    def at(s):
        for i, (l, (ux, uy)) in enumerate(zip(ls, dirs)):
            if i == len(ls) - 1 or bool(s < l):
                x.assume(x.all([s > 1e-2, s < l - 1e-2]))
                return pts[i][0] + s*ux, pts[i][1] + s*uy, ux, uy
            s = s - l
    s = t*total
    px, py, ux, uy = at(s)
    if direction == "parts":
        a = axis.anchoredpathaxis(p, axis.linear(min=0, max=1, parter=None, painter=None))
        b = a.basepath(t)
        b1, b2 = b.atbegin_pt(), b.atend_pt()
        x.check(x.all([abs(b1[0] - px) < 1e-4, abs(b1[1] - py) < 1e-4, abs(b2[0] - pts[-1][0]) < 1e-4, abs(b2[1] - pts[-1][1]) < 1e-4]), "second part of the path")
        b = a.basepath(None, t)
        b1, b2 = b.atbegin_pt(), b.atend_pt()
        x.check(x.all([abs(b2[0] - px) < 1e-4, abs(b2[1] - py) < 1e-4, abs(b1[0] - pts[0][0]) < 1e-4, abs(b1[1] - pts[0][1]) < 1e-4]), "first part of the path")
        return
    r = axis.painter.regular(innerticklength=2*unit.t_pt, outerticklength=1*unit.t_pt, labelattrs=None)
    ax = axis.linear(min=-t, max=1 - t, parter=None, painter=r, manualticks=[axis.tick.tick(0)])
    c = axis.anchoredpathaxis(p, ax, direction=direction).canvas
    st = strokes(x, layer(c, "ticks"))
    x.check(len(st) == 1, "a tick")
    (q1, q2) = st[0][0]
    nx, ny = -uy*direction, ux*direction
    x.check(x.all([abs(q1[0] - px - 2*nx) < 1e-4, abs(q1[1] - py - 2*ny) < 1e-4, abs(q2[0] - px + nx) < 1e-4, abs(q2[1] - py + ny) < 1e-4]), "place of tick")
    b = strokes(x, layer(c, "baseline"))
    x.check(len(b) == 1 and len(b[0][0]) == len(pts), "base line")


@harness(cases=["linear", "logarithmic", "sizedlinear", "autosizedlinear", "bar", "split"])
def settings(x, name):
    """axes keep all settings when modified copies are made by calling them"""
    from pyx import unit
    from pyx.graph import axis
    cls = getattr(axis, name)
    u, v = x.real("u", 1, 2), x.real("v", 3, 4)
    if name in ("bar", "split"):
        a = cls(dist=u, firstdist=v, lastdist=u, epsilon=v, reverse=1, title="t", subaxes={"a": 1}, painter_titlepos=u, linkpainter_titlepos=v, defaultsubaxis_min=u)
        for a in (a, a(title="t"), a(subaxes={"a": 1})(painter_titlepos=u)):
            x.check(type(a) is cls, "type")
            x.check(x.all([a.dist == u, a.firstdist == v, a.lastdist == u, a.epsilon == v, a.reverse == 1, a.title == "t", a.subaxes == {"a": 1}]), "settings")
            x.check(x.all([a.painter.titlepos == u, a.linkpainter.titlepos == v, a.defaultsubaxis.min == u]), "settings of parts")
            x.check(type(a.painter) is (axis.painter.bar if name == "bar" else axis.painter.split), "painter")
        b = a(dist=v)
        x.check(x.all([b.dist == v, b.firstdist == v]), "modified")
        return
    kw = dict(min=u, max=v, reverse=1, divisor=v, title="t", maxworse=3, fallbackrange=u, painter_titlepos=u, linkpainter_titlepos=v, parter_extendtick=2, rater_density=v, texter_minexponent=7)
    if name == "sizedlinear":
        kw["size"] = u
    if name == "logarithmic":
        kw["linearparter_extendtick"] = 3
    a = cls(**kw)
    for a in (a, a(title="t"), a(min=u)(painter_titlepos=u)):
        x.check(type(a) is cls, "type")
        x.check(x.all([a.min == u, a.max == v, a.reverse == 1, a.divisor == v, a.title == "t", a.maxworse == 3, a.fallbackrange == u]), "settings")
        x.check(x.all([a.painter.titlepos == u, a.linkpainter.titlepos == v, a.parter.extendtick == 2, a.rater.density == v]), "settings of parts")
        if name == "sizedlinear":
            x.check(a.size == u, "size")
        if name == "logarithmic":
            x.check(a.linearparter.extendtick == 3, "partitioner for linear partitions")
    b = a(max=v + 1, min=u + 1)
    x.check(x.all([b.min == u + 1, b.max == v + 1, b.title == "t", a.min == u]), "modified")
