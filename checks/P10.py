"""Canvases: attributes (transformations, clipping, styles) of nested canvases, scoping, drawing order, layers, bounding boxes."""
from pysym.api import harness
import lib

BOUNDS = ("up to three nested canvases with up to three attributes each and up to three items each; matrix entries in [-3, 3], coordinates in "
          "[-20, 20] pt, line widths in [0.1, 5] pt; layer histories of up to 3 (thorough: 4) requests over two levels")
ASSUMPTIONS = ["floating point numbers are treated as exact reals; written numbers are taken as exact",
               "the graphics produced are read by interpreters of the PostScript, PDF and SVG operators in use (checks/lib.py)"]

TREES = {
    "plain": ["p", ("", ["p"]), "p"],
    "trafo": ["p", ("T", ["p"]), "p"],
    "trafos": [("TT", ["p"]), "p"],
    "clip": [("C", ["p", "p"]), "p"],
    "trafo clip": [("TC", ["p"]), "p"],
    "clip trafo": [("CT", ["p"]), "p"],
    "trafo clip trafo": [("TCT", ["p"]), "p"],
    "style": [("W", ["p", "w"]), "p"],
    "style clip trafo": [("WCT", ["w", "p"]), "p"],
    "trafo style clip": [("TWC", ["p"]), "w", "p"],
    "nested trafo": [("T", ["p", ("T", ["p"]), "p"]), "p"],
    "nested clip": [("C", ["p", ("TC", ["p"]), "p"]), "p"],
    "nested clip trafo": [("CT", [("C", ["p"]), "p"])],
    "nested style": [("W", [("W", ["p", "w"]), "p"]), "p"],
    "nested mixed": [("WT", [("CW", ["p"]), "w", ("T", ["p"])]), "p"],
    "deep": [("T", [("C", [("W", ["p"]), "p"]), "p"]), "p"],
    "empty inside": [("TC", []), "p", ("W", [("C", [])]), "p"],
    "two filled": ["f", ("CT", ["f", "p"]), "f"],
    "draw trafo": ["t", ("T", ["t", "p"])],
    "draw trafos": ["tt", "p"],
    "insert attrs": [("iT", ["p"]), ("iC", ["p"]), ("iW", ["p", "p"]), "p"],
}
# linear parts of the transformations where paths get normalized or bounding boxes intersected
LINEAR = [((2, 1), (-1, 1)), ((0, -1.5), (1, 0.5)), ((1, 0.5), (0, -2)), ((-1, 0), (0.5, 1))]
BIG = ["deep", "nested mixed", "two filled"]


def reals(x, n, k, lo=-20, hi=20):
    return [x.real("%s_%d" % (n, i), lo, hi) for i in range(k)]


class Build:
    """builds the canvas and, independently, the expected painting operations"""
    def __init__(self, x, full):
        self.x, self.n, self.want, self.full = x, 0, [], full
        self.linear = list(LINEAR)

    def name(self, s):
        self.n += 1
        return "%s%d" % (s, self.n)

    def trafo(self):
        from pyx import trafo
        if not self.full:
            (a, b), (c, d) = self.linear.pop(0)
            a = [a, b, c, d] + reals(self.x, self.name("m"), 2)
            return trafo.trafo_pt(((a[0], a[1]), (a[2], a[3])), (a[4], a[5])), (a[0], a[2], a[1], a[3], a[4], a[5])
        a = reals(self.x, self.name("m"), 6, -3, 3)
        # PyX: x' = a x + b y + tx;  PS order is a c b d tx ty
        self.x.assume(abs(a[0]*a[3] - a[1]*a[2]) >= 0.1)
        return trafo.trafo_pt(((a[0], a[1]), (a[2], a[3])), (a[4], a[5])), (a[0], a[2], a[1], a[3], a[4], a[5])

    def path(self, closed=False):
        from pyx import path
        if closed:
            # normalized by the canvas: nondegenerate
            p = reals(self.x, self.name("p"), 2)
            p = [p[0], p[1], p[0] + 5, p[1], p[0] + 1, p[1] + 4]
        else:
            p = reals(self.x, self.name("p"), 6)
        items = [path.moveto_pt(p[0], p[1]), path.lineto_pt(p[2], p[3]), path.lineto_pt(p[4], p[5])]
        segs = [("M", (p[0], p[1])), ("L", (p[2], p[3])), ("L", (p[4], p[5]))]
        if closed:
            items.append(path.closepath())
            segs.append(("Z",))
        return path.path(*items), segs

    def fill(self, c, items, ctm, clips, lw):
        """adds the items to canvas c and what is to be painted to self.want"""
        from pyx import canvas, style, unit
        for it in items:
            if isinstance(it, str):
                p, segs = self.path(it[0] in "ft")
                l, attrs, m = lw, [], ctm
                if it == "w":
                    l = self.x.real(self.name("lw"), 0.1, 5)
                    attrs = [style.linewidth(l * unit.t_pt)]
                for ch in it:
                    if ch == "t":
                        t, tm = self.trafo()
                        attrs.append(t)
                        segs = lib.map_segs(lambda q: lib.app(tm, q), segs)
                (c.fill if it == "f" else c.stroke)(p, attrs)
                self.want.append(("fill" if it == "f" else "stroke", lib.map_segs(lambda q: lib.app(m, q), segs), clips, l))
                continue
            spec, sub = it
            attrs, tot, l, clip = [], lib.IDENT, lw, None
            for ch in spec:
                if ch == "T":
                    t, tm = self.trafo()
                    attrs.append(t)
                    tot = lib.mul(tot, tm)
                    if clip is not None:
                        clip = lib.map_segs(lambda q: lib.app(tm, q), clip)
                elif ch == "C":
                    p, clip = self.path(True)
                    attrs.append(canvas.clip(p))
                elif ch == "W":
                    l = self.x.real(self.name("lw"), 0.1, 5)
                    attrs.append(style.linewidth(l * unit.t_pt))
            cl = clips + ((lib.map_segs(lambda q: lib.app(ctm, q), clip),) if clip is not None else ())
            if spec[:1] == "i":
                # the item is passed together with its attributes to the insert method, which returns what was inserted
                s = canvas.canvas()
                r = c.insert(s, attrs)
                self.x.check(c[len(c) - 1] is r and r is not s and len(r) == 1 and r[0] is s, "insert returns the wrapped item")
            else:
                s = canvas.canvas(attrs)
                self.x.check(c.insert(s) is s, "insert returns the item")
            self.fill(s, sub, lib.mul(tot, ctm), cl, l)


def same_draws(x, got, want, backend):
    x.check([d.op for d in got] == [w[0] for w in want], "painted in order of insertion", "%s / %s" % (got, [w[0] for w in want]))
    for i, (d, w) in enumerate(zip(got, want)):
        lib.same_segs(x, d.path, w[1], "path %d" % i, 0.05)
        if w[0] == "stroke":
            x.eq(d.s.lw, w[3], "line width of path %d" % i, 1e-4)
        x.check(len(d.s.clips) == len(w[2]), "number of clip paths in force for path %d" % i)
        for j, (a, b) in enumerate(zip(d.s.clips, w[2])):
            lib.same_segs(x, list(a), b, "clip path %d in force for path %d" % (j, i), 0.05)


@harness(cases=[(b, t) for b in ("ps", "pdf", "svg") for t in TREES if t not in BIG] + [("ps", "deep"), ("pdf", "nested mixed"), ("svg", "deep")],
         thorough=[(b, t) for b in ("ps", "pdf", "svg") for t in BIG], simplify=True)
def nested(x, case):
    from pyx import canvas, document, unit
    unit.set(1, 1, 1, 1, "cm")
    backend, tree = case
    b = Build(x, all(k not in str(TREES[tree]) for k in "Ct"))
    c = canvas.canvas()
    b.fill(c, TREES[tree], lib.IDENT, (), 0.02 * 72 / 2.54)
    # a PDF page needs a paper format when nothing on it is visible
    kw = dict(page_paperformat=document.paperformat.A4, page_centered=0) if backend == "pdf" else {}
    same_draws(x, lib.render(x, c, backend, **kw), b.want, backend)


# ---------------------------------------------------------------------- bounding boxes
KINDS = ["", "T", "C", "TC", "CT", "TCT", "N", "CN"]


@harness(cases=KINDS, simplify=True)
def bbox(x, kind):
    """bounding box of a canvas and of the written files"""
    from pyx import canvas, path, trafo, unit
    unit.set(1, 1, 1, 1, "cm")
    x0, y0, x1, y1 = reals(x, "p", 4)
    x.assume(x.all([x0 <= x1, y0 <= y1]))
    box = [x0, y0, x1, y1]
    attrs = []
    for i, ch in enumerate(kind):
        if ch in "TN":
            dx, dy = reals(x, "t%d" % i, 2)
            sx, sy = (2, 0.5) if i == 0 else (-1, 3)
            if ch == "T":
                attrs.append(trafo.trafo_pt(((sx, 0), (0, sy)), (dx, dy)))
                f = lambda X, Y: (sx*X + dx, sy*Y + dy)
            else:
                attrs.append(trafo.trafo_pt(((0, sx), (sy, 0)), (dx, dy)))
                f = lambda X, Y: (sx*Y + dx, sy*X + dy)
            a, b = f(box[0], box[1]), f(box[2], box[3])
            box = [x.min(a[0], b[0]), x.min(a[1], b[1]), x.max(a[0], b[0]), x.max(a[1], b[1])]
        else:
            q = reals(x, "c%d" % i, 4)
            x.assume(x.all([q[0] + 0.1 <= q[2], q[1] + 0.1 <= q[3]]))
            attrs.append(canvas.clip(path.rect_pt(q[0], q[1], q[2]-q[0], q[3]-q[1])))
            box = [x.max(box[0], q[0]), x.max(box[1], q[1]), x.min(box[2], q[2]), x.min(box[3], q[3])]
            x.assume(x.all([box[2] - box[0] >= 0.01, box[3] - box[1] >= 0.01]))
    s = canvas.canvas(attrs)
    s.fill(path.line_pt(x0, y0, x1, y1))
    c = canvas.canvas()
    c.insert(s)
    x.assume(x.all([box[2] - box[0] >= 0.01, box[3] - box[1] >= 0.01]))
    bb = c.bbox()
    for g, w, n in zip((bb.llx_pt, bb.lly_pt, bb.urx_pt, bb.ury_pt), box, ("left", "bottom", "right", "top")):
        x.eq(g, w, "%s of the bounding box" % n, 1e-4)
    for b in ("ps", "pdf", "svg"):
        fb = filebbox(x, c, b, page_bboxenlarge=0)
        for g, w, n in zip(fb, box, ("left", "bottom", "right", "top")):
            x.eq(g, w, "%s of the bounding box in the %s file" % (n, b), 2e-3)


def filebbox(x, c, backend, **kw):
    """llx, lly, urx, ury in pt of the written file"""
    import re
    if backend == "ps":
        t = lib.write_eps(x, c, **kw)
        m = re.search(r"%%HiResBoundingBox: (\S+) (\S+) (\S+) (\S+)", t)
        return [x.num(k) for k in m.groups()]
    if backend == "pdf":
        t = lib.write_pdf(x, c, **kw)
        m = re.search(r"/MediaBox \[\s*(\S+) (\S+) (\S+) (\S+?)\s*\]", t)
        return [x.num(k) for k in m.groups()]
    t = lib.write_svg(x, c, **kw)
    m = re.search(r'viewBox="(\S+) (\S+) (\S+) (\S+)"', t)
    a = [x.num(k) for k in m.groups()]
    return [a[0], -a[1] - a[3], a[0] + a[2], -a[1]]


@harness(cases=["stroke", "trafo", "clip", "two", "fill and stroke"], simplify=True)
def strokebbox(x, kind):
    """in the files, the bounding box contains the stroked lines with their width"""
    from pyx import canvas, path, trafo, unit, style, deco
    unit.set(1, 1, 1, 1, "cm")
    x0, y0, x1 = reals(x, "p", 3)
    x.assume(x0 + 0.5 <= x1)
    lw = x.real("lw", 0.1, 5)
    attrs = []
    box = [x0 - lw/2, y0 - lw/2, x1 + lw/2, y0 + lw/2]
    c = canvas.canvas()
    st = [style.linewidth(lw * unit.t_pt)]
    if kind == "trafo":
        dx, dy = reals(x, "t", 2)
        attrs = [trafo.trafo_pt(((2, 0), (0, 3)), (dx, dy))]
        box = [2*box[0] + dx, 3*box[1] + dy, 2*box[2] + dx, 3*box[3] + dy]
    if kind == "clip":
        q = reals(x, "c", 1)[0]
        attrs = [canvas.clip(path.rect_pt(q, -50, 10, 100))]
        x.assume(x.all([box[0] < q + 9, q + 1 < box[2]]))
        box = [x.max(box[0], q), box[1], x.min(box[2], q + 10), box[3]]
    s = c.insert(canvas.canvas(attrs))
    if kind == "fill and stroke":
        s.draw(path.line_pt(x0, y0, x1, y0), [deco.stroked(st), deco.filled])
    elif kind == "two":
        s.insert(canvas.canvas(st)).stroke(path.line_pt(x0, y0, x1, y0))
        y2 = x.real("y2", -20, 20)
        s.stroke(path.line_pt(x0, y2, x1, y2))
        h = 0.01 * 72 / 2.54
        box = [x.min(box[0], x0 - h), x.min(box[1], y2 - h), x.max(box[2], x1 + h), x.max(box[3], y2 + h)]
    else:
        s.stroke(path.line_pt(x0, y0, x1, y0), st)
    for b in ("ps", "pdf", "svg"):
        fb = filebbox(x, c, b, page_bboxenlarge=0)
        for g, w, n in zip(fb, box, ("left", "bottom", "right", "top")):
            x.eq(g, w, "%s of the bounding box in the %s file" % (n, b), 2e-3)


# ---------------------------------------------------------------------- layers
class Node:
    def __init__(self):
        self.items, self.layers = [], {}

    def leaves(self):
        return [l for i in self.items for l in (i.leaves() if isinstance(i, Node) else [i])]


def model_layer(root, name, above=None, below=None):
    """on top of its group when created, except when put above or below another layer of the group"""
    node = root
    parts = name.split(".")
    for g in parts[:-1]:
        if g not in node.layers:
            node.layers[g] = Node()
            node.items.append(node.layers[g])
        node = node.layers[g]
    last = parts[-1]
    ref = (above or below or "").split(".")[-1]
    if last not in node.layers:
        node.layers[last] = Node()
        if not ref:
            node.items.append(node.layers[last])
    elif ref:
        node.items = [i for i in node.items if i is not node.layers[last]]
    if ref:
        k = [i is node.layers[ref] for i in node.items].index(True)
        node.items.insert(k + (1 if above else 0), node.layers[last])
    return node.layers[last]


NAMES = ["a", "b", "g.a", "g.b"]


@harness(cases=[(b, n) for b, n in (("ps", 2), ("pdf", 2), ("svg", 2))], thorough=[("ps", 3), ("pdf", 3), ("svg", 3), ("ps", 4)], max_paths=100000)
def layers(x, case):
    from pyx import canvas, path
    backend, nops = case
    c = canvas.canvas()
    root = Node()
    x0 = x.real("x0", -5, 5)

    def put(target, node, k):
        target.stroke(path.line_pt(x0 + 10*k, 0, x0 + 10*k, 1))
        node.items.append(k)
    put(c, root, 0)
    put(c.layer("a"), model_layer(root, "a"), 1)
    put(c.layer("g.a"), model_layer(root, "g.a"), 2)
    for i in range(nops):
        name = x.choice("name%d" % i, NAMES)
        kind = x.choice("kind%d" % i, ["", "above", "below"])
        kw = {}
        if kind:
            group = name.rpartition(".")[0]
            node = root.layers[group] if group else root
            refs = sorted(((group + ".") if group else "") + n for n in node.layers)
            refs = [r for r in refs if r != name]
            if not refs:
                x.reject()
            kw[kind] = x.choice("ref%d" % i, refs)
        put(c.layer(name, **kw), model_layer(root, name, **kw), 3 + i)
    put(c, root, 9)
    got = lib.render(x, c, backend)
    want = root.leaves()
    x.check(len(got) == len(want), "each path painted once")
    for i, (d, w) in enumerate(zip(got, want)):
        x.eq(d.path[0][1][0], x0 + 10*w, "path number %d from the bottom" % i, 2e-3)


@harness()
def layer_access(x):
    """the same name gives the same layer; clearing empties the canvas and its layers"""
    from pyx import canvas, path
    c = canvas.canvas()
    a = c.layer("a")
    g = c.layer("g.h.a")
    x.check(c.layer("a") is a and c.layer("g.h.a") is g and c.layer("g").layer("h").layer("a") is g, "one layer per name")
    x.check(c.layer("g.h") is not g and len(c) == 2, "groups")
    try:
        c.layer("b", above="a", below="a")
        x.check(False, "above and below at once are rejected")
    except ValueError:
        pass
    x0 = x.real("x0", -5, 5)
    c.stroke(path.line_pt(x0, 0, x0, 1))
    c.clear()
    x.check(len(c) == 0 and not c.bbox(), "clear removes everything")
    c.layer("a").stroke(path.line_pt(x0 + 10, 0, x0 + 10, 1))
    for b in ("ps", "pdf", "svg"):
        d = lib.render(x, c, b)
        x.check(len(d) == 1, "one path after clear")
        x.eq(d[0].path[0][1][0], x0 + 10, "path after clear", 2e-3)


@harness()
def rejected(x):
    """only canvas items can be inserted, only one clip and only trafos, clips and styles are accepted as attributes"""
    from pyx import canvas, path, trafo, deco, style
    d = x.real("d", -5, 5)
    p = path.rect_pt(d, d, 2, 3)
    x.check(len(canvas.canvas([trafo.translate_pt(d, d), canvas.clip(p), style.linewidth.thin])) == 0, "allowed attributes")
    for f in [lambda: canvas.canvas([canvas.clip(p), canvas.clip(p)]), lambda: canvas.canvas([canvas.clip(p), trafo.translate_pt(d, d), canvas.clip(p)]),
              lambda: canvas.canvas().insert(p), lambda: canvas.canvas().insert(None)]:
        try:
            f()
            x.check(False, "rejected with a ValueError")
        except ValueError:
            pass
    for f in [lambda: canvas.canvas([deco.stroked]), lambda: canvas.canvas().stroke(p, [canvas.clip(p)]), lambda: canvas.canvas([3])]:
        try:
            f()
            x.check(False, "rejected with a TypeError")
        except TypeError:
            pass
