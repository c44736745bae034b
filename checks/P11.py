"""Attribute lists and styles: which style applies to which stroke and fill, and with which value, in all output formats."""
from pysym.api import harness
import lib

BOUNDS = ("attribute lists of up to 3 (thorough: 4) entries out of 16 kinds on each of the levels canvas, drawing command, decorator; line widths in [0.1, 5] pt, dash lengths in [0, 5], "
          "miter limits in [1, 20], color components in [0, 1] (concrete colors in SVG), changeable lists of up to 4 entries")
ASSUMPTIONS = ["floating point numbers are treated as exact reals; written numbers are taken as exact",
               "the graphics produced are read by interpreters of the PostScript, PDF and SVG operators in use (checks/lib.py)"]

LWDEF = 0.02 * 72 / 2.54
KINDS = ["lw", "dash", "absdash", "linestyle", "cap", "join", "miter", "gray", "rgb", "cmyk", "fillrule",
         "lw.clear", "dash.clear", "linestyle.clear", "cap.clear", "clear"]
STROKEK = [k for k in KINDS if k not in ("fillrule",)]
FILLK = ["gray", "rgb", "cmyk", "fillrule", "clear"]


class Src:
    """source of attributes: PyX attribute and a neutral description (kind, value)"""
    def __init__(self, x, backend):
        self.x, self.b, self.n = x, backend, 0

    def r(self, lo, hi):
        self.n += 1
        return self.x.real("v%d" % self.n, lo, hi)

    def comps(self, n):
        if self.b == "svg":
            self.n += 1
            return [((self.n * 3 + i * 5) % 8) / 8 for i in range(n)]
        return [self.r(0, 1) for i in range(n)]

    def make(self, kind):
        from pyx import style, color, attr, unit
        if kind == "lw":
            w = self.r(0.1, 5)
            return style.linewidth(w * unit.t_pt), ("lw", w)
        if kind in ("dash", "absdash"):
            d = [self.r(0, 5), self.r(0.5, 5)]
            o = self.r(-3, 3)
            return style.dash(d, o, rellengths=kind == "dash"), ("dash", d, o, kind == "dash")
        if kind == "linestyle":
            d = [self.r(0.5, 5)]
            c = [style.linecap.butt, style.linecap.round, style.linecap.square][self.n % 3]
            return style.linestyle(c, style.dash(d)), ("linestyle", self.n % 3, d)
        if kind == "cap":
            self.n += 1
            return [style.linecap.butt, style.linecap.round, style.linecap.square][self.n % 3], ("cap", self.n % 3)
        if kind == "join":
            self.n += 1
            return [style.linejoin.miter, style.linejoin.round, style.linejoin.bevel][self.n % 3], ("join", self.n % 3)
        if kind == "miter":
            v = self.r(1, 20)
            return style.miterlimit(v), ("miter", v)
        if kind in ("gray", "rgb", "cmyk"):
            v = self.comps({"gray": 1, "rgb": 3, "cmyk": 4}[kind])
            return getattr(color, kind)(*v), ("color", kind, tuple(v))
        if kind == "fillrule":
            self.n += 1
            return [style.fillrule.nonzero_winding, style.fillrule.even_odd][self.n % 2], ("fillrule", self.n % 2)
        if kind == "clear":
            return attr.clear, ("clear", None)
        k = kind.split(".")[0]
        return {"lw": style.linewidth, "dash": style.dash, "linestyle": style.linestyle, "cap": style.linecap}[k].clear, ("clear", k)


class Look:
    """the state of the graphics as far as set by styles (model)"""
    def __init__(self):
        self.lw, self.cap, self.join, self.miter, self.dash = LWDEF, 0, 0, 10, ((), 0)
        self.stroke = self.fill = ("gray", (0,))
        self.rule = 0

    def apply(self, desc, stroke=True, fill=True):
        """an attribute list: a later entry replaces earlier ones of its kind, clear entries remove the earlier ones (all or those of
        one kind); relative dash lengths refer to the line width set by the same list, if any"""
        n = Look()
        n.__dict__.update(self.__dict__)
        eff = []
        for d in desc:
            if d[0] == "clear":
                eff = [e for e in eff if d[1] is not None and e[0] != d[1]]
            else:
                eff = [e for e in eff if e[0] != d[0]] + [d]
        for d in eff:
            if d[0] == "lw":
                n.lw = d[1]
        for d in eff:
            if d[0] in ("cap", "join", "miter"):
                setattr(n, d[0], d[1])
            elif d[0] == "dash":
                f = n.lw / LWDEF if d[3] else 1
                n.dash = (tuple(e * f for e in d[1]), d[2])
            elif d[0] == "linestyle":
                n.cap = d[1]
                n.dash = (tuple(e * (n.lw / LWDEF) for e in d[2]), 0)
            elif d[0] == "color":
                if stroke:
                    n.stroke = d[1:]
                if fill:
                    n.fill = d[1:]
            elif d[0] == "fillrule":
                n.rule = d[1]
        return n


def hexof(c):
    import binascii
    kind, v = c
    if kind == "gray":
        rgb = (v[0],) * 3
    elif kind == "cmyk":
        rgb = [1 - min(1, e + v[3]) for e in v[:3]]
    else:
        rgb = v
    return [e * 255 for e in rgb]


def same_color(x, backend, got, want, label):
    if backend == "svg":
        h = got[1].lstrip("#")
        h = h if len(h) == 6 else "".join(2*e for e in h)
        g = [int(h[i:i+2], 16) for i in (0, 2, 4)]
        x.check(all(abs(a - b) <= 1 for a, b in zip(g, hexof(want))), label, "%s %s" % (g, hexof(want)))
    else:
        x.check(got[0] == want[0], label + ": color space", "%s %s" % (got, want))
        if got[0] == want[0]:
            for a, b in zip(got[1], want[1]):
                x.eq(a, b, label, 1e-5)


def look_ok(x, backend, d, look, label):
    s = d.s
    if d.op == "stroke":
        x.eq(s.lw, look.lw, label + ": line width", 1e-4)
        x.check(s.cap == look.cap, label + ": line cap")
        x.check(s.join == look.join, label + ": line join")
        x.eq(s.miter, look.miter, label + ": miter limit", 1e-4)
        x.check(len(s.dash[0]) == len(look.dash[0]), label + ": number of dash lengths")
        for a, b in zip(s.dash[0], look.dash[0]):
            x.eq(a, b, label + ": dash length", 1e-3)
        if s.dash[0]:
            x.eq(s.dash[1], look.dash[1], label + ": dash offset", 1e-4)
        same_color(x, backend, s.stroke, look.stroke, label + ": stroke color")
    else:
        x.check(d.op == ("eofill" if look.rule else "fill"), label + ": fill rule")
        same_color(x, backend, s.fill, look.fill, label + ": fill color")


def expect(x, backend, c, want, label=""):
    """want: list of (op, look), in painting order"""
    got = lib.render(x, c, backend)
    names = ["stroke" if d.op == "stroke" else "fill" for d in got]
    x.check(names == [w[0] for w in want], label + "strokes and fills", "%s %s" % (names, want))
    if names == [w[0] for w in want]:
        for i, (d, w) in enumerate(zip(got, want)):
            look_ok(x, backend, d, w[1], "%s%s %d" % (label, w[0], i))


def pick(x, src, name, kinds, n):
    out = [src.make(x.choice("%s%d" % (name, i), kinds)) for i in range(n)]
    return [a for a, d in out], [d for a, d in out]


def shape(x):
    from pyx import path
    return path.path(path.moveto_pt(0, 0), path.lineto_pt(50, 0), path.lineto_pt(20, 30), path.closepath())


LINE = ["lw", "dash", "absdash", "linestyle", "cap", "lw.clear", "dash.clear", "linestyle.clear", "cap.clear", "clear"]
OTHER = ["join", "miter", "gray", "rgb", "cmyk", "lw", "clear"]


@harness(cases=[(b, k, 2) for b in ("ps", "pdf", "svg") for k in ("line", "other")] + [("ps", "line", 3), ("ps", "other", 3)],
         thorough=[("pdf", "line", 3), ("svg", "line", 3), ("pdf", "other", 3), ("svg", "other", 3)], max_paths=100000, simplify=True, deadline=300, weight=2)
def stroke_list(x, case):
    """an attribute list given to a stroke command, followed by a stroke without attributes"""
    from pyx import canvas, unit
    unit.set(1, 1, 1, 1, "cm")
    backend, kinds, n = case
    src = Src(x, backend)
    attrs, desc = pick(x, src, "k", LINE if kinds == "line" else OTHER, n)
    c = canvas.canvas()
    c.stroke(shape(x), attrs)
    c.stroke(shape(x))
    # a general clear also removes the stroking itself
    first = [("stroke", Look().apply(desc))] if ("clear", None) not in desc else []
    expect(x, backend, c, first + [("stroke", Look())])


@harness(cases=[(b, n) for b in ("ps", "pdf", "svg") for n in (1, 2)], thorough=[("ps", 3), ("pdf", 3), ("svg", 3)], max_paths=100000, simplify=True)
def fill_list(x, case):
    from pyx import canvas, unit
    unit.set(1, 1, 1, 1, "cm")
    backend, n = case
    src = Src(x, backend)
    attrs, desc = pick(x, src, "k", FILLK, n)
    c = canvas.canvas()
    c.fill(shape(x), attrs)
    c.fill(shape(x))
    # a general clear also removes the filling itself
    first = [("fill", Look().apply(desc))] if ("clear", None) not in desc else []
    expect(x, backend, c, first + [("fill", Look())])


@harness(cases=["ps", "pdf", "svg"], max_paths=100000, simplify=True)
def decorators(x, backend):
    """styles of the stroked and filled decorators apply to the stroke and the fill only; other attributes apply to both; filling
    comes first"""
    from pyx import canvas, deco, unit
    unit.set(1, 1, 1, 1, "cm")
    src = Src(x, backend)
    common, dcommon = pick(x, src, "c", ["rgb", "lw", "fillrule"], 1)
    st, dst = pick(x, src, "s", ["gray", "lw", "dash"], 2)
    fi, dfi = pick(x, src, "f", ["cmyk", "fillrule"], 1)
    nos, nof = x.bool("nos"), x.bool("nof")
    if nos:
        st, dst = [], []
    if nof:
        fi, dfi = [], []
    ds = deco.stroked(st) if st else deco.stroked
    df = deco.filled(fi) if fi else deco.filled
    attrs = [common + [ds, df], [df] + common + [ds]][x.bool("order")]
    base = Look().apply(dcommon)
    c = canvas.canvas()
    how = x.choice("how", ["draw", "stroke", "fill"])
    if how == "draw":
        c.draw(shape(x), attrs)
    elif how == "stroke":
        # the decorator given replaces the one of the stroke command
        c.stroke(shape(x), attrs)
    else:
        c.fill(shape(x), attrs)
    c.draw(shape(x), [deco.stroked, deco.filled])
    expect(x, backend, c, [("fill", base.apply(dfi, stroke=False)), ("stroke", base.apply(dst, fill=False)), ("fill", Look()), ("stroke", Look())])


@harness(cases=["ps", "pdf", "svg"], max_paths=100000, simplify=True)
def deco_clear(x, backend):
    """clear attributes of the decorators"""
    from pyx import canvas, deco, unit
    unit.set(1, 1, 1, 1, "cm")
    src = Src(x, backend)
    (a, b), (da, db) = pick(x, src, "s", ["gray", "lw"], 2)
    c = canvas.canvas()
    c.draw(shape(x), [deco.stroked([a]), deco.filled, deco.stroked([b])])
    c.draw(shape(x), [deco.stroked([a]), deco.filled, deco.stroked.clear])
    c.stroke(shape(x), [deco.stroked.clear, deco.filled])
    c.fill(shape(x), [deco.filled.clear, deco.stroked([b])])
    expect(x, backend, c, [("fill", Look()), ("stroke", Look().apply([db], fill=False)), ("fill", Look()), ("fill", Look()),
                           ("stroke", Look().apply([db], fill=False))])


@harness(cases=[(b, s) for b in ("ps", "pdf", "svg") for s in ("two levels", "siblings", "three levels")], max_paths=100000, simplify=True, weight=2)
def scopes(x, case):
    """canvas attributes are in force for everything inside, unless overridden, and not beyond"""
    from pyx import canvas, deco, unit
    unit.set(1, 1, 1, 1, "cm")
    backend, struct = case
    src = Src(x, backend)
    kinds = ["lw", "dash", "linestyle", "rgb", "join"] if struct != "three levels" else ["lw", "dash", "gray"]
    want = []
    c = canvas.canvas()

    def both(c, look, attrs=[], desc=[]):
        look = look.apply(desc)
        c.draw(shape(x), [deco.stroked, deco.filled] + attrs)
        want.extend([("fill", look), ("stroke", look)])
    look = Look()
    a1, d1 = pick(x, src, "a", kinds, 1)
    l1 = look.apply(d1)
    both(c, look)
    s = c.insert(canvas.canvas(a1))
    both(s, l1)
    a2, d2 = pick(x, src, "b", kinds, 1)
    if struct == "siblings":
        both(s, l1, a2, d2)
        both(s, l1)
        both(c.insert(canvas.canvas(a2)), look.apply(d2))
    else:
        t = s.insert(canvas.canvas(a2))
        l2 = l1.apply(d2)
        both(t, l2)
        if struct == "three levels":
            a3, d3 = pick(x, src, "c", kinds, 1)
            both(t, l2, a3, d3)
            u = t.insert(canvas.canvas(a3))
            both(u, l2.apply(d3))
            both(t, l2)
        both(s, l1)
    both(c, look)
    expect(x, backend, c, want)


@harness(cases=["ps", "pdf", "svg"], simplify=True)
def named(x, backend):
    """the named line widths, styles, caps, joins and miter limits"""
    from pyx import canvas, style, unit
    import math
    unit.set(1, 1, 1, 1, "cm")
    f = x.real("wscale", 0.2, 5)
    unit.set(wscale=f)
    w = LWDEF * f
    c, want = canvas.canvas(), []

    def add(a, **kw):
        l = Look()
        l.lw = w
        for k, v in kw.items():
            setattr(l, k, v)
        c.stroke(shape(x), [style.linewidth.normal] + a)
        want.append(("stroke", l))
    for i, n in enumerate(["THIN", "THIn", "THin", "Thin", "thin", "normal", "thick", "Thick", "THick", "THIck", "THICk", "THICK"]):
        k = i - 5
        add([getattr(style.linewidth, n)], lw=w * (math.sqrt(2**k) if n != "THICK" else 8))
    add([style.linestyle.solid])
    add([style.linestyle.dashed], dash=((2*f,), 0))
    add([style.linestyle.dotted], dash=((0, 2*f), 0), cap=1)
    add([style.linestyle.dashdotted], dash=((0, 2*f, 2*f, 2*f), 0), cap=1)
    for i, n in enumerate(["butt", "round", "square"]):
        add([getattr(style.linecap, n)], cap=i)
    for i, n in enumerate(["miter", "round", "bevel"]):
        add([getattr(style.linejoin, n)], join=i)
    for n, v in [("180", 180), ("90", 90), ("60", 60), ("45", 45)]:
        add([getattr(style.miterlimit, "lessthan%sdeg" % n)], miter=1/math.sin(math.radians(v/2)))
    add([style.miterlimit.lessthan11deg], miter=10)
    expect(x, backend, c, want)
    unit.set(wscale=1)


@harness(cases=["ps", "pdf", "svg"], simplify=True)
def excluded(x, backend):
    """ornaments and parts not stroked: the arrow head has its own styles, the path keeps its own"""
    from pyx import canvas, deco, unit, path, color, style
    unit.set(1, 1, 1, 1, "cm")
    src = Src(x, backend)
    (a,), (da,) = pick(x, src, "s", ["rgb", "lw"], 1)
    (b,), (db,) = pick(x, src, "f", ["cmyk", "fillrule"], 1)
    (g,), (dg,) = pick(x, src, "g", ["gray", "lw"], 1)
    base = Look().apply([dg])
    c = canvas.canvas()
    d0 = Look()
    arrow = deco.earrow([deco.filled, deco.stroked.clear])
    c.draw(path.line_pt(0, 0, 60, 0), [g, deco.stroked([a]), deco.filled([b]), arrow])
    c.stroke(path.line_pt(0, 0, 60, 0), [g, a, arrow])
    expect(x, backend, c, [("fill", base.apply([db], stroke=False)), ("stroke", base.apply([da], fill=False)), ("fill", base),
                           ("stroke", Look().apply([dg, da])), ("fill", Look().apply([dg, da]))])


@harness(cases=["stroke", "fill", "different", "same", "list", "clear"])
def opacity_svg(x, kind):
    """transparency in SVG and PDF"""
    from pyx import canvas, deco, unit, color
    import re
    import xml.etree.ElementTree as ET
    unit.set(1, 1, 1, 1, "cm")
    s, f = x.real("s", 0, 1), x.real("f", 0, 1)
    S, F = [color.transparency(s)], [color.transparency(f)]
    c = canvas.canvas()
    if kind == "stroke":
        c.stroke(shape(x), S)
        want = [("stroke", 1 - s)]
    elif kind == "fill":
        c.fill(shape(x), F)
        want = [("fill", 1 - f)]
    elif kind == "different":
        c.draw(shape(x), [deco.stroked(S), deco.filled(F)])
        want = [("fill", 1 - f), ("stroke", 1 - s)]
    elif kind == "same":
        c.draw(shape(x), [deco.stroked, deco.filled] + S)
        want = [("fill", 1 - s), ("stroke", 1 - s)]
    elif kind == "clear":
        c.stroke(shape(x), S + [color.transparency.clear] if hasattr(color.transparency, "clear") else [])
        want = [("stroke", 1)]
    else:
        c.insert(canvas.canvas(S)).fill(shape(x), F)
        c.insert(canvas.canvas(S)).fill(shape(x))
        want = [("fill", 1 - f), ("fill", 1 - s)]
    c.stroke(shape(x))
    want.append(("stroke", 1))
    root = ET.fromstring(lib.write_svg(x, c))
    got = []
    for e in root.iter("{http://www.w3.org/2000/svg}path"):
        for op in ("fill", "stroke"):
            if e.get(op, "none") != "none":
                got.append((op, x.num(e.get("opacity", "1"))))
    x.check([g[0] for g in got] == [w[0] for w in want], "painted in SVG", "%s %s" % (got, want))
    for g, w in zip(got, want):
        x.eq(g[1], w[1], "opacity in SVG", 1e-5)
    # PDF: CA / ca of the graphics state in force
    text = lib.write_pdf(x, c)
    states = {m.group(1): m.group(2) for m in re.finditer(r"/(Transparency\S*) (\d+) 0 R", text)}
    objs = lib.pdf_objects(text)
    stack, cur, got = [], (1, 1), []
    for t in lib.pdf_content(text).split():
        if t == "q":
            stack.append(cur)
        elif t == "Q":
            cur = stack.pop()
        elif t.startswith("/Transparency"):
            m = re.findall(r"/(CA|ca) (\S+)", objs[int(states[t[1:]])])
            for k, v in m:
                cur = (x.num(v), cur[1]) if k == "CA" else (cur[0], x.num(v))
        elif t in ("f", "B"):
            got.append(("fill", cur[1]))
        if t in ("S", "B"):
            got.append(("stroke", cur[0]))
    x.check([g[0] for g in got] == [w[0] for w in want], "painted in PDF", "%s %s" % (got, want))
    for g, w in zip(got, want):
        x.eq(g[1], w[1], "opacity in PDF", 1e-5)


# ---------------------------------------------------------------------- changeable attributes
@harness(cases=[(n, k) for n in (1, 2, 3, 4) for k in ("cyclic", "finite")])
def changelist(x, case):
    from pyx import attr, style, color
    n, kind = case
    l = [style.linewidth(i) for i in range(n)]
    c = attr.changelist(l, cyclic=kind == "cyclic")
    i = x.int("index", 0, 12)
    total = x.int("total", 1, 13)
    x.assume(i < total)
    s = attr.selectattr(c, i, total)
    full = attr.selectattrs([color.rgb.red, c, style.linecap.round], i, total)
    if kind == "finite" and i >= n:
        x.check(s is None and full is None, "nothing beyond the end of a list which is not cyclic")
    else:
        r = i % n
        x.check(any(r == k and s is l[k] for k in range(n)), "entries in turn")
        x.check(full is not None and len(full) == 3 and full[1] is s and full[0] is color.rgb.red and full[2] is style.linecap.round, "other attributes unchanged")
    x.check(attr.selectattr(style.linecap.round, i, total) is style.linecap.round and attr.selectattrs(None, i, total) is None, "not changeable")


@harness()
def multichange(x):
    from pyx import attr, style
    a = [style.linewidth(i) for i in range(5)]
    m = attr.multichangeattr({1: attr.changelist([a[0]]), 2: attr.changelist([a[1], a[2]]), 3: attr.changelist(a[2:])})
    total = x.int("total", 1, 3)
    i = x.int("index", 0, 2)
    x.assume(i < total)
    s = m.select(i, total)
    want = {(1, 0): 0, (2, 0): 1, (2, 1): 2, (3, 0): 2, (3, 1): 3, (3, 2): 4}
    x.check(any(total == t and i == j and s is a[k] for (t, j), k in want.items()), "list depends on the number of selections")


@harness(cases=["canvas", "draw", "stroked", "filled"])
def wrong(x, kind):
    """attributes of a wrong type are rejected"""
    from pyx import attr, canvas, deco, style, trafo, color
    bad = x.choice("bad", [1, "red", None, style.linewidth, deco.earrow, trafo.identity, style.fillrule.even_odd, style.linewidth.thin, color.rgb.red])
    S = (style.linewidth.thin, color.rgb.red)
    ok = {"canvas": S + (trafo.identity, style.fillrule.even_odd), "draw": S + (trafo.identity, style.fillrule.even_odd, deco.earrow), "stroked": S,
          "filled": (style.fillrule.even_odd, color.rgb.red)}[kind]
    try:
        l = [style.linewidth.thin, bad] if kind != "filled" else [color.rgb.red, bad]
        {"canvas": lambda: canvas.canvas(l), "draw": lambda: canvas.canvas().draw(shape(x), l),
         "stroked": lambda: deco.stroked(l), "filled": lambda: deco.filled(l)}[kind]()
        x.check(any(bad is o for o in ok), "accepted", str(bad))
    except TypeError:
        x.check(not any(bad is o for o in ok), "rejected", str(bad))
