"""PDF files: cross-reference table, object references, streams, page tree, content streams and their resources."""
from pysym.api import harness
import lib
import pdflib

BOUNDS = ("documents of up to three pages whose contents are all combinations (pairs on one page, or on different pages) of nine features; coordinates in [-200, 200] pt, arbitrary colors, pixel bytes and "
          "transparencies; titles of up to 2 (thorough: 3) characters; streams compressed and plain")
ASSUMPTIONS = ["zlib round-trips; SHA-1 without collisions", "byte positions are those with the numbers in the file replaced by tokens standing for all values"]

FEATURES = ["path", "alpha", "pattern", "image", "alphaimage", "mesh", "text", "textfield", "checkbox", "radio", "choice", "clip", "pattern in pattern"]


def add(x, c, feature, n=""):
    from pyx import canvas, path, color, pattern, bitmap, mesh, pdfextra, unit, style, deco, text, trafo
    pt = unit.t_pt
    r = lambda nm, lo=-200, hi=200: x.real(nm + str(n), lo, hi)
    if feature == "path":
        c.stroke(path.line_pt(r("x0"), r("y0"), 7, 9), [style.linestyle.dashed, color.cmyk(r("c", 0, 1), 0.2, 0.3, 0.4), style.linecap.round])
        c.fill(path.circle_pt(1, 2, 5), [color.gray(r("g", 0, 1))])
    elif feature == "alpha":
        c.draw(path.rect_pt(0, 0, r("w", 1, 100), 10), [deco.stroked([color.transparency(r("t", 0, 1))]), deco.filled([color.rgb.red, color.transparency(0.25)])])
    elif feature in ("pattern", "pattern in pattern"):
        p = pattern.pattern()
        p.fill(path.rect_pt(0, 0, r("w", 1, 10), 3), [color.transparency(0.5)])
        if feature != "pattern":
            q = pattern.hatched(0.3, 30)
            p.fill(path.rect_pt(0, 0, 3, 4), [q])
        c.fill(path.rect_pt(0, 0, 50, 50), [p])
    elif feature == "image":
        i = bitmap.image(2, 1, "RGB", x.bytes("px" + str(n), 6))
        c.insert(bitmap.bitmap_pt(r("x0"), 0, i, height_pt=10, compressmode=None))
        j = bitmap.image(2, 2, "L", x.bytes("pg" + str(n), 4))
        c.insert(bitmap.bitmap_pt(0, 0, j, height_pt=10))
    elif feature == "alphaimage":
        i = bitmap.image(1, 2, "LA", x.bytes("pa" + str(n), 4))
        c.insert(bitmap.bitmap_pt(r("x0"), 0, i, height_pt=10))
    elif feature == "mesh":
        v = color.rgb(0.2, 0.4, 0.6)
        nodes = [mesh.node_pt((0, 0), v), mesh.node_pt((10, 0), v), mesh.node_pt((0, 20), v)]
        c.insert(mesh.mesh([mesh.element(nodes)]))
    elif feature == "text":
        c.text(0, 0, "Hi (x)", [color.rgb.blue])
        c.text(r("x0") * pt, 0, "fi", [trafo.rotate(30)])
    elif feature == "textfield":
        d = canvas.canvas([color.gray(r("g", 0, 1))])
        d.insert(pdfextra.textfield(0, 0, 10 * pt, r("h", 5, 30) * pt, "t" + str(n), defaultvalue=x.choice("v" + str(n), ["", "a(b", "x\ny", "\n", "\u00e9\u0400"])))
        c.insert(d)
    elif feature == "checkbox":
        c.insert(pdfextra.checkbox(r("x0") * pt, 0, "c" + str(n), defaulton=x.bool("on" + str(n))))
    elif feature == "radio":
        c.insert(pdfextra.radiobuttons([(0, 0), (r("x0") * pt, 10 * pt)], "r" + str(n), ["a", "b c"], defaultvalue=x.choice("def" + str(n), [None, "a", "b c"])))
    elif feature == "choice":
        c.insert(pdfextra.choicefield(0, 0, 10 * pt, 10 * pt, "l" + str(n), ["a", "b)"], defaultvalue=x.choice("def" + str(n), [None, "a", "b)"])))
    elif feature == "clip":
        d = canvas.canvas([canvas.clip(path.rect_pt(0, 0, r("w", 1, 50), 20)), trafo.rotate(20)])
        d.stroke(path.line_pt(0, 0, 30, 30), [deco.earrow.normal])
        c.insert(d)


def document(x, pages, **kw):
    from pyx import canvas, document, unit, text
    unit.set(1, 1, 1, 1, "cm")
    d = document.document()
    k = 0
    for p in pages:
        c = canvas.canvas(textengine=text.UnicodeEngine())
        for f in p:
            add(x, c, f, "_%d" % k if k else "")
            k += 1
        d.append(document.page(c, paperformat=document.paperformat.A4, centered=0))
    f = x.BytesIO()
    d.writePDFfile(f, **kw)
    return f.getvalue()


def verify(x, data, pages):
    try:
        f = pdflib.File(x, data)
        pp = f.check()
    except pdflib.Bad as e:
        x.check(False, "structure: " + str(e))
        return None, None
    x.check(len(pp) == pages, "number of pages")
    return f, pp


@harness(cases=[(f, z) for f in FEATURES for z in (True, False)])
def single(x, case):
    f, z = case
    verify(x, document(x, [[f]], compress=z), 1)


PAIRS = [(f, g) for i, f in enumerate(FEATURES) for g in FEATURES[i:]]


@harness(cases=[(f, g, m) for i, (f, g) in enumerate(PAIRS) for m in (("same", "other") if i % 3 == 0 or f == g else ("other",) if i % 3 == 1 else ())],
         thorough=[(f, g, m) for f, g in PAIRS for m in ("same", "other")], weight=2)
def pair(x, case):
    f, g, m = case
    verify(x, document(x, [[f, g]] if m == "same" else [[f], ["path"], [g]], compress=False), 1 if m == "same" else 3)


@harness(cases=[(1, 0, 0x2ff), (2, 32, 300)], thorough=[(1, 0, 0x10ffff), (2, 0, 0x2ff), (3, 32, 60)])
def info(x, case):
    """titles shift the objects following them"""
    data = document(x, [["path"]], compress=False, title=x.str("title", *case), subject=x.choice("subject", [None, "s"]), fullscreen=x.bool("fullscreen"),
                    writebbox=x.bool("writebbox"))
    f, pp = verify(x, data, 1)


@harness(cases=["empty", "repeat"])
def special(x, case):
    from pyx import canvas, document, path, unit
    unit.set(1, 1, 1, 1, "cm")
    d = document.document()
    if case == "empty":
        # no visible content at all
        d.append(document.page(canvas.canvas(), paperformat=document.paperformat.A4, centered=0))
        n = 1
    else:
        # the same canvas with resources on several pages
        c = canvas.canvas()
        add(x, c, "alpha")
        add(x, c, "pattern", "p")
        add(x, c, "image", "i")
        n = 3
        for i in range(n):
            d.append(document.page(c, paperformat=document.paperformat.A4, centered=0))
    f = x.BytesIO()
    d.writePDFfile(f, compress=x.bool("compress"))
    f, pp = verify(x, f.getvalue(), n)
    x.check(len(set(id(c) for p, c in pp)) == n, "content of each page")
