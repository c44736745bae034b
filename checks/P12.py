"""Pages: placement of the content on the paper, bounding boxes of the written files, single and multi page documents."""
import re
from pysym.api import harness
import lib

BOUNDS = ("content boxes in [-300, 300] pt with extents from 1 to 400 pt, papers from 50 to 1000 pt, margins up to 20 pt, enlargements from 0 to 20 pt; documents of up to three pages; "
          "fitting to the paper: families with fixed extents of content (four aspect ratios)")
ASSUMPTIONS = ["floating point numbers are treated as exact reals; numbers written with %f are taken as exact, numbers written with %d as truncated, %g as exact"]


def content(x, w=None, h=None):
    """a canvas with a filled rectangle, and the corners of the rectangle"""
    from pyx import canvas, path
    x0, y0 = x.real("x0", -300, 300), x.real("y0", -300, 300)
    w = w or x.real("w", 1, 400)
    h = h or x.real("h", 1, 400)
    c = canvas.canvas()
    c.fill(path.rect_pt(x0, y0, w, h))
    return c, (x0, y0, x0 + w, y0 + h)


def write(x, d, backend, **kw):
    f = x.BytesIO()
    if backend == "pdf":
        kw["compress"] = False
    getattr(d, {"eps": "writeEPSfile", "ps": "writePSfile", "pdf": "writePDFfile", "svg": "writeSVGfile"}[backend])(f, **kw)
    return lib._text(f.getvalue())


def pages(x, text, backend):
    """drawn objects of all pages"""
    if backend == "eps":
        return [lib.interp_ps(x, lib.ps_page(text))]
    if backend == "ps":
        return [lib.interp_ps(x, p.split("%%EndPageSetup\n", 1)[1].split("pgsave restore\nshowpage\n")[0]) for p in text.split("%%Page: ")[1:]]
    if backend == "pdf":
        o = lib.pdf_objects(text)
        out = []
        for b in o.values():
            if "/Type /Pages" in b:
                for k in re.findall(r"(\d+) 0 R", re.search(r"/Kids \[([^\]]*)\]", b).group(1)):
                    n = re.search(r"/Contents (\d+) 0 R", o[int(k)]).group(1)
                    s = o[int(n)]
                    out.append(lib.interp_pdf(x, s[s.index("stream\n") + 7: s.rindex("endstream")]))
        return out
    return [lib.interp_svg(x, text)[0]]


def corners(draw):
    pts = [s[1] for s in draw.path if s[0] != "Z"]
    return pts[0], pts[2]


def paper(x, w=None, h=None):
    from pyx import document, unit
    w = w or x.real("pw", 50, 1000)
    h = h or x.real("ph", 50, 1000)
    return document.paperformat(w * unit.t_pt, h * unit.t_pt, "Test"), w, h


SIZES = [(100, 40), (30, 90), (8, 8), (200, 300)]
KINDS = [(r, c, f) for r in (0, 1) for c in (0, 1) for f in (0, 1)]


@harness(cases=[(b,) + k for b in ("eps", "pdf", "svg") for k in KINDS if not k[2]]
         + [(b, 0, 1, s) for b in ("eps",) for s in SIZES] + [(b, 1, 0, s) for b in ("pdf", "svg") for s in SIZES] + [("eps", 1, 1, SIZES[0]), ("eps", 0, 0, SIZES[1])],
         thorough=[(b, r, c, s) for b in ("eps", "pdf", "svg") for s in SIZES for r in (0, 1) for c in (0, 1)], simplify=True)
def placement(x, case):
    from pyx import document, unit
    unit.set(1, 1, 1, 1, "cm")
    backend, rotated, centered, fit = case
    fmt, pw, ph = paper(x)
    if fit:
        m, e = x.real("margin", 0, 20), x.real("enlarge", 0, 3)
        c, box = content(x, *fit)
    else:
        m, e = 0, x.real("enlarge", 0, 20)
        c, box = content(x)
    p = document.page(c, paperformat=fmt, rotated=rotated, centered=centered, fittosize=bool(fit), margin=m * unit.t_pt, bboxenlarge=e * unit.t_pt)
    d = pages(x, write(x, document.document([p]), backend), backend)
    x.check(len(d) == 1 and len(d[0]) == 1, "one object")
    (ax, ay), (bx, by) = corners(d[0][0])
    # vector from the first corner to the opposite one
    w, h = box[2] - box[0], box[3] - box[1]
    vx, vy = (-h, w) if rotated else (w, h)
    if not fit:
        x.eq(bx - ax, vx, "extent in x", 1e-3)
        x.eq(by - ay, vy, "extent in y", 1e-3)
        if centered:
            x.eq(ax + bx, pw, "centered horizontally", 1e-3)
            x.eq(ay + by, ph, "centered vertically", 1e-3)
        elif rotated:
            # landscape: the origin is at the lower right corner of the paper
            x.eq(ax, pw - box[1], "position of the rotated content", 1e-3)
            x.eq(ay, box[0], "position of the rotated content", 1e-3)
        else:
            x.eq(ax, box[0], "position", 1e-3)
            x.eq(ay, box[1], "position", 1e-3)
        return
    x.eq(ax + bx, pw, "centered horizontally", 1e-2)
    x.eq(ay + by, ph, "centered vertically", 1e-2)
    # the enlarged content (W x H on the paper) just fills the paper without the margins in one direction, without distortion
    W, H = (h + 2*e, w + 2*e) if rotated else (w + 2*e, h + 2*e)
    sx, sy = (bx - ax), (by - ay)
    if rotated:
        sx = -sx
        x.eq(sx * w, sy * h, "no distortion", 1)
        num, den = sy, w
    else:
        x.eq(sx * h, sy * w, "no distortion", 1)
        num, den = sx, w
    # scale factor s = num/den >= 0
    x.check(num >= 0, "not mirrored")
    x.le(num * W, (pw - 2*m) * den, "fits horizontally", 0.5)
    x.le(num * H, (ph - 2*m) * den, "fits vertically", 0.5)
    x.check(x.any([num * W >= (pw - 2*m) * den - 0.5, num * H >= (ph - 2*m) * den - 0.5]), "as large as possible")


@harness(cases=["eps", "pdf", "svg"], simplify=True)
def nopaper(x, backend):
    """without a paper format the content stays in place"""
    from pyx import document, unit
    unit.set(1, 1, 1, 1, "cm")
    c, box = content(x)
    p = document.page(c, rotated=x.bool("rotated"), centered=x.bool("centered"), fittosize=x.bool("fit"))
    d = pages(x, write(x, document.document([p]), backend), backend)
    (ax, ay), (bx, by) = corners(d[0][0])
    for a, b in zip((ax, ay, bx, by), box):
        x.eq(a, b, "in place", 1e-3)


def boxes(x, text, backend):
    """bounding box (hires), and integer bounding box"""
    if backend in ("eps", "ps"):
        hi = [x.num(k) for k in re.search(r"%%HiResBoundingBox: (\S+) (\S+) (\S+) (\S+)", text).groups()]
        lo = [x.num(k) for k in re.search(r"%%BoundingBox: (\S+) (\S+) (\S+) (\S+)", text).groups()]
        return hi, lo
    if backend == "pdf":
        m = re.search(r"/CropBox \[(\S+) (\S+) (\S+) (\S+)\]", text) or re.search(r"/MediaBox \[(\S+) (\S+) (\S+) (\S+)\]", text)
        return [x.num(k) for k in m.groups()], None
    m = re.search(r'viewBox="(\S+) (\S+) (\S+) (\S+)"', text)
    a = [x.num(k) for k in m.groups()]
    for k, v in (("x", a[0]), ("y", a[1]), ("width", a[2]), ("height", a[3])):
        x.eq(x.num(re.search(r' %s="(\S+)pt"' % k, text).group(1)), v, "svg " + k, 1e-3)
    return [a[0], -a[1] - a[3], a[0] + a[2], -a[1]], None


@harness(cases=[(b, k) for b in ("eps", "pdf", "svg", "ps") for k in ("plain", "default", "bbox", "paper", "rotated", "stroke", "bbox on paper")], simplify=True)
def bbox(x, case):
    """bounding box of the file"""
    from pyx import document, unit, bbox, canvas, path, style
    unit.set(1, 1, 1, 1, "cm")
    backend, kind = case
    c, box = content(x)
    e = x.real("enlarge", 0, 20) if kind != "default" else 1
    kw = {} if kind == "default" else {"bboxenlarge": e * unit.t_pt}
    if kind == "bbox" or kind == "bbox on paper":
        q = [x.real("q%d" % i, -300, 300) for i in range(4)]
        x.assume(x.all([q[0] + 1 <= q[2], q[1] + 1 <= q[3]]))
        kw["bbox"] = bbox.bbox_pt(*q)
        want = q
    else:
        want = [box[0] - e, box[1] - e, box[2] + e, box[3] + e]
    if kind == "stroke":
        lw = x.real("lw", 0.1, 30)
        c.stroke(path.line_pt(box[0], box[1], box[2], box[3]), [style.linewidth(lw * unit.t_pt)])
        g = x.max(e, lw / 2)
        want = [box[0] - g, box[1] - g, box[2] + g, box[3] + g]
    wkw = {"writebbox": True} if backend in ("ps", "pdf") else {}
    if kind in ("paper", "rotated", "bbox on paper"):
        fmt, pw, ph = paper(x)
        kw.update(paperformat=fmt, rotated=kind == "rotated")
        W, H = want[2] - want[0], want[3] - want[1]
        if kind == "rotated":
            W, H = H, W
        want = [(pw - W) / 2, (ph - H) / 2, (pw + W) / 2, (ph + H) / 2]
    pg = document.page(c, **kw)
    text = write(x, document.document([pg]), backend, **wkw)
    hi, lo = boxes(x, text, backend)
    for a, b, n in zip(hi, want, ("left", "bottom", "right", "top")):
        x.eq(a, b, n, 2e-3)
    if lo is not None:
        x.check(x.all([lo[i] == x.math.floor(lo[i]) for i in range(4)]), "integer bounding box")
        for i in range(2):
            x.le(lo[i], want[i], "integer bounding box contains the bounding box", 1e-3)
            x.le(want[i] - 1, lo[i], "integer bounding box is tight", 1e-3)
            x.le(want[i + 2], lo[i + 2], "integer bounding box contains the bounding box", 1e-3)
            x.le(lo[i + 2], want[i + 2] + 1, "integer bounding box is tight", 1e-3)
    if backend == "pdf" and kind in ("paper", "rotated", "bbox on paper"):
        m = [x.num(k) for k in re.search(r"/MediaBox \[(\S+) (\S+) (\S+) (\S+)\]", text).groups()]
        for a, b in zip(m, (0, 0, pw, ph)):
            x.eq(a, b, "media box is the paper", 1e-3)
        x.check(("/Rotate 90" in text) == (kind == "rotated"), "rotated for display")
    # writing again gives the same result
    hi2, _ = boxes(x, write(x, document.document([pg]), backend, **wkw), backend)
    for a, b in zip(hi, hi2):
        x.eq(a, b, "written again", 1e-3)


@harness(cases=[(b, n) for b in ("ps", "pdf") for n in (1, 2, 3)], simplify=True)
def multipage(x, case):
    """pages come in order, each with its own paper, content and box"""
    from pyx import document, unit, canvas, path, bbox
    unit.set(1, 1, 1, 1, "cm")
    backend, n = case
    d = document.document()
    want = []
    shared = canvas.canvas()
    x0 = x.real("x0", -300, 300)
    shared.fill(path.rect_pt(x0, 0, 10, 20))
    for i in range(n):
        y0 = x.real("y%d" % i, -300, 300)
        c = canvas.canvas()
        c.fill(path.rect_pt(x0, y0, 10, 20 + i))
        c.insert(shared)
        fmt, pw, ph = paper(x, 300 + 50*i, x.real("ph%d" % i, 50, 1000))
        rotated = x.bool("rotated%d" % i)
        d.append(document.page(c, pagename="p%d" % i if i else None, paperformat=fmt, rotated=rotated, bboxenlarge=0))
        want.append((y0, pw, ph, rotated, 20 + i))
    x.check(len(d.pages) == n, "pages of the document")
    text = write(x, d, backend)
    pp = pages(x, text, backend)
    x.check(len(pp) == n, "number of pages")
    for i, (p, (y0, pw, ph, rotated, h)) in enumerate(zip(pp, want)):
        x.check(len(p) == 2, "content of page %d" % i)
        lo, hi = x.min(y0, 0), x.max(y0 + h, 20)
        (ax, ay), (bx, by) = corners(p[0])
        if rotated:
            x.eq(ax, pw/2 + (lo + hi)/2 - y0, "horizontal position on page %d" % i, 1e-3)
            x.eq(ay, ph/2 - 5, "vertical position on page %d" % i, 1e-3)
        else:
            x.eq(ax, pw/2 - 5, "horizontal position on page %d" % i, 1e-3)
            x.eq(ay, ph/2 - (lo + hi)/2 + y0, "vertical position on page %d" % i, 1e-3)
    if backend == "ps":
        x.check("%%%%Pages: %d\n" % n in text, "number of pages in the header")
        for i, l in enumerate(re.findall(r"%%Page: (.*)", text)):
            x.check(l == "%s %d" % ("p%d" % i if i else "1", i + 1), "page label", l)
        for i, l in enumerate(re.findall(r"%%PageOrientation: (.*)", text)):
            x.check(l == ("Landscape" if want[i][3] else "Portrait"), "page orientation")
        x.check(text.count("\nshowpage\n") == n, "one showpage for each page")
    else:
        media = [[x.num(k) for k in m] for m in re.findall(r"/MediaBox \[(\S+) (\S+) (\S+) (\S+)\]", text)]
        x.check(len(media) == n, "one media box for each page")
        for (y0, pw, ph, rotated, h), m in zip(want, media):
            x.eq(m[2], pw, "paper width", 1e-3)
            x.eq(m[3], ph, "paper height", 1e-3)


@harness(cases=["A4", "A3", "A5", "Letter", "Legal", "A0", "A1", "A2", "A0b"])
def formats(x, name):
    """named paper formats"""
    from pyx import document, unit
    us = x.real("us", 0.2, 5)
    unit.set(uscale=us)
    f = getattr(document.paperformat, name)
    mm = {"A0": (840, 1188), "A0b": (910, 1370), "A1": (594, 840), "A2": (420, 594), "A3": (297, 420), "A4": (210, 297), "A5": (148.5, 210)}
    inch = {"Letter": (8.5, 11), "Legal": (8.5, 14)}
    w, h = mm[name] if name in mm else [25.4*k for k in inch[name]]
    x.eq(unit.tomm(f.width), w, "width", 2)
    x.eq(unit.tomm(f.height), h, "height", 2)
    unit.set(1, 1, 1, 1)
