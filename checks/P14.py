"""Strings in PDF and PostScript files, and the placement of text: what a reader gets is what was given."""
import re
from pysym.api import harness
import lib
import pdflib

BOUNDS = ("document information and form strings: up to 3 characters, each an arbitrary Unicode character; shown text: texts listed below in cmr10 and lmr10 (AFM metric), size 1..50 pt, "
          "positions in [-200, 200] pt, additional space -3..3 pt, slant -1..1, with and without kerning and ligatures; fonts with up to 300 glyphs in use")
ASSUMPTIONS = ["floating point numbers are treated as exact reals", "zlib round-trips"]


def pdftext(x, codes):
    """characters (code points) of a PDF text string"""
    if len(codes) >= 2 and codes[0] == 0xfe and codes[1] == 0xff:
        out = []
        v = [codes[i] * 256 + codes[i+1] for i in range(2, len(codes) - 1, 2)]
        x.check(len(codes) % 2 == 0, "UTF-16 string has an even number of bytes")
        i = 0
        while i < len(v):
            if v[i] >= 0xd800 and v[i] < 0xdc00:
                out.append((v[i] - 0xd800) * 1024 + (v[i+1] - 0xdc00) + 0x10000)
                i += 1
            else:
                out.append(v[i])
            i += 1
        return out
    for c in codes:
        # these codes are other characters than their Unicode counterpart in PDFDocEncoding
        x.check(not (c >= 24 and c < 32 or c >= 127 and c < 161 or c == 173), "code with a different meaning in PDFDocEncoding")
    return list(codes)


def same(x, codes, s, label):
    got = pdftext(x, codes)
    want = [ord(c) for c in s] if isinstance(s, str) else list(s.v)
    x.check(len(got) == len(want), label + ": length")
    x.check(x.all([a == b for a, b in zip(got, want)]), label)


FIELDS = {"title": "Title", "author": "Author", "subject": "Subject", "keywords": "Keywords"}
RANGES = [(0, 0x17f), (0x180, 0x10ffff)]


def symstr(x, name, n, rng):
    s = x.str(name, n, *rng)
    for i in range(n):
        c = s[i]
        o = c.v[0] if hasattr(c, "v") else ord(c)
        x.assume(x.not_(x.all([o >= 0xd800, o < 0xe000])))
    return s


@harness(cases=[(f, 1, (0, 0x10ffff)) for f in FIELDS] + [("title", 2, (0, 0x17f)), ("title", 2, (0xfe, 0x101)), ("title", 2, (0xd7fe, 0xe001)), ("title", 2, (0xfffe, 0x10001)), ("title", 3, (38, 42)), ("author", 3, (88, 94))],
         thorough=[(f, 1, (0, 0x10ffff)) for f in FIELDS] + [(f, 2, (0, 0x17f)) for f in FIELDS] + [("author", 2, (0x100, 0x10ffff)), ("title", 2, (0xfe, 0x101))] + [("title", 3, (20, 130)), ("title", 3, (0x7f, 0x180))], weight=3)
def info(x, case):
    """document information"""
    from pyx import document, canvas, unit
    unit.set(1, 1, 1, 1, "cm")
    field, n, rng = case
    s = symstr(x, "s", n, rng)
    f = x.BytesIO()
    document.document([document.page(canvas.canvas(), paperformat=document.paperformat.A4, centered=0)]).writePDFfile(f, compress=False, **{field: s})
    try:
        p = pdflib.File(x, f.getvalue())
        p.check()
    except pdflib.Bad as e:
        return x.check(False, "structure: " + str(e))
    i = p.get(p.trailer["Info"])
    x.check(set(i) == {FIELDS[field], "Creator", "CreationDate"}, "entries", sorted(i))
    same(x, i[FIELDS[field]], s, field)


def form(x, make):
    from pyx import document, canvas, unit
    c = canvas.canvas()
    c.insert(make())
    f = x.BytesIO()
    document.document([document.page(c, paperformat=document.paperformat.A4, centered=0)]).writePDFfile(f, compress=False)
    try:
        p = pdflib.File(x, f.getvalue())
        p.check()
    except pdflib.Bad as e:
        x.check(False, "structure: " + str(e))
        return None, None
    fields = p.get(p.get(p.get(p.trailer["Root"])["AcroForm"])["Fields"])
    x.check(len(fields) == 1, "one field")
    return p, p.get(fields[0])


@harness(cases=[(k, n, r) for k in ("name", "value", "choices", "choice", "radio name", "check name") for n, r in ((1, (0, 0x10ffff)), (2, (36, 44)))],
         thorough=[(k, n, r) for k in ("name", "value", "choices", "choice", "radio name", "check name") for n, r in ((1, (0, 0x10ffff)), (2, (0, 0x130)), (3, (39, 41)), (3, (91, 93)))], weight=3)
def fields(x, case):
    """names and values of form fields"""
    from pyx import pdfextra, unit
    unit.set(1, 1, 1, 1, "cm")
    kind, n, rng = case
    s = symstr(x, "s", n, rng)
    name = s if kind == "name" else "abc"
    if kind in ("name", "value"):
        v = s if kind == "value" else "x(y"
        p, f = form(x, lambda: pdfextra.textfield(0, 0, 5, 1, name, defaultvalue=v))
        if f is None:
            return
        same(x, f["V"], v, "value")
        same(x, f["DV"], v, "default value")
        ap = p.get(f["AP"]["N"]) if "AP" in f else None
        if kind == "name":
            shown = [a for o, a in p.content(ap.data, p.get(ap.d["Resources"])) if o == "Tj"]
            x.check(shown == [[list(b"x(y")]], "appearance", shown)
        elif n == 1 and s == "\n":
            x.check(ap is None, "no appearance")
        elif n == 1 and s[0] < "\u0100":
            shown = [a for o, a in p.content(ap.data, p.get(ap.d["Resources"])) if o == "Tj"]
            x.check(len(shown) == 1 and len(shown[0][0]) == 1, "one character")
            x.check(shown[0][0][0] == s.v[0] if hasattr(s, "v") else shown[0][0][0] == ord(s), "appearance")
    elif kind in ("choices", "choice"):
        sel = kind == "choice"
        p, f = form(x, lambda: pdfextra.choicefield(0, 0, 5, 1, name, ["p(", s, "q\\"], defaultvalue=s if sel else None))
        if f is None:
            return
        x.check(len(f["Opt"]) == 3, "number of choices")
        for a, b in zip(f["Opt"], ["p(", s, "q\\"]):
            same(x, a, b, "choice")
        x.check(("V" in f) == sel, "selection")
        if sel:
            same(x, f["V"], s, "selection")
    elif kind == "radio name":
        p, f = form(x, lambda: pdfextra.radiobuttons([(0, 0), (1, 0)], s, ["a", "b"], defaultvalue="b"))
        name = s
        x.check(f is None or f["V"] == "b", "value")
    else:
        p, f = form(x, lambda: pdfextra.checkbox(0, 0, s))
        name = s
    if f is None:
        return
    for k in "T", "TU", "TM":
        same(x, f[k], name, "name " + k)


# ------------------------------------------------------------------ shown text

NAMES = {"(": "parenleft", ")": "parenright", "\\": "backslash", "[": "bracketleft", "]": "bracketright", " ": "space", "1": "one", "-": "hyphen", "<": "less", "ß": "germandbls", ".": "period", "%": "percent",
         "ä": "adieresis"}


class Afm:
    """an independent reading of the parts of AFM files used here"""

    def __init__(self, text):
        self.w, self.lig, self.k, self.box = {}, {}, {}, {}
        for l in text.splitlines():
            if l.startswith("C "):
                f = [i.split() for i in l.split(";")]
                d = {i[0]: i[1:] for i in f if i and i[0] != "L"}
                n = d["N"][0]
                self.w[n] = float(d["WX"][0])
                self.box[n] = [float(i) for i in d["B"]]
                self.lig[n] = [i[1:] for i in f if i and i[0] == "L"]
            elif l.startswith("KPX "):
                a = l.split()
                self.k[a[1], a[2]] = float(a[3])


_fonts = {}


def getfont(name):
    if name not in _fonts:
        from pyx import config
        from pyx.font.t1file import T1File
        from pyx.font.afmfile import AFMfile
        from pyx.font.font import T1font
        t1 = T1File.from_PF_bytes(config.open(name, [config.format.type1]).read())
        raw = config.open(name, [config.format.afm]).read()
        _fonts[name] = T1font(t1, AFMfile(config.open(name, [config.format.afm], ascii=True))), Afm(raw.decode("ascii"))
    return _fonts[name]


def glyphs(text, afm, ligatures):
    g = [NAMES.get(c, c) for c in text]
    if ligatures:
        i = 1
        while i < len(g):
            for b, r in afm.lig[g[i-1]]:
                if b == g[i]:
                    g[i-1:i+1] = [r]
                    break
            else:
                i += 1
    return g


def ps_text(x, text):
    """list of (glyph, x, y, size, slant, fontname) shown by an EPS file, with a function width(fontname, glyph)"""
    enc, base, slant = {}, {}, {}
    for m in re.finditer(r"%%BeginResource: (\S+)\n/(\S+) /(\S+)\n\[([^\]]*)\]\s*\n?(ReEncodeFont|ChangeFontMatrix)", text):
        if m.group(5) == "ReEncodeFont":
            enc[m.group(3)] = [i[1:] for i in m.group(4).split()]
        else:
            slant[m.group(3)] = [x.num(k) for k in m.group(4).split()]
            enc[m.group(3)] = enc.get(m.group(2))
        base[m.group(3)] = base.get(m.group(2), m.group(2))
    body = lib.ps_page(text)
    out = []
    stack = []
    r = pdflib.Reader([ord(c) for c in body])
    pdflib.ISNUM[0] = x.isnum
    font = size = None
    pos = None
    ctm = []
    while True:
        r.skip()
        if r.p >= r.end:
            break
        o = r.obj(refs=False)
        if not isinstance(o, pdflib.Op):
            stack.append(o)
            continue
        if o == "selectfont":
            font, size = stack[-2], x.num(stack[-1])
        elif o == "moveto":
            pos = [x.num(stack[-2]), x.num(stack[-1])]
        elif o == "rmoveto":
            pos = [pos[0] + x.num(stack[-2]), pos[1] + x.num(stack[-1])]
        elif o == "show":
            for c in stack[-1]:
                g = enc[font][c]
                out.append((g, pos[0], pos[1], size, slant.get(font), base[font]))
                pos[0] = pos[0] + FONTS[base[font]].w[g] * size / 1000
        elif o in ("gsave", "grestore", "setlinewidth", "setrgbcolor", "setgray"):
            pass
        else:
            x.check(False, "PostScript operator " + o)
        stack = []
    return out


FONTS = {}


def pdf_text(x, data):
    p = pdflib.File(x, data)
    (page, c), = p.check()
    res = p.get(page["Resources"])
    out = []
    for o, a in p.content(c.data, res):
        if o == "Tf":
            f = p.get(p.get(res["Font"])[a[0]])
            base = f["BaseFont"]
            size = x.num(a[1])
            names = [None] * 256
            d = p.get(f["Encoding"])["Differences"]
            x.check(d[0] == "0", "first code")
            for i, n in enumerate(d[1:]):
                names[i] = n
            first = int(f["FirstChar"])
            widths = [x.num(i) for i in p.get(f["Widths"])]
        elif o == "Tm":
            m = [x.num(i) for i in a]
            pos = 0
        elif o in ("Tj", "TJ"):
            for e in (a if o == "Tj" else a[0]):
                if isinstance(e, pdflib.Num):
                    pos = pos - x.num(e) / 1000 * size
                else:
                    for k in e:
                        out.append((names[k], m[4] + pos, m[5], size, m, base))
                        x.check(first <= k < first + len(widths), "width of the glyph")
                        w = widths[k - first]
                        x.check(abs(w - FONTS[base].w[names[k]]) < 1, "width of %s" % names[k], w)
                        pos = pos + FONTS[base].w[names[k]] / 1000 * size
    return out


TEXTS = ["AVA", "f(i)]", "Wa-1", "[)%", "fluffiest.", "V"]
TEXTS2 = ["AVA", "f(i)\\", "Wa -1", "[<ß%", "fluffiest.", "V"]


def expected(x, text, afm, X, Y, size, spaced, kerning, ligatures, widths):
    g = glyphs(text, afm, ligatures)
    pos = X
    out = []
    for i, n in enumerate(g):
        if i:
            pos = pos + spaced
            if kerning:
                pos = pos + afm.k.get((g[i-1], n), 0) * size / 1000
        out.append((n, pos, Y))
        pos = pos + (widths[n] * size if widths else afm.w[n] * size / 1000)
    return out, pos


class Widths:

    def __init__(self, font):
        self.font, self.w = font, {}

    def __getitem__(self, n):
        if n not in self.w:
            self.w[n] = self.font.t1file.getglyphpath_pt(0, 0, n, 1).wx_pt
        return self.w[n]


def setup(x, case, outlines=False):
    from pyx.font.font import T1text_pt
    from pyx import unit, canvas
    unit.set(1, 1, 1, 1, "cm")
    fname, text, kerning, ligatures, mode = case
    font, afm = getfont(fname)
    FONTS[font.name] = afm
    X, Y = x.real("x", -200, 200), x.real("y", -200, 200)
    size = 12 if "space" in mode or "slant" in mode else x.real("size", 1, 50)
    spaced = x.real("spaced", -3, 3) if "space" in mode else 0
    slant = x.real("slant", -1, 1) if "slant" in mode else None
    if outlines and slant is not None:
        slant = x.choice("slants", [0.25, -0.7])
    elif slant is not None:
        x.assume(x.any([slant <= -0.05, slant >= 0.05]))
    t = T1text_pt(font, X, Y, text, size, slant=slant, kerning=kerning, ligatures=ligatures, spaced_pt=spaced)
    want, end = expected(x, text, afm, X, Y, size, spaced, kerning, ligatures, Widths(font) if outlines else None)
    c = canvas.canvas()
    c.insert(t)
    return font, afm, t, c, want, end, size, slant or 0


MODES = ["size", "space", "slant"]
SHOWN = [(f, TEXTS2[i] if f == "lmr10" else t, k, l, m) for i, t in enumerate(TEXTS) for j, (f, k, l) in enumerate((("cmr10", 0, 0), ("cmr10", 1, 0), ("lmr10", 0, 1), ("lmr10", 1, 1))) for n, m in enumerate(MODES) if (i + j + n) % 3 == 0]
ALL = [(f, TEXTS2[i] if f == "lmr10" else t, k, l, m) for i, t in enumerate(TEXTS) for f, k, l in (("cmr10", 0, 0), ("cmr10", 1, 0), ("lmr10", 0, 1), ("lmr10", 1, 1)) for m in MODES + ["space slant"]]


@harness(cases=SHOWN, thorough=ALL, simplify=True)
def shown(x, case):
    """glyphs and their places in PostScript and PDF"""
    font, afm, t, c, want, end, size, slant = setup(x, case)
    for backend in "ps", "pdf":
        if backend == "ps":
            got = ps_text(x, lib.write_eps(x, c))
        else:
            f = x.BytesIO()
            c.writePDFfile(f, write_compress=False)
            try:
                got = pdf_text(x, f.getvalue())
            except pdflib.Bad as e:
                x.check(False, "structure: " + str(e))
                continue
        x.check([g[0] for g in got] == [w[0] for w in want], backend + " glyphs", [g[0] for g in got])
        for a, b in zip(got, want):
            x.eq(a[1], b[1], backend + " horizontal position", 2e-2)
            x.eq(a[2], b[2], backend + " vertical position", 1e-3)
            x.eq(a[3], size, backend + " size", 1e-3)
            if backend == "pdf":
                for q, r in zip(a[4], (1, 0, slant, 1)):
                    x.eq(q, r, "pdf text matrix", 1e-3)
            else:
                # FontMatrix [0.001 0 0 0.001 0 0] slanted
                x.check((a[4] is not None) == ("slant" in case[4]), "slanted font")
                if a[4] is not None:
                    for q, r in zip(a[4], (0.001, 0, slant / 1000, 0.001, 0, 0)):
                        x.eq(q, r, "font matrix", 2e-5 if q is not r else 1)
    bb = t.bbox()
    x.eq(bb.llx_pt, want[0][1], "left of the box", 1e-3)
    x.eq(bb.urx_pt, end, "right of the box", 1e-3)
    x.eq(bb.lly_pt, want[0][2] + min(afm.box[w[0]][1] for w in want) * size / 1000, "bottom of the box", 1e-3)
    x.eq(bb.ury_pt, want[0][2] + max(afm.box[w[0]][3] for w in want) * size / 1000, "top of the box", 1e-3)


@harness(cases=SHOWN[::2], thorough=ALL[::2], simplify=True)
def aspath(x, case):
    """text as path: the outlines of the glyphs are at the places of the glyphs"""
    font, afm, t, c, want, end, size, slant = setup(x, case, True)
    p = t.textpath()
    ref = []
    if slant:
        # slanted paths are normalized; so is the reference
        got = [i for s in p.normsubpaths for i in s.normsubpathitems]
    else:
        got = list(p.pathitems)
    scale = size
    for n, X, Y in want:
        g = font.t1file.getglyphpath_pt(0, 0, n, 1)
        x.le(abs(g.wx_pt * 1000 - afm.w[n]), 1, "advance width of " + n, 1e-3)
        if slant:
            items = [i for s in font.t1file.getglyphpath_pt(0, 0, n, size).path.normpath().normsubpaths for i in s.normsubpathitems]
            scale = 1
        else:
            items = g.path.pathitems
        for i in items:
            ref.append((i, X, Y))
    x.check(len(got) == len(ref), "number of path items")
    drift = 0
    for a, (b, X, Y) in zip(got, ref):
        x.check(type(a) is type(b), "kind of path item")
        for k in ("x_pt", "x0_pt", "x1_pt", "x2_pt", "x3_pt"):
            if hasattr(b, k) and not (slant and k == "x_pt"):
                ky = k.replace("x", "y", 1)
                u, v = getattr(b, k) * scale, getattr(b, ky) * scale
                x.eq(getattr(a, k), X + u + slant * v, "outline", 2e-2)
                x.eq(getattr(a, ky), Y + v, "outline", 2e-2)


@harness(cases=[(b, k) for b in ("ps", "pdf") for k in ("two", "three", "sizes", "many", "full")])
def shared(x, case):
    """several texts in one file share fonts and encodings"""
    from pyx.font.font import T1text_pt
    from pyx import unit, canvas
    unit.set(1, 1, 1, 1, "cm")
    backend, kind = case
    X = x.real("x", -200, 200)
    c = canvas.canvas()
    font, afm = getfont("cmr10")
    font2, afm2 = getfont("lmr10")
    FONTS[font.name] = afm
    FONTS[font2.name] = afm2
    decoding = None
    if kind in ("many", "full"):
        # more glyphs than there are codes
        font, afm = font2, afm2
        names = sorted(n for n in afm.w if n in font.t1file.glyphs if n != ".notdef") if hasattr(font.t1file, "glyphs") and font.t1file.glyphs else sorted(n for n in afm.w if n != ".notdef")
        k = 200 if kind == "many" else 256
        texts = [(font, names[:k]), (font, names[k-10:k+60]), (font, names[5:9])]
        texts = [(f, [chr(0xe000 + names.index(n)) for n in t]) for f, t in texts]
        decoding = {chr(0xe000 + i): n for i, n in enumerate(names)}
    else:
        texts = {"two": [(font, "ab"), (font, "bc")], "three": [(font, "ab"), (font2, "cde"), (font, "ef")], "sizes": [(font, "ab"), (font, "ab"), (font, "ab"), (font, "x")]}[kind]
    want = []
    for i, (f, t) in enumerate(texts):
        y = x.real("y%d" % i, -200, 200)
        size = [10, 12, 12, 10][i]
        kw = {"decoding": decoding} if decoding else {}
        c.insert(T1text_pt(f, X, y, t, size, **kw))
        pos = X
        for ch in t:
            n = decoding[ch] if decoding else NAMES.get(ch, ch)
            a = FONTS[f.name]
            want.append((n, pos, y, size, f.name))
            pos = pos + a.w[n] * size / 1000
    if backend == "ps":
        got = ps_text(x, lib.write_eps(x, c))
    else:
        f = x.BytesIO()
        c.writePDFfile(f, write_compress=False)
        try:
            got = pdf_text(x, f.getvalue())
        except pdflib.Bad as e:
            return x.check(False, "structure: " + str(e))
    x.check([g[0] for g in got] == [w[0] for w in want], "glyphs")
    for a, b in zip(got, want):
        x.eq(a[1], b[1], "horizontal position", 2e-2)
        x.eq(a[2], b[2], "vertical position", 1e-3)
        x.check(a[5] == b[4], "font")
        x.eq(a[3], b[3], "size")
