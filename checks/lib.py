"""Interpreters for the PostScript, PDF and SVG output of PyX (oracles written from the language
specifications, independent of PyX); they work on concrete output as well as on output in which
numerals are placeholders of symbolic values (x.num maps a numeral to its value)."""
import re

IDENT = (1, 0, 0, 1, 0, 0)


def mul(m, n):
    """PS convention: first m then n, row vectors  [a b c d tx ty]"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a*A + b*C, a*B + b*D, c*A + d*C, c*B + d*D, e*A + f*C + E, e*B + f*D + F)


def app(m, p):
    a, b, c, d, e, f = m
    x, y = p
    return (a*x + c*y + e, b*x + d*y + f)


class State:
    def __init__(self):
        self.ctm = IDENT
        self.lw = 1.0
        self.cap = 0
        self.join = 0
        self.miter = 10.0
        self.dash = ((), 0)
        self.stroke = ("gray", (0,))
        self.fill = ("gray", (0,))
        self.clips = ()

    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        return s


class Malformed(Exception):
    pass


class Draw:
    """one painting operation: op in stroke / fill / eofill, path: list of device space segments,
    state: graphics state"""
    def __init__(self, op, path, state):
        self.op, self.path, self.s = op, path, state

    def __repr__(self):
        return "%s%r" % (self.op, [p[0] for p in self.path])


class PathBuilder:
    """path in user space coordinates; segments ('M', p) ('L', p) ('C', p1, p2, p3) ('Z',) in device space"""
    def __init__(self):
        self.segs = []
        self.cur = None     # user space
        self.start = None

    def need(self):
        if self.cur is None:
            raise Malformed("no current point")

    def move(self, m, p):
        if self.segs and self.segs[-1][0] == "M":
            self.segs.pop()
        self.segs.append(("M", app(m, p)))
        self.cur = self.start = p

    def line(self, m, p):
        self.need()
        self._reopen(m)
        self.segs.append(("L", app(m, p)))
        self.cur = p

    def curve(self, m, p1, p2, p3):
        self.need()
        self._reopen(m)
        self.segs.append(("C", app(m, p1), app(m, p2), app(m, p3)))
        self.cur = p3

    def _reopen(self, m):
        if self.segs and self.segs[-1][0] == "Z":
            self.segs.append(("M", app(m, self.cur)))
            self.start = self.cur

    def close(self):
        if self.cur is None:
            return
        if self.segs and self.segs[-1][0] != "Z":
            self.segs.append(("Z",))
        self.cur = self.start

    def arc(self, x, m, c, r, a1, a2, ccw):
        """PS arc / arcn: kept as an exact arc segment"""
        rad = x.math.pi / 180
        p1 = (c[0] + r * x.math.cos(a1 * rad), c[1] + r * x.math.sin(a1 * rad))
        p2 = (c[0] + r * x.math.cos(a2 * rad), c[1] + r * x.math.sin(a2 * rad))
        if self.cur is None:
            self.move(m, p1)
        else:
            self.line(m, p1)
        self.segs.append(("A", app(m, p2), app(m, c), m, r, a1, a2, ccw))
        self.cur = p2

    def take(self):
        s = self.segs
        while s and s[-1][0] == "M":
            s = s[:-1]
        self.segs, self.cur, self.start = [], None, None
        return s


_tok = re.compile(r"\s+|%[^\n]*|(\[|\]|<<|>>|<[0-9A-Fa-f\s]*>|/[^\s\[\]<>/()%]*|[^\s\[\]<>/()%]+)|(\()")


def tokens(text):
    pos = 0
    while pos < len(text):
        m = _tok.match(text, pos)
        if not m:
            raise Malformed("cannot tokenise %r" % text[pos:pos+20])
        pos = m.end()
        if m.group(1):
            yield m.group(1)
        elif m.group(2):
            depth, start = 1, pos
            while depth:
                if pos >= len(text):
                    raise Malformed("unterminated string")
                ch = text[pos]
                if ch == "\\":
                    pos += 2
                    continue
                depth += {"(": 1, ")": -1}.get(ch, 0)
                pos += 1
            yield "(" + text[start:pos-1] + ")"


def _parr(x, t):
    return tuple(x.num(k) for k in t)


def interp_ps(x, text, device=IDENT):
    """interpret PS page code -> list of Draw"""
    st = State()
    st.ctm = device
    stack = []
    ops = []
    pb = PathBuilder()
    draws = []
    for t in tokens(text):
        if t in ("[",):
            ops.append("[")
            continue
        if t == "]":
            arr = []
            while ops and ops[-1] != "[":
                arr.append(ops.pop())
            if not ops:
                raise Malformed("unmatched ]")
            ops.pop()
            ops.append(tuple(arr[::-1]))
            continue
        if t[0] in "/(<" or x.isnum(t):
            ops.append(t)
            continue

        def args(n):
            if len(ops) < n:
                raise Malformed("stack underflow at %s" % t)
            a = ops[len(ops)-n:]
            del ops[len(ops)-n:]
            return [x.num(k) for k in a]
        if t == "gsave":
            stack.append((st.copy(), list(pb.segs), pb.cur, pb.start))
        elif t == "grestore":
            if not stack:
                raise Malformed("grestore without gsave")
            st, pb.segs, pb.cur, pb.start = stack.pop()
        elif t == "newpath":
            pb.take()
        elif t == "moveto":
            pb.move(st.ctm, tuple(args(2)))
        elif t == "rmoveto":
            pb.need()
            d = args(2)
            pb.move(st.ctm, (pb.cur[0] + d[0], pb.cur[1] + d[1]))
        elif t == "lineto":
            pb.line(st.ctm, tuple(args(2)))
        elif t == "rlineto":
            pb.need()
            d = args(2)
            pb.line(st.ctm, (pb.cur[0] + d[0], pb.cur[1] + d[1]))
        elif t == "curveto":
            a = args(6)
            pb.curve(st.ctm, (a[0], a[1]), (a[2], a[3]), (a[4], a[5]))
        elif t == "rcurveto":
            pb.need()
            a = args(6)
            cx, cy = pb.cur
            pb.curve(st.ctm, (cx+a[0], cy+a[1]), (cx+a[2], cy+a[3]), (cx+a[4], cy+a[5]))
        elif t in ("arc", "arcn"):
            a = args(5)
            pb.arc(x, st.ctm, (a[0], a[1]), a[2], a[3], a[4], t == "arc")
        elif t == "closepath":
            pb.close()
        elif t in ("stroke", "fill", "eofill"):
            draws.append(Draw(t, pb.take(), st.copy()))
        elif t in ("clip", "eoclip"):
            st.clips = st.clips + (tuple(pb.segs),)
        elif t == "concat":
            m = ops.pop()
            st.ctm = mul(_parr(x, m), st.ctm)
        elif t == "translate":
            a = args(2)
            st.ctm = mul((1, 0, 0, 1, a[0], a[1]), st.ctm)
        elif t == "scale":
            a = args(2)
            st.ctm = mul((a[0], 0, 0, a[1], 0, 0), st.ctm)
        elif t == "setlinewidth":
            st.lw, = args(1)
        elif t == "setlinecap":
            st.cap, = args(1)
        elif t == "setlinejoin":
            st.join, = args(1)
        elif t == "setmiterlimit":
            st.miter, = args(1)
        elif t == "setdash":
            off, = args(1)
            st.dash = (_parr(x, ops.pop()), off)
        elif t == "setgray":
            st.stroke = st.fill = ("gray", tuple(args(1)))
        elif t == "setrgbcolor":
            st.stroke = st.fill = ("rgb", tuple(args(3)))
        elif t == "setcmykcolor":
            st.stroke = st.fill = ("cmyk", tuple(args(4)))
        elif t == "sethsbcolor":
            st.stroke = st.fill = ("hsb", tuple(args(3)))
        elif t == "showpage":
            pass
        else:
            raise Malformed("unknown operator %r" % t)
    if stack:
        raise Malformed("unbalanced gsave")
    if ops:
        raise Malformed("operands left on the stack: %r" % ops)
    return draws


def interp_pdf(x, text, device=IDENT):
    st = State()
    st.ctm = device
    stack = []
    ops = []
    pb = PathBuilder()
    draws = []
    pendingclip = False

    def endpath():
        nonlocal pendingclip
        p = pb.take()
        if pendingclip:
            st.clips = st.clips + (tuple(p),)
            pendingclip = False
        return p
    for t in tokens(text):
        if t == "[":
            ops.append("[")
            continue
        if t == "]":
            arr = []
            while ops and ops[-1] != "[":
                arr.append(ops.pop())
            if not ops:
                raise Malformed("unmatched ]")
            ops.pop()
            ops.append(tuple(arr[::-1]))
            continue
        if t[0] in "/(<" or x.isnum(t):
            ops.append(t)
            continue

        def args(n):
            if len(ops) != n:
                raise Malformed("%s got %d operands" % (t, len(ops)))
            a = ops[:]
            del ops[:]
            return [x.num(k) for k in a]
        if t == "q":
            if pb.segs and False:
                raise Malformed("q inside path")
            stack.append(st.copy())
        elif t == "Q":
            if not stack:
                raise Malformed("Q without q")
            st = stack.pop()
        elif t == "m":
            pb.move(st.ctm, tuple(args(2)))
        elif t == "l":
            pb.line(st.ctm, tuple(args(2)))
        elif t == "c":
            a = args(6)
            pb.curve(st.ctm, (a[0], a[1]), (a[2], a[3]), (a[4], a[5]))
        elif t == "re":
            a = args(4)
            pb.move(st.ctm, (a[0], a[1]))
            pb.line(st.ctm, (a[0]+a[2], a[1]))
            pb.line(st.ctm, (a[0]+a[2], a[1]+a[3]))
            pb.line(st.ctm, (a[0], a[1]+a[3]))
            pb.close()
        elif t == "h":
            pb.close()
        elif t in ("S", "f", "f*", "B", "B*", "n", "s", "b", "b*"):
            if t in ("s", "b", "b*"):
                pb.close()
            if t in ("n",) or pendingclip:
                p = endpath()
            else:
                p = pb.take()
            if t in ("f", "B", "b"):
                draws.append(Draw("fill", p, st.copy()))
            if t in ("f*", "B*", "b*"):
                draws.append(Draw("eofill", p, st.copy()))
            if t in ("S", "B", "B*", "s", "b", "b*"):
                draws.append(Draw("stroke", p, st.copy()))
        elif t == "W":
            pendingclip = True
        elif t == "cm":
            st.ctm = mul(tuple(args(6)), st.ctm)
        elif t == "w":
            st.lw, = args(1)
        elif t == "J":
            st.cap, = args(1)
        elif t == "j":
            st.join, = args(1)
        elif t == "M":
            st.miter, = args(1)
        elif t == "d":
            off = x.num(ops.pop())
            st.dash = (_parr(x, ops.pop()), off)
        elif t in ("G", "g"):
            c = ("gray", tuple(args(1)))
            if t == "G":
                st.stroke = c
            else:
                st.fill = c
        elif t in ("RG", "rg"):
            c = ("rgb", tuple(args(3)))
            if t == "RG":
                st.stroke = c
            else:
                st.fill = c
        elif t in ("K", "k"):
            c = ("cmyk", tuple(args(4)))
            if t == "K":
                st.stroke = c
            else:
                st.fill = c
        elif t == "gs":
            st.gs = ops.pop()
        else:
            raise Malformed("unknown operator %r" % t)
    if stack:
        raise Malformed("unbalanced q")
    if ops:
        raise Malformed("operands left: %r" % ops)
    return draws


_svgtok = re.compile(r"[MmLlCcZzAaHhVvQqSsTt]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[\s,]+")


def svg_path(x, d, m):
    pb = PathBuilder()
    pos = 0
    toks = []
    while pos < len(d):
        k = _svgtok.match(d, pos)
        if not k:
            raise Malformed("svg path data %r" % d[pos:pos+20])
        if k.group(0).strip(", \n\t"):
            toks.append(k.group(0))
        pos = k.end()
    i = 0
    cmd = None

    def take(n):
        nonlocal i
        r = [x.num(k) for k in toks[i:i+n]]
        if len(r) != n:
            raise Malformed("svg path: missing numbers")
        i += n
        return r
    while i < len(toks):
        if toks[i].isalpha():
            cmd = toks[i]
            i += 1
            if cmd in "Zz":
                pb.close()
                continue
        elif cmd is None or cmd in "Zz":
            raise Malformed("svg path: number without command")
        cx, cy = pb.cur if pb.cur is not None else (0, 0)
        rel = cmd.islower()
        ox, oy = (cx, cy) if rel else (0, 0)
        C = cmd.upper()
        if C == "M":
            a = take(2)
            pb.move(m, (ox+a[0], oy+a[1]))
            cmd = "l" if rel else "L"
        elif C == "L":
            a = take(2)
            pb.line(m, (ox+a[0], oy+a[1]))
        elif C == "H":
            a = take(1)
            pb.line(m, (ox+a[0], cy))
        elif C == "V":
            a = take(1)
            pb.line(m, (cx, oy+a[0]))
        elif C == "C":
            a = take(6)
            pb.curve(m, (ox+a[0], oy+a[1]), (ox+a[2], oy+a[3]), (ox+a[4], oy+a[5]))
        elif C == "A":
            a = take(7)
            pb.need()
            pb.segs.append(("SA", app(m, (ox+a[5], oy+a[6])), a[0], a[1], a[2], a[3], a[4]))
            pb.cur = (ox+a[5], oy+a[6])
        else:
            raise Malformed("svg path command %s" % cmd)
    return pb


FLIP = (1, 0, 0, -1, 0, 0)


def interp_svg(x, text):
    """draws in PyX coordinates (y up)"""
    import xml.etree.ElementTree as ET
    root = ET.fromstring(text)
    ns = "{http://www.w3.org/2000/svg}"
    draws = []
    clips = {}
    for c in root.iter(ns + "clipPath"):
        clips[c.get("id")] = c.find(ns + "path").get("d")

    def parse_tr(t):
        m = re.fullmatch(r"matrix\(([^)]*)\)", t.strip())
        if not m:
            raise Malformed("transform %r" % t)
        return tuple(x.num(k) for k in re.split(r"[\s,]+", m.group(1).strip()))

    def color(c):
        if c == "none":
            return None
        if c == "black":
            return ("hex", "#000000")
        return ("hex", c)

    def walk(e, st, painted):
        st = st.copy()
        painted = dict(painted)
        if e.get("transform"):
            st.ctm = mul(parse_tr(e.get("transform")), st.ctm)
        g = e.get
        if g("clip-path"):
            cid = re.fullmatch(r"url\(#(.*)\)", g("clip-path")).group(1)
            pb = svg_path(x, clips[cid], st.ctm)
            st.clips = st.clips + (tuple(pb.segs),)
        if g("stroke-width"):
            st.lw = x.num(g("stroke-width"))
        if g("stroke-linecap"):
            st.cap = {"butt": 0, "round": 1, "square": 2}[g("stroke-linecap")]
        if g("stroke-linejoin"):
            st.join = {"miter": 0, "round": 1, "bevel": 2}[g("stroke-linejoin")]
        if g("stroke-miterlimit"):
            st.miter = x.num(g("stroke-miterlimit"))
        if g("stroke-dasharray"):
            st.dash = ((), 0) if g("stroke-dasharray") == "none" else (_parr(x, g("stroke-dasharray").split()), st.dash[1])
        if g("stroke-dashoffset"):
            st.dash = (st.dash[0], x.num(g("stroke-dashoffset")))
        for k in ("fill", "stroke", "fill-rule", "opacity"):
            if g(k) is not None:
                painted[k] = g(k)
        if e.tag == ns + "path":
            p = svg_path(x, g("d"), st.ctm).take()
            if painted.get("fill", "black") != "none":
                s2 = st.copy()
                s2.fill = color(painted.get("fill", "black"))
                draws.append(Draw("eofill" if painted.get("fill-rule") == "evenodd" else "fill", p, s2))
            if painted.get("stroke", "none") != "none":
                s2 = st.copy()
                s2.stroke = color(painted["stroke"])
                draws.append(Draw("stroke", p, s2))
        elif e.tag in (ns + "g", ns + "svg"):
            for c in e:
                walk(c, st, painted)
        elif e.tag == ns + "defs":
            pass
        else:
            raise Malformed("svg element %s" % e.tag)
    st = State()
    st.ctm = FLIP
    walk(root, st, {})
    return draws, root


# ---------------------------------------------------------------------- running the writers
def _text(b):
    return b.decode("latin-1") if not isinstance(b, str) else b


def ps_page(text):
    """page code of an EPS file"""
    i = text.index("%%EndProlog\n") + len("%%EndProlog\n")
    j = text.index("showpage\n", i)
    return text[i:j]


def write_eps(x, c, **kw):
    f = x.BytesIO()
    c.writeEPSfile(f, **kw)
    return _text(f.getvalue())


def write_svg(x, c, **kw):
    f = x.BytesIO()
    c.writeSVGfile(f, **kw)
    return f.getvalue().decode("utf-8")


def write_pdf(x, c, **kw):
    f = x.BytesIO()
    c.writePDFfile(f, write_compress=False, **kw)
    return _text(f.getvalue())


def pdf_objects(text):
    """dict objno -> body text (sequential scan)"""
    objs = {}
    for m in re.finditer(r"(?:(?<=\n)|^)(\d+) 0 obj\n(.*?)endobj\n", text, re.S):
        objs[int(m.group(1))] = m.group(2)
    return objs


def pdf_content(text):
    for b in pdf_objects(text).values():
        m = re.search(r"/Contents (\d+) 0 R", b)
        if m:
            c = pdf_objects(text)[int(m.group(1))]
            return c[c.index("stream\n") + 7: c.rindex("endstream")]
    raise Malformed("no page content")


def render(x, c, backend, **kw):
    if backend == "ps":
        return interp_ps(x, ps_page(write_eps(x, c, **kw)))
    if backend == "pdf":
        return interp_pdf(x, pdf_content(write_pdf(x, c, **kw)))
    if backend == "svg":
        return interp_svg(x, write_svg(x, c, **kw))[0]
    raise ValueError(backend)


# ---------------------------------------------------------------------- comparisons
def normal_segs(segs):
    """drop redundant trailing movetos"""
    out = []
    for s in segs:
        if s[0] == "M" and out and out[-1][0] == "M":
            out.pop()
        out.append(s)
    while out and out[-1][0] == "M":
        out.pop()
    return out


def same_segs(x, a, b, label, tol=1e-3):
    a, b = normal_segs(a), normal_segs(b)
    x.check([s[0] for s in a] == [s[0] for s in b], label + ": same segments", "%s / %s" % ([s[0] for s in a], [s[0] for s in b]))
    if [s[0] for s in a] != [s[0] for s in b]:
        return False
    for i, (s, t) in enumerate(zip(a, b)):
        for p, q in zip(s[1:], t[1:]):
            x.eq(p[0], q[0], "%s: x of segment %d" % (label, i), tol)
            x.eq(p[1], q[1], "%s: y of segment %d" % (label, i), tol)
    return True


def drop_tiny(x, segs, tol=1e-6):
    """without the (nearly) zero length lines and without explicit lines back to the start of a closed subpath"""
    out, start = [], None
    near = lambda p, q: x.all([abs(p[0] - q[0]) < tol, abs(p[1] - q[1]) < tol])
    for s in segs:
        if s[0] == "L" and out and len(out[-1]) > 1 and near(s[1], out[-1][1 if out[-1][0] == "SA" else -1]):
            continue
        if s[0] == "M":
            start = s[1]
        if s[0] == "Z" and out[-1][0] == "L" and near(out[-1][1], start):
            out.pop()
        out.append(s)
    return out


def normpath_segs(np):
    """segments of a PyX normpath"""
    from pyx import normpath as N
    out = []
    for sp in np.normsubpaths:
        first = True
        items = list(sp.normsubpathitems)
        for k, it in enumerate(items):
            if first:
                out.append(("M", tuple(it.atbegin_pt())))
                first = False
            if isinstance(it, N.normline_pt):
                if sp.closed and k == len(items) - 1:
                    continue    # the closing line
                out.append(("L", (it.x1_pt, it.y1_pt)))
            else:
                out.append(("C", (it.x1_pt, it.y1_pt), (it.x2_pt, it.y2_pt), (it.x3_pt, it.y3_pt)))
        if sp.closed:
            out.append(("Z",))
    return out


def drop_closing(x, segs):
    return segs


def map_segs(f, segs):
    return [(s[0],) + tuple(f(p) for p in s[1:]) for s in segs]


def roots_by_contract(x):
    """mathutils.realpolyroots by contract, where it inverts a monotonic parametrization q(t) = param on [0, 1] with concrete
    coefficients and symbolic param: some t in [0, 1] with |t - param| <= max |q(t) - t|"""
    from pyx import mathutils
    real = getattr(mathutils, "_verif_realpolyroots", None) or mathutils.realpolyroots
    mathutils._verif_realpolyroots = real
    n = [0]

    def realpolyroots(*coeffs):
        if all(isinstance(c, (int, float)) for c in coeffs):
            return real(*coeffs)
        co, c0 = coeffs[:-1], coeffs[-1]
        assert all(isinstance(c, (int, float)) for c in co) and len(co) == 3 and sum(co) > 0
        total = sum(co)
        q = lambda t: ((co[0]*t + co[1])*t + co[2])*t / total
        dev = max(abs(q(i/1000) - i/1000) for i in range(1001))
        assert all(q((i+1)/1000) > q(i/1000) for i in range(1000))
        n[0] += 1
        t = x.real("root%d" % n[0], 0, 1)
        param = c0 * (-1 / total)
        dev = 1.01*dev + 1e-12
        x.assume(x.all([t - param <= dev, param - t <= dev]))
        return [t]
    mathutils.realpolyroots = realpolyroots
