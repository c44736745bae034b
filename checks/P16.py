"""Bitmaps: the images a reader of the file gets are the images given, at the place requested."""
import re
from pysym.api import harness
import lib
import pdflib

BOUNDS = ("images of 1x1 to 3x2 pixels with arbitrary pixels in all modes (gray, RGB, CMYK, with leading or trailing alpha, palettes of 2..3 colors); up to 3 images in one file; ASCII85 and ASCIIHex data of 1..9, 57..65 and 120..125 "
          "bytes (arbitrary bytes, in the long ones around the line breaks); stored images split at 5..4093 bytes; JPEG files with 1-3 segments, arbitrary sizes and resolutions; images placed by width, height, ratio and dpi 0.5..100")
ASSUMPTIONS = ["floating point numbers are treated as exact reals", "zlib and base64 round-trip; crc32 and sha1 are taken as injective functions", "JPEG entropy coded data is not decoded"]

BANDS = {"L": 1, "RGB": 3, "CMYK": 4, "LA": 2, "RGBA": 4, "CMYKA": 5, "AL": 2, "ARGB": 4, "ACMYK": 5, "P": 1}
FILTERS = {"ASCII85Decode", "ASCIIHexDecode", "FlateDecode", "DCTDecode"}


class Bad(Exception):
    pass


# ---------------------------------------------------------------- decoders

def decode85(x, v):
    """bytes of ASCII85 data (without the end marker)"""
    out, group, fresh = [], [], x.__dict__.setdefault("fresh85", [0])

    def flush(group):
        n = len(group)
        if n == 1:
            raise Bad("single character at the end")
        value = 0
        for c in group + [117] * (5 - n):
            x.check(x.all([c >= 33, c <= 117]), "character of ASCII85 data")
            value = value * 85 + (c - 33)
        x.check(value < 256**4, "value of an ASCII85 group")
        if isinstance(value, int):
            out.extend(value.to_bytes(4, "big")[:n-1])
            return
        # the bytes are the digits of the value in base 256: there is exactly one such list of bytes
        fresh[0] += 1
        b = [x.int("b%d_%d" % (fresh[0], k), 0, 255) for k in range(n - 1)]
        low = 0
        for k in range(4):
            low = low * 256 + (b[k] if k < n - 1 else 0)
        if n == 5:
            x.assume(low == value)
        else:
            x.assume(low <= value)
            x.assume(value < low + 256**(5 - n))
        out.extend(b)

    for c in v:
        if isinstance(c, int):
            if c in (10, 13, 32):
                continue
            if c == 122:
                if group:
                    raise Bad("z inside of a group")
                out.extend([0] * 4)
                continue
        group.append(c)
        if len(group) == 5:
            flush(group)
            group = []
    if group:
        flush(group)
    return out


def hexdigit(x, c):
    if not isinstance(c, int):
        x.check(x.any([x.all([c >= 48, c <= 57]), x.all([c >= 97, c <= 102]), x.all([c >= 65, c <= 70])]), "hex digit")
        return x.ite(c >= 97, c - 87, x.ite(c >= 65, c - 55, c - 48))
    if chr(c) not in "0123456789abcdefABCDEF":
        raise Bad("hex digit")
    return int(chr(c), 16)


def decodehex(x, v):
    d = [hexdigit(x, c) for c in v if c not in (10, 13, 32)] if all(isinstance(c, int) for c in v) else [hexdigit(x, c) for c in v if not (isinstance(c, int) and c in (10, 13, 32))]
    if len(d) % 2:
        d.append(0)
    return [d[i] * 16 + d[i+1] for i in range(0, len(d), 2)]


def decode64(x, v):
    from pyx import bitmap
    if len(v) % 4:
        raise Bad("length of base64 data")
    return pdflib.values(bitmap.binascii.a2b_base64(tobytes(x, v)))


def lines(v, a, b):
    """number of lines in v[a:b]"""
    return sum(1 for c in v[a:b] if isinstance(c, int) and c == 10)


def tobytes(x, v):
    return x.byteslike(v)


def find(v, s, start=0):
    s = list(s.encode("ascii"))
    for i in range(start, len(v) - len(s) + 1):
        if all(isinstance(v[i+k], int) and v[i+k] == c for k, c in enumerate(s)):
            return i
    return -1


# ---------------------------------------------------------------- PostScript

class PS:
    """an interpreter of the operators used to show images"""

    def __init__(self, x, data):
        self.x, self.v = x, pdflib.values(data)
        self.images = []
        self.defs = {}
        self.stack = []
        self.p = 0
        self.marks = 0
        self.color = None
        self.saved = []
        self.data = None
        pdflib.ISNUM[0] = x.isnum

    def error(self, s):
        raise Bad("PostScript: " + s)

    def end(self, s):
        i = find(self.v, s, self.p)
        if i < 0:
            self.error("no " + s)
        return i

    def token(self):
        v = self.v
        r = pdflib.Reader(v, self.p)
        while self.p < len(v):
            c = v[self.p]
            if not isinstance(c, int):
                self.error("arbitrary byte outside of data")
            if c == 37:
                e = find(v, "\n", self.p)
                e = len(v) if e < 0 else e
                l = bytes(v[self.p:e]).decode("ascii")
                m = re.match(r"%%BeginData: (\d+) ASCII Lines$", l)
                if m:
                    self.begin = e + 1, int(m.group(1))
                elif l == "%%EndData":
                    b, n = self.begin
                    self.x.check(lines(v, b, self.p) == n, "number of lines announced", (lines(v, b, self.p), n))
                self.p = e
            elif c in (32, 10, 13, 9):
                self.p += 1
            else:
                break
        if self.p >= len(v):
            return None
        c = chr(v[self.p])
        two = c + (chr(v[self.p+1]) if isinstance(v[self.p+1], int) else "") if self.p + 1 < len(v) else c
        if two == "<~":
            e = find(v, "~>", self.p + 2)
            if e < 0:
                self.error("string is not terminated")
            s = decode85(self.x, v[self.p+2:e])
            self.p = e + 2
            return ("string", s)
        if two in ("<<", ">>"):
            self.p += 2
            return two
        if c in "[]{}":
            self.p += 1
            return c
        if c == "(":
            r.p = self.p + 1
            s = r.string()
            self.p = r.p
            return ("string", s)
        s = self.p + (c == "/")
        e = s
        while e < len(v) and chr(r.concrete(v[e])) not in " \n\r\t[]{}<>()/%":
            e += 1
        self.p = e
        w = bytes(v[s:e]).decode("latin-1")
        return ("name", w) if c == "/" else w

    def run(self):
        while True:
            t = self.token()
            if t is None:
                break
            if t == "{":
                depth, body = 1, []
                while True:
                    t = self.token()
                    if t is None:
                        self.error("procedure")
                    depth += (t == "{") - (t == "}")
                    if not depth:
                        break
                    body.append(t)
                self.stack.append(("proc", body))
            else:
                self.execute(t)
        if self.saved:
            self.error("gsave without grestore")
        return self

    def popto(self, mark):
        out = []
        while self.stack[-1] != mark:
            out.insert(0, self.stack.pop())
        self.stack.pop()
        return out

    def execute(self, t):
        st = self.stack
        if isinstance(t, tuple):
            st.append(t)
        elif t in ("[", "<<"):
            st.append(("mark", t))
        elif t == "]":
            st.append(("array", self.popto(("mark", "["))))
        elif t == ">>":
            a = self.popto(("mark", "<<"))
            if len(a) % 2 or any(k[0] != "name" for k in a[::2]):
                self.error("dictionary")
            st.append(("dict", {a[i][1]: a[i+1] for i in range(0, len(a), 2)}))
        elif t in ("def", "store"):
            b, a = st.pop(), st.pop()
            if a[0] != "name":
                self.error("key")
            self.defs[a[1]] = b
        elif t == "exch":
            st[-1], st[-2] = st[-2], st[-1]
        elif t == "dup":
            st.append(st[-1])
        elif t == "add":
            b, a = st.pop(), st.pop()
            st.append(a + b)
        elif t == "load":
            st.append(self.lookup(st.pop()[1]))
        elif t == "get":
            b, a = st.pop(), st.pop()
            if not 0 <= b < len(a[1]):
                self.error("rangecheck in get")
            st.append(a[1][b])
        elif t == "currentfile":
            st.append(("file",))
        elif t == "filter":
            n, s = st.pop(), st.pop()
            if n[1] not in FILTERS:
                self.error("filter " + n[1])
            st.append(("filter", n[1], s))
        elif t == "gsave":
            self.saved.append(self.color)
        elif t == "grestore":
            self.color = self.saved.pop()
        elif t == "setcolorspace":
            self.color = st.pop()
        elif t == "image":
            if self.v[self.p] not in (10, 13, 32):
                self.error("white space behind image")
            self.p += 1
            self.image(st.pop())
        elif self.x.isnum(t) or re.fullmatch(r"[-+]?\d+", t):
            st.append(int(t) if re.fullmatch(r"[-+]?\d+", t) else self.x.num(t))
        elif t in self.defs:
            v = self.defs[t]
            if v[0] == "proc":
                for k in v[1]:
                    self.execute(k)
            else:
                st.append(v)
        elif t not in ("showpage", "setlinewidth"):
            self.error("operator " + t)

    def lookup(self, n):
        if n not in self.defs:
            self.error("undefined " + n)
        return self.defs[n]

    def source(self, s, wanted):
        """data of a data source; wanted: number of bytes for a source without end"""
        if s[0] == "filter":
            raw = self.source(s[2], None if s[1] != "DCTDecode" else None)
            if s[1] in ("ASCII85Decode", "ASCIIHexDecode"):
                if s[2] != ("file",):
                    self.error("ASCII data from a string")
                e = self.end("~>" if s[1] == "ASCII85Decode" else ">")
                raw = self.v[self.p:e]
                self.p = e + (2 if s[1] == "ASCII85Decode" else 1)
                return decode85(self.x, raw) if s[1] == "ASCII85Decode" else decodehex(self.x, raw)
            if s[1] == "FlateDecode":
                return pdflib.values(pdflib.inflate(self.x, raw))
            return raw
        if s[0] == "file":
            return None
        if s[0] == "string":
            return s[1]
        if s[0] == "proc":
            # pull all strings there are
            out = []
            n = len(self.stack)
            while True:
                try:
                    for k in s[1]:
                        self.execute(k)
                except Bad as e:
                    if not out or "rangecheck" not in str(e):
                        raise
                    del self.stack[n:]
                    return out
                k = self.stack.pop()
                if len(self.stack) != n or k[0] != "string":
                    self.error("data procedure")
                if not k[1]:
                    self.error("empty string")
                out += k[1]
        self.error("data source")

    def image(self, d):
        d = d[1]
        t = d["ImageType"]
        if t == 3:
            m = d["MaskDict"][1]
            if d["InterleaveType"] != 1 or m["ImageType"] != 1:
                self.error("kind of mask")
            d = d["DataDict"][1]
            for k in "Width", "Height", "BitsPerComponent":
                if m[k] != d[k]:
                    self.error("mask " + k)
            if m["Decode"] != ("array", [1, 0]):
                self.error("decode of the mask")
            self.x.check(len(m["ImageMatrix"][1]) == 6, "matrix of the mask")
            for a, b in zip(m["ImageMatrix"][1], d["ImageMatrix"][1]):
                self.x.eq(a, b, "matrix of the mask", 1e-6)
        elif t != 1:
            self.error("image type")
        if d["ImageType"] != 1 or d["BitsPerComponent"] != 8:
            self.error("image type or depth")
        n, palette = colorspace(self.color, self.error)
        if d["Decode"] != ("array", [0, 255] if palette is not None else [0, 1] * n):
            self.error("decode array")
        data = self.source(d["DataSource"], None)
        self.images.append(dict(w=d["Width"], h=d["Height"], n=n, palette=palette, data=data, alpha=t == 3, interleaved=True, matrix=d["ImageMatrix"][1]))


NCOMP = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}


def colorspace(c, error):
    if c[0] == "name":
        return NCOMP[c[1]], None
    a = c[1]
    if len(a) != 4 or a[0] != ("name", "Indexed"):
        error("color space")
    n = NCOMP[a[1][1]]
    s = a[3][1]
    if len(s) != n * (a[2] + 1):
        error("size of the palette: %d bytes, %d components, up to %s" % (len(s), n, a[2]))
    return n, [s[i:i+n] for i in range(0, len(s), n)]


def pixels(im):
    """(list of components, list of alpha or None) of the pixels"""
    n = 1 if im["palette"] is not None else im["n"]
    data = im["data"]
    step = n + (1 if im["alpha"] and im["interleaved"] else 0)
    if len(data) != im["w"] * im["h"] * step:
        raise Bad("amount of data %d for %dx%d pixels of %d bytes" % (len(data), im["w"], im["h"], step))
    px, al = [], []
    for i in range(0, len(data), step):
        p = data[i:i+step]
        if im["alpha"] and im["interleaved"]:
            al.append(p[0])
            p = p[1:]
        px.append(p)
    if im["alpha"] and not im["interleaved"]:
        al = im["alpha"]
    return px, al if im["alpha"] else None


# ---------------------------------------------------------------- images of files

def ps_images(x, c):
    f = x.BytesIO()
    c.writeEPSfile(f)
    out = []
    for im in PS(x, f.getvalue()).run().images:
        m = im["matrix"]
        # image coordinates of the corners of the unit square are checked by the caller
        im["corner"] = lambda X, Y, im=im, m=m: (m[0] * X + m[2] * Y + m[4], m[1] * X + m[3] * Y + m[5])
        im["inverse"] = True
        out.append(im)
    return out


def pdf_images(x, c):
    f = x.BytesIO()
    c.writePDFfile(f, write_compress=False)
    p = pdflib.File(x, f.getvalue())
    (page, content), = p.check()
    res = p.get(page["Resources"])
    out = []
    ctm, saved = (1, 0, 0, 1, 0, 0), []
    for o, a in p.content(content.data, res):
        if o == "q":
            saved.append(ctm)
        elif o == "Q":
            ctm = saved.pop()
        elif o == "cm":
            ctm = lib.mul(tuple(x.num(k) for k in a), ctm)
        elif o == "Do":
            s = p.get(p.get(res["XObject"])[a[0]])
            im = pdf_image(x, p, s)
            im["inverse"] = False
            im["corner"] = lambda X, Y, m=ctm: lib.app(m, (X, Y))
            out.append(im)
    return out


def pdf_image(x, p, s):
    d = s.d
    if d["BitsPerComponent"] != "8":
        raise Bad("depth")
    cs = d["ColorSpace"]
    palette = None
    if isinstance(cs, list):
        n = NCOMP[cs[1]]
        lut = p.get(cs[3])
        b = list(lut.data if isinstance(lut, pdflib.Stream) else lut)
        if cs[0] != "Indexed" or len(b) != n * (int(cs[2]) + 1):
            raise Bad("palette: %d bytes, %d components, up to %s" % (len(b), n, cs[2]))
        palette = [b[i:i+n] for i in range(0, len(b), n)]
    else:
        n = NCOMP[cs]
    data = list(s.data)
    alpha = False
    if "SMask" in d:
        m = p.get(d["SMask"])
        if m.d["Width"] != d["Width"] or m.d["Height"] != d["Height"] or m.d["ColorSpace"] != "DeviceGray":
            raise Bad("soft mask")
        alpha = list(m.data)
    return dict(w=int(d["Width"]), h=int(d["Height"]), n=n, palette=palette, data=data, alpha=alpha, interleaved=False, filter=d.get("Filter"))


def svg_images(x, c):
    v = pdflib.values(lib_svg(x, c))
    out = []
    i = 0
    while True:
        i = find(v, "<image", i)
        if i < 0:
            return out
        e = i
        quoted = False
        while not (not quoted and v[e] == 62):
            if isinstance(v[e], int) and v[e] == 34:
                quoted = not quoted
            e += 1
        attrs = {}
        k = i + 6
        while True:
            a = find(v, "=\"", k)
            if a < 0 or a > e:
                break
            n = bytes(v[k:a]).decode("ascii").strip()
            b = a + 2
            while not (isinstance(v[b], int) and v[b] == 34):
                b += 1
            attrs[n] = v[a+2:b]
            k = b + 1
        i = e
        href = attrs.pop("xlink:href")
        t = {n: bytes(w).decode("ascii") for n, w in attrs.items()}
        if (t["x"], t["y"], t["width"], t["height"], t["preserveAspectRatio"]) != ("0", "-1", "1", "1", "none"):
            raise Bad("place of the image")
        comma = find(href, ",")
        kind = bytes(href[:comma]).decode("ascii")
        data = decode64(x, href[comma+1:])
        if kind == "data:image/png;base64":
            im = png(x, data)
        elif kind == "data:image/jpeg;base64":
            im = dict(jpeg=data)
        else:
            raise Bad("kind of data " + kind)
        m = (1, 0, 0, 1, 0, 0)
        if "transform" in t:
            g = re.fullmatch(r"matrix\((.*)\)", t["transform"])
            m = tuple(x.num(w) for w in re.split(r"[ ,]+", g.group(1).strip()))
        im["inverse"] = False
        # y points down in SVG
        im["corner"] = lambda X, Y, m=m: (lambda q: (q[0], -q[1]))(lib.app(m, (X, -Y)))
        out.append(im)


def lib_svg(x, c):
    f = x.BytesIO()
    c.writeSVGfile(f)
    return f.getvalue()


def png(x, v):
    from pyx import bitmap
    if v[:8] != [0x89, 0x50, 0x4e, 0x47, 13, 10, 26, 10]:
        same = x.all([a == b for a, b in zip(v[:8], [0x89, 0x50, 0x4e, 0x47, 13, 10, 26, 10])])
        x.check(same, "PNG signature")
    p = 8
    chunks = []
    while p < len(v):
        n = 0
        for c in v[p:p+4]:
            n = n * 256 + c
        n = fixed(x, n)
        name = "".join(chr(fixed(x, c)) for c in v[p+4:p+8])
        body = v[p+8:p+8+n]
        crc = 0
        for c in v[p+8+n:p+12+n]:
            crc = crc * 256 + c
        x.check(crc == bitmap.zlib.crc32(tobytes(x, [fixed(x, c) for c in v[p+4:p+8]] + [c for c in body])) % 2**32, "checksum of " + name)
        chunks.append((name, body))
        p += 12 + n
    if p != len(v):
        raise Bad("length of the PNG file")
    names = [n for n, b in chunks]
    if names not in (["IHDR", "IDAT", "IEND"], ["IHDR", "PLTE", "IDAT", "IEND"]):
        raise Bad("chunks " + str(names))
    d = dict(chunks)
    h = [fixed(x, c) for c in d["IHDR"]]
    w, hh = int.from_bytes(bytes(h[:4]), "big"), int.from_bytes(bytes(h[4:8]), "big")
    if h[8] != 8 or h[10:] != [0, 0, 0] or d["IEND"]:
        raise Bad("PNG header")
    n, alpha = {0: (1, False), 2: (3, False), 3: (1, False), 4: (1, True), 6: (3, True)}[h[9]]
    raw = pdflib.values(pdflib.inflate(x, [fixed4(x, i, c) for i, c in enumerate(d["IDAT"])]))
    step = n + alpha
    if len(raw) != hh * (w * step + 1):
        raise Bad("amount of PNG data")
    data, al = [], []
    for y in range(hh):
        row = raw[y*(w*step+1):(y+1)*(w*step+1)]
        x.check(row[0] == 0, "PNG filter")
        for i in range(w):
            q = row[1+i*step:1+(i+1)*step]
            data += q[:n]
            if alpha:
                al.append(q[n])
    palette = None
    if h[9] == 3:
        q = d["PLTE"]
        if len(q) % 3:
            raise Bad("palette")
        palette = [q[i:i+3] for i in range(0, len(q), 3)]
    return dict(w=w, h=hh, n=3 if palette else n, palette=palette, data=data, alpha=al if alpha else False, interleaved=False)


def fixed(x, v):
    """value of an expression that can have one value only"""
    if isinstance(v, int):
        return v
    k = x.concretize(v)
    x.check(v == k, "header byte does not depend on the pixels")
    return k


def fixed4(x, i, c):
    return fixed(x, c) if i < 4 and x.symbolic else c


IMAGES = {"ps": ps_images, "pdf": pdf_images, "svg": svg_images}


# ---------------------------------------------------------------- checks

@harness(cases=[("85", n) for n in list(range(1, 10)) + [57, 60, 61, 63, 64, 65, 120, 124, 125]] + [("hex", n) for n in (1, 2, 3, 31, 32, 33, 64, 65)], quotients=True)
def encoders(x, case):
    """ASCII85 and ASCIIHex streams"""
    from pyx import bitmap, writer
    kind, n = case
    if n < 10:
        data = x.bytes("d", n)
    else:
        k = 3 if kind == "85" else 2
        d = [(7 * i + 13) % 256 for i in range(n)]
        s = pdflib.values(x.bytes("d", 3 * k))
        d[:k], d[n//2:n//2+k], d[-k:] = s[:k], s[k:2*k], s[2*k:]
        data = tobytes(x, d)
    f = x.BytesIO()
    w = writer.writer(f)
    (bitmap.ascii85stream if kind == "85" else bitmap.asciihexstream)(w, data)
    v = pdflib.values(f.getvalue())
    if kind == "85":
        x.check(lines(v, 0, len(v)) + 1 == bitmap.ascii85lines(n), "number of lines")
    else:
        x.check(lines(v, 0, len(v)) == bitmap.asciihexlines(n), "number of lines")
    got = decode85(x, v) if kind == "85" else decodehex(x, v)
    want = pdflib.values(data)
    x.check(len(got) == len(want), "length", (len(got), len(want)))
    for a, b in zip(got, want):
        x.check(a == b, "byte")
    run = best = 0
    for c in v:
        run = 0 if isinstance(c, int) and c == 10 else run + 1
        best = max(best, run)
    x.check(best <= 128, "length of lines")


def makeimage(x, name, mode, w, h, palette=None, concrete=False):
    from pyx import bitmap
    n = w * h * BANDS[mode]
    kw = {}
    if mode == "P":
        pm, colors = palette
        d = x.bytes(name + "p", colors * BANDS[pm])
        kw["palette"] = bitmap.palette(pm, d)
        data = x.bytes(name, n)
        pv = pdflib.values(data)
        for c in pv:
            x.assume(c < colors)
        pal = pdflib.values(d)
        pal = [pal[i:i+BANDS[pm]] for i in range(0, len(pal), BANDS[pm])]
    else:
        data = x.bytes(name, n) if not concrete else bytes(range(n))
        pal = None
    v = pdflib.values(data)
    px, al = [], []
    for i in range(0, n, BANDS[mode]):
        q = v[i:i+BANDS[mode]]
        if mode[0] == "A":
            al.append(q[0])
            q = q[1:]
        elif mode[-1] == "A":
            al.append(q[-1])
            q = q[:-1]
        px.append(q)
    return bitmap.image(w, h, mode, data, **kw), dict(w=w, h=h, px=px, al=al or None, pal=pal)


def compare(x, im, want, backend, label=""):
    if (im["w"], im["h"]) != (want["w"], want["h"]):
        return x.check(False, label + "size of the image", (im["w"], im["h"]))
    px, al = pixels(im)
    pal, wpal = im["palette"], want["pal"]
    x.check((pal is None) == (wpal is None), label + "palette")
    for a, b in zip(px, want["px"]):
        x.check(len(a) == len(b), label + "number of components")
        for u, v in zip(a, b):
            x.check(u == v, label + "pixel")
    if pal is not None:
        x.check(len(pal) == len(wpal), label + "number of colors")
        for a, b in zip(pal, wpal):
            if backend == "svg" and len(b) == 1:
                b = b * 3
            x.check(len(a) == len(b) and x.all([u == v for u, v in zip(a, b)]), label + "color of the palette")
    x.check((al is None) == (want["al"] is None), label + "alpha")
    if al is not None:
        x.check(len(al) == len(want["al"]), label + "alpha values")
        for u, v in zip(al, want["al"]):
            x.check(u == v, label + "alpha value")


def place(x, im, t, want, tol):
    """the unit square is mapped by the matrix t"""
    for u, v in (0, 0), (1, 0), (0, 1), (1, 1):
        X, Y = t[0] * u + t[2] * v + t[4], t[1] * u + t[3] * v + t[5]
        if im["inverse"]:
            a, b = im["corner"](X, Y)
            x.eq(a, u * want["w"], "image column of a corner", tol)
            x.eq(b, (1 - v) * want["h"], "image row of a corner", tol)
        else:
            a, b = im["corner"](u, v)
            x.eq(a, X, "horizontal place of a corner", tol)
            x.eq(b, Y, "vertical place of a corner", tol)


def one(x, backend, make, want, t, tol=2e-2):
    from pyx import canvas
    c = canvas.canvas()
    c.insert(make)
    try:
        ims = IMAGES[backend](x, c)
        x.check(len(ims) == 1, "one image", len(ims))
        if len(ims) != 1:
            return
        compare(x, ims[0], want, backend)
    except (Bad, pdflib.Bad) as e:
        return x.check(False, "structure: " + str(e))
    place(x, ims[0], t, want, tol)


MATRICES = {"plain": (20, 0, 0, 10, 3, 4), "skew": (10, 5, -4, 8, 7, -2), "flip": (-16, 0, 0, 8, 20, 10), "turn": (0, 12, -24, 0, 30, 40)}
CONTENT = []
for b in "ps", "pdf", "svg":
    for m in ("L", "RGB", "CMYK", "LA", "RGBA", "CMYKA", "AL", "ARGB", "ACMYK", "P:RGB", "P:L", "P:CMYK"):
        if b == "svg" and ("CMYK" in m or m.startswith("A")):
            continue
        for o in ("Flate", "none") if b != "svg" else ("Flate",):
            CONTENT.append((b, m, o, (2, 2) if len(m) < 4 else (1, 2)))
CONTENT += [("ps", "RGB", "hex", (2, 1)), ("ps", "LA", "hex", (2, 1)), ("ps", "P:RGB", "hex Flate", (2, 1)), ("ps", "RGB", "store", (2, 2)), ("ps", "RGB", "store 5", (2, 2)), ("ps", "L", "store 5", (5, 2)), ("ps", "LA", "store 5 Flate", (3, 2)),
            ("ps", "CMYK", "store Flate", (1, 1)), ("pdf", "RGB", "none", (3, 2)), ("svg", "RGB", "Flate", (3, 2)), ("ps", "RGB", "none", (3, 2)), ("pdf", "LA", "none", (2, 3))]


@harness(cases=CONTENT, quotients=True)
def content(x, case):
    """pixels, palette, alpha and place of an image"""
    from pyx import bitmap, trafo
    backend, mode, opt, (w, h) = case
    pal = None
    if mode.startswith("P:"):
        pal = mode[2:], 3
        mode = "P"
    im, want = makeimage(x, "px", mode, w, h, pal)
    kw = {"compressmode": "Flate" if "Flate" in opt else None}
    if "hex" in opt:
        kw["PSbinexpand"] = 2
    if "store" in opt:
        kw["PSstoreimage"] = 1
        m = re.search(r"\d+", opt)
        if m:
            kw["PSmaxstrlen"] = int(m.group())
    k = sorted(MATRICES)[(CONTENT.index(case)) % 4]
    t = MATRICES[k]
    X, Y = x.real("x", -100, 100), x.real("y", -100, 100)
    one(x, backend, bitmap.bitmap_trafo(trafo.trafo_pt(((t[0], t[2]), (t[1], t[3])), (X, Y)), im, **kw), want, t[:4] + (X, Y))


PLACES = ["both", "width", "height", "width ratio", "height ratio", "dpi", "units"]


@harness(cases=[(b, k, s) for b in ("pdf", "svg", "ps") for k in PLACES for s in ((3, 2), (2, 5))])
def placement(x, case):
    """size of an image from width, height, ratio and resolution"""
    from pyx import bitmap, unit
    unit.set(1, 1, 1, 1, "cm")
    backend, kind, (w, h) = case
    im, want = makeimage(x, "px", "L", w, h, concrete=True)
    # the matrix of images in PostScript is an inverse: exact fractions there
    num = (lambda n, a, b: x.real(n, a, b)) if backend != "ps" else (lambda n, a, b: x.choice(n, [8, 25, 64]))
    X, Y = x.real("x", -100, 100), x.real("y", -100, 100)
    kw = {}
    W = H = None
    if kind in ("both", "width", "width ratio", "units"):
        W = kw["width_pt"] = num("w", 1, 100)
    if kind in ("both", "height", "height ratio", "units"):
        H = kw["height_pt"] = num("h", 1, 100)
    r = x.choice("r", [0.5, 1, 2.5]) if "ratio" in kind else None
    if r is not None:
        kw["ratio"] = r
    if kind == "dpi":
        dpi = x.choice("dx", [10, 72, 300]), x.choice("dy", [10, 36, 96])
        im.info = {"dpi": dpi}
        W, H = 72 * w / dpi[0], 72 * h / dpi[1]
    if W is None:
        W = H * (r if r is not None else w / h)
    if H is None:
        H = W / (r if r is not None else w / h)
    if kind == "units":
        make = bitmap.bitmap(X * unit.t_pt, Y * unit.t_pt, im, width=W * unit.t_pt, height=H * unit.t_pt)
    else:
        make = bitmap.bitmap_pt(X, Y, im, **kw)
    bb = make.bbox()
    for a, b in zip((bb.llx_pt, bb.lly_pt, bb.urx_pt, bb.ury_pt), (X, Y, X + W, Y + H)):
        x.eq(a, b, "bounding box", 1e-3)
    one(x, backend, make, want, (W, 0, 0, H, X, Y))


SETS = {"same": [("L", 2, 1), ("L", 2, 1)], "sizes": [("L", 2, 1), ("L", 1, 2)], "modes": [("L", 3, 1), ("RGB", 1, 1)], "palettes": [("P:RGB", 1, 2), ("P:RGB", 1, 2)], "alphas": [("LA", 1, 2), ("LA", 1, 2)],
        "plain and palette": [("L", 2, 1), ("P:RGB", 2, 1)], "alpha or not": [("RGB", 1, 1), ("RGBA", 1, 1), ("L", 3, 1)], "palette kinds": [("P:L", 2, 1), ("P:RGB", 2, 1)], "alpha front": [("LA", 1, 1), ("AL", 1, 1)]}


@harness(cases=[(b, s, o) for b in ("ps", "pdf", "svg") for s in SETS for o in (("Flate", "none", "store") if b == "ps" else ("Flate", "none") if b == "pdf" else ("Flate",)) if s != "alpha front" or b == "pdf" or b == "ps" and o != "Flate"], weight=2, quotients=True)
def several(x, case):
    """several images in one file, whatever their data have in common"""
    from pyx import bitmap, trafo, canvas
    backend, kind, opt = case
    c = canvas.canvas()
    wants = []
    for i, (mode, w, h) in enumerate(SETS[kind]):
        pal = None
        if mode.startswith("P:"):
            pal = mode[2:], 2
            mode = "P"
        im, want = makeimage(x, "px%d" % i, mode, w, h, pal)
        wants.append(want)
        c.insert(bitmap.bitmap_trafo(trafo.trafo_pt(((w, 0), (0, h)), (10 * i, 0)), im, compressmode="Flate" if opt == "Flate" else None, PSstoreimage=opt == "store"))
    try:
        ims = IMAGES[backend](x, c)
        x.check(len(ims) == len(wants), "number of images")
        for im, want in zip(ims, wants):
            compare(x, im, want, backend)
    except (Bad, pdflib.Bad) as e:
        return x.check(False, "structure: " + str(e))
    for i, (im, want) in enumerate(zip(ims, wants)):
        place(x, im, (want["w"], 0, 0, want["h"], 10 * i, 0), want, 1e-3)


@harness(cases=[(b, k) for b in ("ps", "pdf", "svg") for k in ("L", "RGB", "CMYK")] + [("parse", k) for k in ("thumbnail", "dpi", "dpcm", "aspect", "progressive", "stuffed", "leading")], quotients=True)
def jpeg(x, case):
    """JPEG files are embedded as they are, with the size they have"""
    from pyx import bitmap, canvas, trafo
    backend, kind = case
    width, height = x.int("w", 1, 65535), x.int("h", 1, 65535)
    b = lambda n: [n // 256, n % 256]
    comps = {"L": 1, "CMYK": 4}.get(kind, 3)
    dpi = x.int("dx", 1, 1200), x.int("dy", 1, 1200)
    dpikind = {"dpi": 1, "dpcm": 2, "aspect": 0}.get(kind, 1)
    jfif = lambda k, d: [0xff, 0xe0] + b(16) + list(b"JFIF\0") + [1, 2, k] + b(d[0]) + b(d[1]) + [0, 0]
    sof = lambda w, h, n: [0xff, 0xc2 if kind == "progressive" else 0xc0] + b(8 + 3 * n) + [8] + b(h) + b(w) + [n] + [1, 0x11, 0] * n
    scan = [0xff, 0xda] + b(8) + [1, 1, 0, 0, 63, 0] + [5, 6, 7]
    d = [0xff, 0xd8] + jfif(dpikind, dpi)
    if kind == "thumbnail":
        # an Exif segment with a small JPEG file in it
        small = [0xff, 0xd8] + sof(9, 8, 1) + scan + [0xff, 0xd9]
        d += [0xff, 0xe1] + b(2 + len(small)) + small
    d += sof(width, height, comps)
    if kind == "stuffed":
        scan = scan + [0xff, 0, 8, 0xff, 0xff, 0, 0xff, 0]
    d += scan + [0xff, 0xd9]
    data = tobytes(x, d)
    tail = tobytes(x, [1, 2, 0xff, 0xd8])
    head = tobytes(x, [1, 2, 0, 4] if kind == "leading" else [])
    im = bitmap.jpegimage(x.BytesIO(head + data + tail))
    x.check(im.size[0] == width, "width")
    x.check(im.size[1] == height, "height")
    x.check(im.mode == {1: "L", 3: "RGB", 4: "CMYK"}[comps], "mode")
    x.check(pdflib.values(im.data) == pdflib.values(data) if not x.symbolic else len(im.data) == len(data) and x.all([p == q for p, q in zip(pdflib.values(im.data), pdflib.values(data))]), "data")
    info = getattr(im, "info", {}).get("dpi")
    x.check((info is None) == (kind == "aspect"), "resolution")
    if info is not None:
        for p, q in zip(info, dpi):
            x.eq(p, q * (2.54 if kind == "dpcm" else 1), "resolution", 1e-6)
    if backend == "parse":
        return
    x.assume(width <= 500)
    x.assume(height <= 500)
    c = canvas.canvas()
    c.insert(bitmap.bitmap_trafo(trafo.trafo_pt(((30, 0), (0, 20)), (1, 2)), im, compressmode=None))
    if backend == "pdf":
        f = x.BytesIO()
        c.writePDFfile(f, write_compress=False)
        got = pdflib.values(f.getvalue())
    elif backend == "ps":
        f = x.BytesIO()
        c.writeEPSfile(f)
        got = pdflib.values(f.getvalue())
        a = find(got, "image\n") + 6
        s = bytes(got[:a]).decode("ascii")
        x.check("currentfile /ASCII85Decode filter /DCTDecode filter" in s, "filters")
        x.check(("%s setcolorspace" % {1: "/DeviceGray", 3: "/DeviceRGB", 4: "/DeviceCMYK"}[comps]) in s, "color space")
        x.check(x.num(re.search(r"/Width (\S+)", s).group(1)) == width, "width in the file")
        x.check(x.num(re.search(r"/Height (\S+)", s).group(1)) == height, "height in the file")
        dec = decode85(x, got[a:find(got, "~>", a)])
        x.check(len(dec) == len(data), "length of the data")
        x.check(x.all([p == q for p, q in zip(dec, d)]), "data in the file")
        return
    else:
        im, = svg_images(x, c)
        dec = im["jpeg"]
        x.check(len(dec) == len(data), "length of the data")
        x.check(x.all([p == q for p, q in zip(dec, d)]), "data in the file")
        return
    s = find(got, "/Subtype /Image")
    e = find(got, "stream\n", s)
    t = bytes(got[s:e]).decode("ascii")
    x.check("/Filter /DCTDecode" in t, "filter")
    x.check(("/ColorSpace /%s" % {1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[comps]) in t, "color space")
    x.check(x.num(re.search(r"/Width (\S+)", t).group(1)) == width, "width in the file")
    x.check(x.num(re.search(r"/Height (\S+)", t).group(1)) == height, "height in the file")
    dec = got[e+7:e+7+len(d)]
    x.check(x.all([p == q for p, q in zip(dec, d)]), "data in the file")
    x.check(x.num(re.search(r"/Length (\S+)", t).group(1)) == len(d), "length in the file")
