"""A PDF reader written from the PDF reference, working on bytes which may be symbolic."""
import re
import zlib


class Bad(Exception):
    pass


class Name(str):
    pass


class Ref(int):
    pass


class Num(str):
    """a number, as it is written"""


class Op(str):
    pass


class Stream:
    def __init__(self, d, data, hint):
        self.d, self.data, self.hint = d, data, hint


WS = (0, 9, 10, 12, 13, 32)
DELIM = tuple(b"()<>[]{}/%")


class Reader:
    """data: list of byte values (int or symbolic int); tokens: symbolic bytes may occur in strings and in stream data only"""

    def __init__(self, data, pos=0, end=None):
        self.b = data
        self.p = pos
        self.end = len(data) if end is None else end

    def c(self, k=0):
        return self.b[self.p + k] if self.p + k < self.end else -1

    def concrete(self, v):
        if not isinstance(v, int):
            raise Bad("arbitrary byte outside of strings and streams")
        return v

    def skip(self):
        while self.p < self.end:
            v = self.b[self.p]
            if isinstance(v, int) and v in WS:
                self.p += 1
            elif isinstance(v, int) and v == 37:
                while self.p < self.end and self.b[self.p] not in (10, 13):
                    self.p += 1
            else:
                return

    def regular(self):
        s = self.p
        while self.p < self.end:
            v = self.concrete(self.b[self.p])
            if v in WS or v in DELIM:
                break
            self.p += 1
        return bytes(self.b[s:self.p]).decode("latin-1")

    def string(self):
        """literal string, as list of bytes"""
        out = []
        depth = 0
        while True:
            if self.p >= self.end:
                raise Bad("string is not terminated")
            v = self.b[self.p]
            self.p += 1
            if v == 0x5c:
                v = self.b[self.p]
                self.p += 1
                if v == 10:
                    continue
                for k, r in ((0x6e, 10), (0x72, 13), (0x74, 9), (0x62, 8), (0x66, 12)):
                    if v == k:
                        out.append(r)
                        break
                else:
                    if v >= 48 and v <= 55:
                        n = v - 48
                        for _ in range(2):
                            d = self.b[self.p]
                            if d >= 48 and d <= 55:
                                n = n * 8 + (d - 48)
                                self.p += 1
                            else:
                                break
                        if n > 255:
                            raise Bad("octal code is too large")
                        out.append(n)
                    else:
                        out.append(v)
            elif v == 0x28:
                depth += 1
                out.append(v)
            elif v == 0x29:
                if depth == 0:
                    return out
                depth -= 1
                out.append(v)
            elif v == 13:
                # an end of line is read as line feed
                if self.c() == 10:
                    self.p += 1
                out.append(10)
            else:
                out.append(v)

    def obj(self, refs=True):
        self.skip()
        v = self.concrete(self.c())
        if v == -1:
            return None
        ch = chr(v)
        if ch == "/":
            self.p += 1
            return Name(self.regular())
        if ch == "(":
            self.p += 1
            return self.string()
        if ch == "<":
            if self.c(1) == 60:
                self.p += 2
                d = {}
                while True:
                    self.skip()
                    if self.c() == 62 and self.c(1) == 62:
                        self.p += 2
                        return d
                    k = self.obj()
                    if not isinstance(k, Name):
                        raise Bad("dictionary key %r" % (k,))
                    if k in d:
                        raise Bad("key %s is given twice" % k)
                    val = self.obj()
                    if isinstance(val, Op) and val not in ("true", "false", "null"):
                        raise Bad("value %s of %s in a dictionary" % (val, k))
                    d[k] = val
            s = self.p + 1
            while self.c() != 62:
                self.p += 1
                if self.p >= self.end:
                    raise Bad("hex string is not terminated")
            h = [i for i in self.b[s:self.p] if i not in WS]
            self.p += 1
            out = []
            if len(h) % 2:
                h.append(48)
            for i in range(0, len(h), 2):
                out.append(hexval(h[i]) * 16 + hexval(h[i+1]))
            return out
        if ch == "[":
            self.p += 1
            a = []
            while True:
                self.skip()
                if self.c() == 93:
                    self.p += 1
                    return a
                val = self.obj(refs)
                if isinstance(val, Op) and val not in ("true", "false", "null"):
                    raise Bad("%s in an array" % val)
                a.append(val)
        if ch in ")>]{}":
            raise Bad("unexpected " + ch)
        t = self.regular()
        if re.match(r"^[0-9]+$", t) and refs:
            m = self.p
            try:
                self.skip()
                g = self.regular() if self.c() not in (-1,) and isinstance(self.c(), int) and 48 <= self.c() <= 57 else ""
                self.skip()
                if g == "0" and self.c() == 82 and (self.c(1) in WS or self.c(1) in DELIM or self.c(1) == -1):
                    self.p += 1
                    return Ref(int(t))
            except Bad:
                pass
            self.p = m
        if isnumber(t):
            return Num(t)
        return Op(t)


ISNUM = [None]


def isnumber(t):
    return bool(re.match(r"^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)$", t)) or (ISNUM[0] is not None and ISNUM[0](t))


def hexval(v):
    if v >= 48 and v <= 57:
        return v - 48
    if v >= 97 and v <= 102:
        return v - 87
    if v >= 65 and v <= 70:
        return v - 55
    raise Bad("hex digit")


def values(b):
    """list of byte values of bytes or symbolic bytes"""
    return list(b.v) if hasattr(b, "v") else list(b)


def text(vals):
    """text of bytes, symbolic ones shown as U+FFFF"""
    return "".join(chr(v) if isinstance(v, int) else "\uffff" for v in vals)


def inflate(x, vals):
    if vals[:4] == list(b"ZSYM"):
        return vals[4:]
    return list(zlib.decompress(bytes(vals)))


class File:
    """a complete PDF file; raises Bad if the structure is wrong"""

    def __init__(self, x, data):
        # numbers of the symbolic engine are written as tokens
        ISNUM[0] = x.isnum
        v = values(data)
        self.v = v
        t = text(v)
        if not re.match(r"%PDF-1\.\d\n", t):
            raise Bad("no PDF header")
        m = re.search(r"startxref\n(\d+)\n%%EOF\n\Z", t)
        if not m:
            raise Bad("no startxref at the end")
        start = int(m.group(1))
        if not t.startswith("xref\n", start):
            raise Bad("startxref does not point to the cross-reference table")
        h = re.compile(r"xref\n0 (\d+)\n").match(t, start)
        if not h:
            raise Bad("cross-reference section header")
        self.size = int(h.group(1))
        p = h.end()
        offs = []
        for i in range(self.size):
            e = t[p:p+20]
            if not re.match(r"^\d{10} \d{5} [nf] \n$", e):
                raise Bad("cross-reference entry %r" % e)
            if i == 0:
                if e != "0000000000 65535 f \n":
                    raise Bad("first entry of the cross-reference table")
            else:
                if e[17] != "n" or e[11:16] != "00000":
                    raise Bad("cross-reference entry %r" % e)
                offs.append(int(e[:10]))
            p += 20
        if not t.startswith("trailer\n", p):
            raise Bad("no trailer after the cross-reference table")
        r = Reader(v, p + 8)
        self.trailer = r.obj()
        r.skip()
        if not t.startswith("startxref", r.p):
            raise Bad("startxref does not follow the trailer")
        if int(self.trailer["Size"]) != self.size:
            raise Bad("Size in the trailer")
        self.objs = {}
        # offsets in increasing order; every object ends where the next one starts
        order = sorted(offs)
        if len(set(order)) != len(order):
            raise Bad("two objects at the same offset")
        ends = dict(zip(order, order[1:] + [start]))
        # objects holding no stream are read first (a Length might be a reference)
        for k, o in enumerate(offs, 1):
            hd = "%d 0 obj\n" % k
            if not t.startswith(hd, o):
                raise Bad("cross-reference entry of object %d does not point to it" % k)
            r = Reader(v, o + len(hd), ends[o])
            val = r.obj()
            r.skip()
            if t.startswith("stream", r.p):
                if not isinstance(val, dict):
                    raise Bad("stream without dictionary")
                q = r.p + 6
                if t.startswith("\r\n", q):
                    q += 2
                elif t.startswith("\n", q):
                    q += 1
                else:
                    raise Bad("end of line after stream")
                if isinstance(val.get("Length"), Ref) or not re.match(r"^\d+$", val.get("Length", "")):
                    raise Bad("stream Length")
                n = int(val["Length"])
                w = q + n
                # an end of line might be in between
                m = re.compile(r"(\r\n|\n|\r)?endstream\s+endobj\n").match(t, w)
                if not m or m.end() != ends[o]:
                    raise Bad("Length of the stream of object %d is wrong" % k)
                body = v[q:w]
                f = val.get("Filter")
                if f == "FlateDecode":
                    body = inflate(x, body)
                val = Stream(val, body, f)
            else:
                m = re.compile(r"\s*endobj\n").match(t, r.p)
                if not m or m.end() != ends[o]:
                    raise Bad("object %d: garbage before the end" % k)
            self.objs[k] = val
        if order and not re.match(r"\A%PDF-1\.\d\n(%[^\n]*\n)?\Z", t[:order[0]]):
            raise Bad("garbage before the first object")

    def get(self, o):
        while isinstance(o, Ref):
            if o not in self.objs:
                raise Bad("reference to the missing object %d" % o)
            o = self.objs[o]
        return o

    def refs(self, o):
        if isinstance(o, Ref):
            yield o
        elif isinstance(o, Stream):
            yield from self.refs(o.d)
        elif isinstance(o, dict):
            for i in o.values():
                yield from self.refs(i)
        elif isinstance(o, list):
            for i in o:
                if not isinstance(i, str) and not hasattr(i, "e"):
                    yield from self.refs(i)

    def check(self):
        """structural rules of the whole file; returns the pages"""
        for k, o in self.objs.items():
            for r in self.refs(o):
                self.get(r)
        for r in self.refs(self.trailer):
            self.get(r)
        root = self.get(self.trailer["Root"])
        if root.get("Type") != "Catalog":
            raise Bad("the root is no catalog")
        if not isinstance(self.get(self.trailer["Info"]), dict):
            raise Bad("info")
        pages = self.get(root["Pages"])
        if pages.get("Type") != "Pages" or int(pages["Count"]) != len(pages["Kids"]):
            raise Bad("page tree")
        if [k for k, o in self.objs.items() if isinstance(o, dict) and o.get("Type") == "Page"] != sorted(pages["Kids"]):
            raise Bad("the pages are not the kids of the page tree")
        out = []
        for k in pages["Kids"]:
            p = self.get(k)
            if p["Parent"] != root["Pages"] or not isinstance(p["Parent"], Ref):
                raise Bad("parent of the page")
            if len(p["MediaBox"]) != 4:
                raise Bad("media box")
            c = self.get(p["Contents"])
            if not isinstance(c, Stream):
                raise Bad("contents")
            self.content(c.data, self.get(p["Resources"]))
            out.append((p, c))
        for k, o in self.objs.items():
            if isinstance(o, Stream):
                if o.d.get("Subtype") == "Form" or o.d.get("Type") == "Pattern":
                    self.content(o.data, self.get(o.d["Resources"]))
                    if len(self.get(o.d["BBox"])) != 4:
                        raise Bad("box")
                elif o.d.get("Subtype") == "Image":
                    self.image(o)
            elif isinstance(o, dict) and o.get("Type") == "Font":
                self.font(o)
        return out

    def image(self, o):
        w, h, bits = int(o.d["Width"]), int(o.d["Height"]), int(o.d["BitsPerComponent"])
        cs = self.get(o.d["ColorSpace"])
        if isinstance(cs, list):
            n = 1
            if cs[0] != "Indexed":
                raise Bad("color space")
            base = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[self.get(cs[1])]
            pal = self.get(cs[3])
            pal = pal.data if isinstance(pal, Stream) else pal
            if len(pal) < base * (int(cs[2]) + 1):
                raise Bad("palette")
        else:
            n = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[cs]
        if o.hint in (None, "FlateDecode") and len(o.data) != (w * n * bits + 7) // 8 * h:
            raise Bad("image data of length %d" % len(o.data))

    def font(self, o):
        if o["Subtype"] != "Type1" or not isinstance(o.get("BaseFont"), Name):
            raise Bad("font")
        if "FontDescriptor" not in o:
            if o["BaseFont"] not in STANDARD:
                raise Bad("font without descriptor")
            return
        w = self.get(o["Widths"])
        if len(w) != int(o["LastChar"]) - int(o["FirstChar"]) + 1:
            raise Bad("font widths")
        d = self.get(o["FontDescriptor"])
        if d["Type"] != "FontDescriptor" or d["FontName"] != o["BaseFont"]:
            raise Bad("font descriptor")
        for k in ("Flags", "FontBBox", "ItalicAngle", "Ascent", "Descent", "CapHeight", "StemV"):
            if k not in d:
                raise Bad("font descriptor has no " + k)
        f = self.get(d["FontFile"])
        ln = [int(f.d["Length%d" % i]) for i in (1, 2, 3)]
        if sum(ln) != len(f.data):
            raise Bad("font file lengths")
        if bytes(f.data[:2]) != b"%!" or b"eexec" not in bytes(f.data[ln[0]-12:ln[0]]):
            raise Bad("font file")

    def content(self, data, res):
        """operators of a content stream: known, right number of operands, balanced, with the resources they use"""
        out = []
        r = Reader(data)
        stack = []
        depth = 0
        bt = False
        while True:
            r.skip()
            if r.p >= r.end:
                break
            o = r.obj(refs=False)
            if not isinstance(o, Op):
                stack.append(o)
                continue
            if o not in OPS:
                raise Bad("unknown operator %s" % o)
            n, kind = OPS[o]
            if n is not None and len(stack) != n:
                raise Bad("%d operands of %s" % (len(stack), o))
            if kind == "n" and not all(isinstance(i, Num) for i in stack):
                raise Bad("operands of %s" % o)
            if o == "q":
                depth += 1
            elif o == "Q":
                depth -= 1
                if depth < 0:
                    raise Bad("unbalanced Q")
            elif o == "BT":
                if bt:
                    raise Bad("nested BT")
                bt = True
            elif o == "ET":
                if not bt:
                    raise Bad("ET without BT")
                bt = False
            elif o in TEXTOPS and not bt:
                raise Bad("%s outside of a text object" % o)
            elif o in PATHOPS and bt:
                raise Bad("%s inside of a text object" % o)
            rt = {"Do": "XObject", "gs": "ExtGState", "Tf": "Font", "sh": "Shading"}.get(o)
            if o in ("scn", "SCN") and isinstance(stack[-1], Name):
                rt = "Pattern"
            if rt:
                nm = stack[0] if o == "Tf" else stack[-1]
                d = self.get(res.get(rt, {}))
                if nm not in d:
                    raise Bad("resource %s /%s is missing" % (rt, nm))
                t = self.get(d[nm])
                td = t.d if isinstance(t, Stream) else t
                if rt == "Font" and td.get("Type") != "Font" or rt == "Pattern" and "PatternType" not in td or rt == "Shading" and "ShadingType" not in td \
                   or rt == "XObject" and td.get("Subtype") not in ("Image", "Form"):
                    raise Bad("resource /%s is not of type %s" % (nm, rt))
            if o in ("cs", "CS") and stack[0] not in ("Pattern", "DeviceGray", "DeviceRGB", "DeviceCMYK") and stack[0] not in self.get(res.get("ColorSpace", {})):
                raise Bad("color space %s" % stack[0])
            out.append((o, stack))
            stack = []
        if stack:
            raise Bad("operands without operator")
        if depth:
            raise Bad("unbalanced q")
        if bt:
            raise Bad("text object is not ended")
        return out


STANDARD = ("Times-Roman Times-Bold Times-Italic Times-BoldItalic Helvetica Helvetica-Bold Helvetica-Oblique Helvetica-BoldOblique "
            "Courier Courier-Bold Courier-Oblique Courier-BoldOblique Symbol ZapfDingbats").split()
PATHOPS = ("m l c v y h re S s f F f* B B* b b* n W W* cm q Q Do sh").split()
TEXTOPS = ("Tj TJ ' \" Td TD Tm T*").split()
OPS = {}
for _o in "m:2 l:2 c:6 v:4 y:4 re:4 cm:6 w:1 J:1 j:1 M:1 i:1 g:1 G:1 rg:3 RG:3 k:4 K:4 Td:2 TD:2 Tm:6 Tc:1 Tw:1 Tz:1 TL:1 Tr:1 Ts:1".split():
    OPS[_o.split(":")[0]] = (int(_o.split(":")[1]), "n")
for _o in "h:0 S:0 s:0 f:0 F:0 f*:0 B:0 B*:0 b:0 b*:0 n:0 W:0 W*:0 q:0 Q:0 BT:0 ET:0 T*:0 EMC:0 d:2 gs:1 cs:1 CS:1 ri:1 sh:1 Do:1 Tf:2 Tj:1 TJ:1 ':1 \":3 BMC:1 BDC:2".split():
    OPS[_o.split(":")[0]] = (int(_o.split(":")[1]), None)
for _o in "sc SC scn SCN".split():
    OPS[_o] = (None, None)
