"""Colors: conversions between the color spaces, hexadecimal notation, ranges, operators in the files, gradients."""
from pysym.api import harness
import lib

BOUNDS = ("arbitrary color components in [0, 1] (and outside of it for the range checks), arbitrary hexadecimal digits and bytes, arbitrary gradient parameters, palettes of up to 5 colors; gradients with "
          "non-polynomial components are decided for their endpoints and, where polynomial, for all parameters")
ASSUMPTIONS = ["the conversion formulas of the PostScript language reference (section 7.2) are the intended ones; colorsys of the standard library is executed symbolically as well"]

SPACES = {"gray": "g", "rgb": "rgb", "hsb": "hsb", "cmyk": "cmyk"}


def make(x, space, n=""):
    from pyx import color
    return getattr(color, space)(*[x.real(k + n, 0, 1) for k in SPACES[space]])


def comps(c):
    from pyx import color
    for space, names in SPACES.items():
        if type(c) is getattr(color, space):
            return space, [getattr(c, k) for k in names]
    return None, None


def hsb2rgb(x, h, s, b):
    """the hexcone: red is full for hues within 1/6 of 0 and 1, falls to nothing within the next sixth"""
    def level(d):   # d: distance of the hue on the circle, in sixths
        return x.min(1, x.max(0, 2 - d))
    def dist(centre):
        d = abs(6*h - centre)
        return x.min(d, 6 - d)
    return [b*(1 - s*(1 - level(dist(k)))) for k in (0, 2, 4)]


def tospace(x, space, v, to):
    if to == space:
        return v
    if space == "hsb":
        return tospace(x, "rgb", hsb2rgb(x, *v), to)
    if space == "gray":
        g, = v
        return {"rgb": [g, g, g], "cmyk": [0, 0, 0, 1 - g], "hsb": [0, 0, g]}[to]
    if space == "rgb":
        r, g, b = v
        if to == "gray":
            return [0.3*r + 0.59*g + 0.11*b]
        k = x.min(1 - r, 1 - g, 1 - b)
        return [1 - r - k, 1 - g - k, 1 - b - k, k]
    c, m, y, k = v
    if to == "gray":
        return [1 - x.min(1, 0.3*c + 0.59*m + 0.11*y + k)]
    return [1 - x.min(1, c + k), 1 - x.min(1, m + k), 1 - x.min(1, y + k)]


@harness(cases=[(a, b) for a in SPACES for b in SPACES if b != "hsb"] + [("gray", "grey"), ("rgb", "grey"), ("hsb", "grey"), ("cmyk", "grey")], eager=True, timeout_ms=20000)
def conversion(x, case):
    """to gray, rgb and cmyk, as the conversions built into PostScript"""
    space, to = case
    c = make(x, space)
    v = comps(c)[1]
    d = getattr(c, to)()
    to = to.replace("grey", "gray")
    s, w = comps(d)
    x.check(s == to, "color space after conversion")
    for n, p, q in zip(SPACES[to], w, tospace(x, space, v, to)):
        x.eq(p, q, "component " + n, tol=1e-6)
    for p, q in zip(comps(c)[1], v):
        x.eq(p, q, "the color itself is left alone", tol=0)


@harness(cases=["gray", "rgb", "hsb", "cmyk", "grays as rgb", "primary"], eager=True, timeout_ms=20000)
def tohsb(x, case):
    """the hsb color has the same red, green and blue"""
    from pyx import color
    if case == "grays as rgb":
        g = x.real("g", 0, 1)
        c = color.rgb(g, g, g)
    elif case == "primary":
        b = x.real("b", 0.01, 1)
        c = color.rgb(*x.choice("which", [(b, 0, 0), (b, b, 0), (0, b, 0), (0, b, b), (0, 0, b), (b, 0, b)]))
    elif case == "cmyk":
        c = color.cmyk(x.real("c", 0, 1), 0, x.real("y", 0, 1), x.choice("k", [0, 0.25]))
    else:
        c = make(x, case)
    s, v = comps(c.hsb())
    x.check(s == "hsb", "color space after conversion")
    for p in v:
        x.check(x.all([p >= -1e-9, p <= 1 + 1e-9]), "component in range")
    if case == "hsb":
        for p, q in zip(v, comps(c)[1]):
            x.eq(p, q, "hsb component", tol=0)
        return
    rgb = comps(c.rgb())[1]
    if case == "primary":
        x.eq(v[1], 1, "saturation of a pure color")
        x.eq(v[2], b, "brightness of a pure color")
        k = [i for i, a in enumerate([(1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1), (1, 0, 1)]) if all((f is b) == bool(j) for f, j in zip((c.r, c.g, c.b), a))]
        x.eq(v[0], k[0]/6, "hue of a pure color")
    # saturation, brightness and hue by their definitions, without products of unknowns where the code has quotients
    hi, lo = x.max(*rgb), x.min(*rgb)
    x.eq(v[2], hi, "brightness")
    x.eq(v[1]*hi, hi - lo, "saturation")
    for p, q in zip(tospace(x, "hsb", v, "rgb"), rgb):
        x.eq(p, q, "red, green, blue of the hsb color", tol=1e-6)


@harness(cases=[(a, b) for a in ("gray", "rgb", "cmyk", "hsb") for b in ("rgb", "cmyk", "gray")], eager=True)
def roundtrip(x, case):
    """conversions never lose a color which the other space can express"""
    from pyx import color
    space, via = case
    if via == "gray":
        g = x.real("g", 0, 1)
        c = {"gray": lambda: color.gray(g), "rgb": lambda: color.rgb(g, g, g), "cmyk": lambda: color.cmyk(0, 0, 0, g), "hsb": lambda: color.hsb(0, 0, g)}[space]()
    elif space == "cmyk":
        c = color.cmyk(x.real("c", 0, 1), x.real("m", 0, 1), 0, x.choice("k", [0, 0.3]))
    elif space == "hsb":
        c = color.hsb(x.choice("h", [0, 0.1, 1/3, 0.45, 0.5, 0.7, 0.9, 1]), x.choice("s", [0, 0.5, 1]), x.real("b", 0, 1))
    else:
        c = make(x, space)
    d = getattr(c, via)()
    back = d.rgb()
    for n, p, q in zip("rgb", comps(back)[1], comps(c.rgb())[1]):
        x.eq(p, q, "after conversion and back: " + n, tol=1e-6)


@harness(cases=[1, 2, 3])
def blackgeneration(x, case):
    """functions for the under color removal and black generation given by the user; others keep their value"""
    from pyx import color
    a, b = x.real("a", 0, 1), x.real("b", 0, 1)
    saved = color._UCRc, color._UCRm, color._UCRy, color._BG
    try:
        c = make(x, "rgb")
        r, g, bl = comps(c)[1]
        k = x.min(1 - r, 1 - g, 1 - bl)
        clip = lambda v: x.min(1, x.max(0, v))
        if case == 1:
            color.set(UCRc=lambda k: a*k, UCRm=lambda k: 0*k, UCRy=lambda k: -k, BG=lambda k: b*k)
            e = [clip(1 - r - a*k), clip(1 - g), clip(1 - bl + k), b*k]
        elif case == 2:
            color.set(UCRm=lambda k: a*k)
            e = [1 - r - k, clip(1 - g - a*k), 1 - bl - k, k]
        else:
            color.set(BG=lambda k: a*k)
            color.set(UCRy=lambda k: b*k)
            color.set(UCRc=lambda k: 2*k)
            e = [clip(1 - r - 2*k), 1 - g - k, clip(1 - bl - b*k), a*k]
        for n, p, q in zip("cmyk", comps(c.cmyk())[1], e):
            x.eq(p, q, "component " + n)
        for n, p, q in zip("cmyk", comps(color.gray(a).cmyk())[1], [0, 0, 0, 1 - a]):
            x.eq(p, q, "gray: component " + n)
    finally:
        color.set(*saved)


@harness(cases=list(SPACES))
def ranges(x, case):
    """a color is refused just when a component is outside of [0, 1]"""
    from pyx import color
    v = [x.real(k, -3, 3) for k in SPACES[case]]
    try:
        c = getattr(color, case)(*v)
    except ValueError:
        x.check(x.any([p < 0 for p in v] + [p > 1 for p in v]), "a valid color is accepted")
        return
    x.check(x.all([x.all([p >= 0, p <= 1]) for p in v]), "a component out of range is refused")
    for k, p in zip(SPACES[case], v):
        x.eq(getattr(c, k), p, "component " + k, tol=0)


@harness(cases=[(n, p) for n in (3, 6) for p in ("", "#", "  #")], eager=True)
def fromhex(x, case):
    """rgbfromhexstring: every digit counts, upper and lower case"""
    from pyx import color
    n, prefix = case
    digits = []
    s = prefix
    upper = x.bool("upper")
    for i in range(n):
        letter = x.bool("letter%d" % i) if n == 3 or i in (0, 5) else i % 2
        d = x.int("d%d" % i, 10, 15) if letter else x.int("d%d" % i, 0, 9)
        digits.append(d)
        s = s + lib_chr(x, d + ((55 if upper else 87) if letter else 48))
    if prefix.startswith(" "):
        s = s + " \n"
    c = color.rgbfromhexstring(s)
    e = [17*d for d in digits] if n == 3 else [16*digits[i] + digits[i+1] for i in (0, 2, 4)]
    for k, p, q in zip("rgb", comps(c)[1], e):
        x.eq(p*255, q, "component " + k, tol=1e-6)


def lib_chr(x, code):
    if not x.symbolic:
        return chr(code)
    from pysym.values import SymStr
    return SymStr([code])


@harness(cases=["", "1", "12", "1234", "12345", "1234567", "#", "##12", "1 2345"])
def badhex(x, case):
    from pyx import color
    try:
        color.rgbfromhexstring(case)
    except ValueError:
        x.check(True, "refused")
    else:
        x.check(False, "a hexadecimal number of the wrong length is refused")


def hexval(x, ch):
    v = ord(ch) if isinstance(ch, str) and not x.symbolic else ch
    if x.symbolic:
        from pysym.loader import BUILTINS
        v = BUILTINS["ord"](ch)
    x.check(x.any([x.all([v >= 48, v <= 57]), x.all([v >= 97, v <= 102])]), "a hexadecimal digit")
    return x.ite(v <= 57, v - 48, v - 87)


@harness(cases=[(s, h) for s in (True, False) for h in (True, False)] + ["default"], timeout_ms=20000)
def tohex(x, case):
    """tohexstring: the color within one unit of the 255 steps; the short notation just for repeated digits; round trip"""
    from pyx import color
    v = [x.int("r", 0, 255), x.int("g", 0, 255), x.int("b", 0, 255)]
    off = x.real("off", 0, 0.999)
    c = color.rgb(*[x.min(1, (p + off)/255) for p in v])
    if case == "default":
        s, strip, addhash = c.tohexstring(), True, True
    else:
        strip, addhash = case
        s = c.tohexstring(cssstrip=strip, addhash=addhash)
    if addhash:
        x.check(s[0] == "#", "hash character")
        s = s[1:]
    x.check(len(s) in (3, 6), "number of digits")
    h = [hexval(x, s[i]) for i in range(len(s))]
    e = [17*d for d in h] if len(s) == 3 else [16*h[i] + h[i+1] for i in (0, 2, 4)]
    for k, p, q in zip("rgb", e, [c.r, c.g, c.b]):
        x.le(abs(p - q*255), 1, "component " + k, tol=1e-6)
    double = [x.all([p - (p//16)*17 == 0]) for p in e]
    x.check(strip or len(s) == 6, "no short notation unless asked for")
    if strip:
        if len(s) == 6:
            x.check(x.not_(x.all(double)), "short notation whenever possible")


@harness(cases=["rgb", "gray", "cmyk"])
def bytes8(x, case):
    """to8bitbytes: one byte per component, within one unit"""
    c = make(x, case)
    data = c.to8bitbytes()
    v = comps(c)[1]
    x.check(len(data) == len(v), "one byte per component")
    for i, p in enumerate(v):
        x.le(abs(data[i] - 255*p), 1, "byte %d" % i, tol=1e-6)
    cs = {"rgb": "/DeviceRGB", "gray": "/DeviceGray", "cmyk": "/DeviceCMYK"}
    x.check(c.colorspacestring() == cs[case], "name of the color space")


@harness(cases=[(s, d) for s in SPACES for d in ("stroke", "fill", "both")])
def output(x, case):
    """the color of strokes and fills in PostScript and PDF (hsb: red, green and blue in PDF)"""
    from pyx import canvas, path, color, deco, style
    space, how = case
    if space == "hsb":
        c = color.hsb(x.choice("h", [0, 0.1, 1/3, 0.45, 0.5, 0.7, 0.9, 1]), x.choice("s", [0, 0.5, 1]), x.real("b", 0, 1))
    else:
        c = make(x, space)
    d = canvas.canvas()
    p = path.rect_pt(0, 0, 10, 10)
    if how == "stroke":
        d.stroke(p, [c])
    elif how == "fill":
        d.fill(p, [c])
    else:
        d.draw(p, [deco.stroked([c]), deco.filled([c])])
    want = {"stroke": 1, "fill": 1, "both": 2}[how]
    v = comps(c)[1]
    for fmt in ("ps", "pdf"):
        ops = lib.render(x, d, fmt)
        got = [o for o in ops if o.op in ("stroke", "fill")]
        x.check(len(got) == want, fmt + ": number of strokes and fills")
        for o in got:
            s, w = o.s.stroke if o.op == "stroke" else o.s.fill
            if space == "hsb":
                if s == "hsb":
                    s, w = "rgb", hsb2rgb(x, *w)
                ref = hsb2rgb(x, *v)
                x.check(s == "rgb", fmt + ": color space")
            else:
                ref = v
                x.check(s == space, fmt + ": color space")
            for a, b in zip(w, ref):
                x.eq(a, b, fmt + ": component", tol=1e-5)


GRADIENTS = ["Gray", "Grey", "ReverseGray", "ReverseGrey", "BlackYellow", "YellowBlack", "RedGreen", "RedBlue", "GreenRed", "GreenBlue", "BlueRed", "BlueGreen", "RedBlack", "BlackRed",
             "RedWhite", "WhiteRed", "GreenBlack", "BlackGreen", "GreenWhite", "WhiteGreen", "BlueBlack", "BlackBlue", "BlueWhite", "WhiteBlue", "Rainbow", "ReverseRainbow", "Hue", "ReverseHue", "Jet", "ReverseJet"]
CONVERTED = [("rgbgradient", n) for n in ("Rainbow", "ReverseRainbow", "Hue", "ReverseHue")] + [("cmykgradient", n) for n in ("Rainbow", "ReverseRainbow", "Hue", "ReverseHue", "Jet", "ReverseJet")]
NAMED = {"Red": (1, 0, 0), "Green": (0, 1, 0), "Blue": (0, 0, 1), "Black": (0, 0, 0), "White": (1, 1, 1), "Yellow": (1, 1, 0)}


def ends(name):
    """red, green and blue at the start and at the end of a gradient, by its name"""
    import re
    rev = name.startswith("Reverse")
    base = name.replace("Reverse", "")
    if base in ("Gray", "Grey"):
        e = [(1, 1, 1), (0, 0, 0)]
    elif base == "Rainbow":
        e = [(1, 0, 0), (0, 0, 1)]
    elif base == "Hue":
        e = [(1, 0, 0), (1, 0, 0)]
    elif base == "Jet":
        e = [(0, 0, 0.5), (0.5, 0, 0)]
    elif base in ("BlackYellow", "YellowBlack"):
        e = [(0, 0, 0), (1, 1, 0.5)]
        if base == "YellowBlack":
            e.reverse()
    else:
        e = [NAMED[n] for n in re.findall("[A-Z][a-z]+", base)]
    return e[::-1] if rev else e


@harness(cases=[("gradient", n) for n in GRADIENTS] + CONVERTED, eager=True, timeout_ms=20000)
def named(x, case):
    """a valid color for every parameter in [0, 1]; the ends; a reversed gradient; straight lines between two colors"""
    from pyx import color
    cls, name = case
    g = getattr(getattr(color, cls), name)
    t = x.real("t", 0, 1)
    p = {"BlackYellow": t*t, "YellowBlack": 1 - t*t}.get(name, t)
    c = g.getcolor(p)           # raises ValueError for components out of range
    space, v = comps(c)
    x.check(space is not None, "a color")
    for k, q in zip((0, 1), ends(name)):
        d = g.getcolor(k)
        for n, a, b in zip("rgb", comps(d.rgb())[1], q):
            x.eq(a, b, "color at %d: %s" % (k, n), tol=1e-6)
    if cls != "gradient":
        src = getattr(color.gradient, name).getcolor(p)
        x.check(space == cls[:-8], "converted into the color space")
        for a, b in zip(v, comps(getattr(src, space)())[1]):
            x.eq(a, b, "converted color", tol=1e-6)
        return
    other = None
    if name.startswith("Reverse"):
        other = name[7:]
    elif name in ("BlackYellow", "YellowBlack"):
        other = name[-6:] + name[:-6] if name == "YellowBlack" else "YellowBlack"
        other = "BlackYellow" if name == "YellowBlack" else "YellowBlack"
    if other:
        s2, w = comps(getattr(color.gradient, other).getcolor(1 - p))
        for a, b in zip(v, w):
            x.eq(a, b, "reversed gradient", tol=1e-6)
    if "Jet" not in name and "Yellow" not in name:
        a0, a1 = (comps(g.getcolor(k))[1] for k in (0, 1))
        for a, b0, b1 in zip(v, a0, a1):
            x.eq(a, b0 + (b1 - b0)*p, "linear in the parameter", tol=1e-6)
    if name == "Jet":
        r, gr, b = v
        x.check(x.implies(t < 0.13, x.all([r == 0, gr == 0])) , "blue at the start")
        x.check(x.implies(t > 0.87, x.all([b == 0, gr == 0])) , "red at the end")
        x.check(x.implies(x.all([t > 0.38, t < 0.62]), gr == 1), "green in the middle")


@harness(cases=list(SPACES))
def linear(x, case):
    """gradients between two arbitrary colors; select spreads the colors evenly"""
    from pyx import color
    a, b = make(x, case, "0"), make(x, case, "1")
    g = getattr(color, "lineargradient_" + case)(a, b)
    t = x.real("t", 0, 1)
    n = x.choice("n", [1, 2, 3, 5])
    i = x.choice("i", list(range(5)))
    x.assume(i < n)
    s, v = comps(g.getcolor(t))
    x.check(s == case, "color space")
    s, w = comps(g.select(i, n))
    f = i/(n - 1) if n > 1 else 0
    for p, q, r, u in zip(v, comps(a)[1], comps(b)[1], w):
        x.eq(p, q*(1 - t) + r*t, "color at a parameter")
        x.eq(u, q*(1 - f) + r*f, "selected color")


@harness(cases=["gray", "rgb", "hsb", "cmyk"])
def function(x, case):
    """function gradients: each component by its own function; functions outside of [0, 1] are refused"""
    from pyx import color
    names = SPACES[case]
    o = [x.real("o" + k, -1, 1) for k in names]
    m = [x.real("m" + k, -1, 1) for k in names]
    t = x.choice("t", [0, 0.5, 1])
    g = getattr(color, "functiongradient_" + case)(*[lambda s, i=i: o[i] + m[i]*s for i in range(len(names))])
    e = [a + b*t for a, b in zip(o, m)]
    try:
        s, v = comps(g.getcolor(t))
    except ValueError:
        x.check(x.any([a < 0 for a in e] + [a > 1 for a in e]), "refused only when out of range")
        return
    for p, q in zip(v, e):
        x.eq(p, q, "component")


@harness(cases=["palette", "gradient"])
def changing(x, case):
    """colors selected for the index of a data set"""
    from pyx import color, attr
    cs = [make(x, "rgb", str(k)) for k in range(3)]
    n = x.choice("n", [1, 2, 3, 5])
    i = x.choice("i", list(range(5)))
    x.assume(i < n)
    if case == "palette":
        p = color.palette(cs)
        want = comps(cs[i % 3])[1]
    else:
        p = color.lineargradient_rgb(cs[0], cs[1])
        f = i/(n - 1) if n > 1 else 0
        want = [q*(1 - f) + r*f for q, r in zip(comps(cs[0])[1], comps(cs[1])[1])]
    r = attr.selectattrs([p], i, n)
    x.check(len(r) == 1 and isinstance(r[0], color.rgb), "one color selected")
    for a, b in zip(comps(r[0])[1], want):
        x.eq(a, b, "selected color")
