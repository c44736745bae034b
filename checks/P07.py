"""Paths made of several subpaths: arc lengths, parameters, splitting, joining, reversing."""
from pysym.api import harness
import lib

BOUNDS = ("paths of one or two subpaths (open, closed) with up to 4 items; all segment lengths in [5, 50] pt along fixed directions (axis parallel or 3-4-5), "
          "straight curves of length 48 pt, circles arcs are in P05/P06; all arc lengths and parameters (farther than 1e-3 from item boundaries), "
          "up to two parameters at a time")
ASSUMPTIONS = ["floats as reals", "positions closer than 1e-3 to an item boundary are not checked (either item is right there)"]

# subpaths: (closed, start, [directions or "curve"]); closed subpaths get the closing line from their directions
E, N, W, S = (1, 0), (0, 1), (-1, 0), (0, -1)
D = (.6, .8)
FIX = {
    "open": [(0, (3, -2), [E, N, D])],
    "closed": [(1, (1, 1), ["a", E, N])],               # right triangle 3-4-5 scaled by a
    "rect": [(1, (1, 1), ["r"])],
    "two": [(0, (3, -2), [E, D]), (0, (-20, 5), [N, W])],
    "mixed": [(0, (0, 0), [E, N]), (1, (7, 100), ["a"])],
    "mixed2": [(1, (7, 100), ["a"]), (0, (0, 0), [N, E])],
    "mixc": [(0, (0, 0), [E, N]), (1, (7, 100), ["A"])],
    "mixc2": [(1, (7, 100), ["A"]), (0, (0, 0), [N, E])],
    "curve": [(0, (0, 5), [N, "curve", D])],
}


class Poly:
    """the oracle: items (x, y, dx, dy, length, iscurve) of subpaths"""

    def __init__(self, x, name, tag=""):
        self.subs = []
        self.closed = []
        self.starts = []
        n = 0
        for closed, start, dirs in FIX[name]:
            items = []
            p = start

            def add(d, l, p):
                items.append((p[0], p[1], d[0], d[1], l, d == "curve"))
                return p[0] + d[0]*l, p[1] + d[1]*l
            if dirs == ["r"]:
                w, h = x.real("w%s" % tag, 5, 50), x.real("h%s" % tag, 5, 50)
                for d, l in ((E, w), (N, h), (W, w), (S, h)):
                    p = add(d, l, p)
            elif dirs[0] in ("a", "A"):
                if dirs[0] == "a":
                    a = x.real("a%d%s" % (n, tag), 2, 10)
                    n += 1
                else:
                    a = 4
                for d, l in ((E, 3*a), (N, 4*a), ((-.6, -.8), 5*a)):
                    p = add(d, l, p)
            else:
                for d in dirs:
                    if d == "curve":
                        items.append((p[0], p[1], 1, 0, 48, True))
                        p = p[0] + 48, p[1]
                        continue
                    l = x.real("l%d%s" % (n, tag), 5, 50)
                    n += 1
                    p = add(d, l, p)
            self.subs.append(items)
            self.closed.append(closed)
        self.x = x

    def build(self, kind, epsilon=None):
        from pyx import path, normpath
        pi = []
        for items, closed in zip(self.subs, self.closed):
            pi.append(path.moveto_pt(items[0][0], items[0][1]))
            for k, (a, b, dx, dy, l, c) in enumerate(items):
                if closed and k == len(items) - 1:
                    break
                if c:
                    pi.append(path.curveto_pt(a + dx*l/3, b + dy*l/3, a + dx*l*2/3, b + dy*l*2/3, a + dx*l, b + dy*l))
                else:
                    pi.append(path.lineto_pt(a + dx*l, b + dy*l))
            if closed:
                pi.append(path.closepath())
        p = path.path(*pi)
        return p if kind == "path" else p.normpath() if epsilon is None else p.normpath(epsilon)

    def items(self):
        return [(i, j, it) for i, s in enumerate(self.subs) for j, it in enumerate(s)]

    def length(self):
        return sum(it[4] for i, j, it in self.items())

    def subend(self, i):
        a, b, dx, dy, l, c = self.subs[i][-1]
        return a + dx*l, b + dy*l

    def locate(self, s, margin=1e-3):
        """(subpath, item, arc length in the item); forks"""
        items = self.items()
        for n, (i, j, it) in enumerate(items):
            l = it[4]
            last = n == len(items) - 1
            if last or s < l:
                if not (last and margin is None):
                    self.x.assume(s > (0 if n == 0 else (margin or 0)))
                    self.x.assume(s < l - (0 if last else (margin or 0)))
                return i, j, s
            s = s - l

    def at(self, i, j, s):
        a, b, dx, dy, l, c = self.subs[i][j]
        return a + dx*s, b + dy*s

    def dir(self, i, j):
        return self.subs[i][j][2:4]

    def loc(self, i, j, s):
        return i, j, s


def same(x, a, b, label, tol=1e-3):
    x.eq(a[0], b[0], label + " x", tol)
    x.eq(a[1], b[1], label + " y", tol)


def topt(v):
    from pyx import unit
    return unit.topt(v)


NAMES = [n for n in FIX if n not in ("mixc", "mixc2")]
KINDS = ("path", "normpath")


@harness(cases=[(n, k) for n in NAMES for k in KINDS])
def whole(x, case):
    from pyx import normpath, path
    name, kind = case
    P = Poly(x, name)
    p = P.build(kind)
    L = P.length()
    x.eq(p.arclen_pt(), L, "arc length in pt", 1e-3)
    x.eq(topt(p.arclen()), L, "arc length", 1e-3)
    if kind == "normpath":
        x.eq(p.arclen_pt(upper=True), L, "upper bound of the arc length", 1e-3)
        x.eq(topt(p.arclen(upper=True)), L, "upper bound of the arc length", 1e-3)
    b, e = P.subs[0][0][:2], P.subend(len(P.subs) - 1)
    same(x, p.atbegin_pt(), b, "begin in pt")
    same(x, [topt(v) for v in p.atbegin()], b, "begin")
    same(x, p.atend_pt(), e, "end in pt")
    same(x, [topt(v) for v in p.atend()], e, "end")
    n = p.normpath()
    x.check(len(n) == len(P.subs), "number of subpaths")
    x.check([len(s) for s in n] == [len(s) for s in P.subs], "number of items")
    x.check([bool(s.closed) for s in n] == [bool(c) for c in P.closed], "closed subpaths")
    same(x, n.at_pt(n.begin()), b, "at begin()")
    same(x, n.at_pt(n.end()), e, "at end()")
    x.eq(n.paramtoarclen_pt(n.begin()), 0, "arc length of begin()")
    x.eq(n.paramtoarclen_pt(n.end()), L, "arc length of end()", 1e-3)
    same(x, n.at_pt(0), b, "at arc length 0")
    q = n.path()
    x.check(isinstance(q, path.path), "path()")
    segs = lib.normpath_segs(q.normpath())
    lib.same_segs(x, segs, lib.normpath_segs(n), "back to a path", 1e-3)


@harness(cases=[(n, k) for n in NAMES for k in KINDS])
def position(x, case):
    """one arc length"""
    from pyx import unit, trafo
    name, kind = case
    P = Poly(x, name)
    p = P.build(kind)
    s = x.real("s", 0, 1000)
    x.assume(s < P.length())
    i, j, t = P.locate(s)
    w = P.at(i, j, t)
    dx, dy = P.dir(i, j)
    same(x, p.at_pt(s), w, "at_pt")
    same(x, [topt(v) for v in p.at(s * unit.t_pt)], w, "at")
    q = p.arclentoparam_pt(s)
    x.eq(q.normpath.paramtoarclen_pt(q), s, "arc length of the parameter", 1e-3)
    x.eq(topt(q.normpath.paramtoarclen(q)), s, "arc length of the parameter as length", 1e-3)
    x.eq(q.arclen_pt(), s, "arclen_pt of the parameter", 1e-3)
    x.eq(topt(q.arclen()), s, "arclen of the parameter", 1e-3)
    same(x, q.normpath.at_pt(q), w, "at the parameter")
    x.check(q.normsubpathindex == i, "subpath of the parameter")
    r = p.arclentoparam(s * unit.t_pt)
    same(x, r.normpath.at_pt(r), w, "at the parameter of a length")
    for ap, s_ in (("_pt", s), ("", s * unit.t_pt)):
        m = getattr(p, "trafo" + ap)(s_)
        same(x, m.apply_pt(0, 0), w, "trafo%s origin" % ap)
        same(x, m.apply_pt(5, 2), (w[0] + 5*dx - 2*dy, w[1] + 5*dy + 2*dx), "trafo" + ap)
        m = getattr(p, "rotation" + ap)(s_)
        same(x, m.apply_pt(5, 2), (5*dx - 2*dy, 5*dy + 2*dx), "rotation" + ap)
        l = getattr(p, "tangent" + ap)(s_, 7 if ap else 7 * unit.t_pt)
        same(x, l.atbegin_pt(), w, "tangent%s begin" % ap)
        same(x, l.atend_pt(), (w[0] + 7*dx, w[1] + 7*dy), "tangent%s end" % ap)
    x.eq(p.curvature_pt(s), 0, "curvature")


@harness(cases=[(n, k) for n in ("two", "mixc", "mixc2") for k in KINDS] + [("closed", "normpath")], thorough=[("curve", "normpath")], max_paths=120)
def positions(x, case):
    """two arc lengths in any order, mixed with parameters"""
    name, kind = case
    P = Poly(x, name)
    p = P.build(kind).normpath() if name != "two" else P.build(kind)
    n = p.normpath()
    p = n
    s = [x.real("s%d" % k, 0, 1000) for k in range(2)]
    L = P.length()
    loc = []
    for v in s:
        x.assume(v < L)
        loc.append(P.locate(v))
    w = [P.at(*l) for l in loc]
    q = p.arclentoparam_pt(list(s))
    x.check(len(q) == 2, "number of parameters")
    back = p.paramtoarclen_pt(list(q))
    for k in range(2):
        x.eq(back[k], s[k], "arc length %d" % k, 1e-3)
    x.eq(p.paramtoarclen_pt([q[1]])[0], s[1], "single arc length", 1e-3)
    for k, r in enumerate(p.at_pt([q[0], s[1], n.begin(), n.end()])):
        same(x, r, (w + [P.subs[0][0][:2], P.subend(len(P.subs) - 1)])[k], "position %d" % k)
    for k, r in enumerate(p.trafo_pt([s[0], q[1]])):
        dx, dy = P.dir(*loc[k][:2])
        same(x, r.apply_pt(3, 1), (w[k][0] + 3*dx - dy, w[k][1] + 3*dy + dx), "trafo %d" % k)
    for k, r in enumerate(p.rotation_pt([q[0], s[1]])):
        dx, dy = P.dir(*loc[k][:2])
        same(x, r.apply_pt(3, 1), (3*dx - dy, 3*dy + dx), "rotation %d" % k)
    for k, r in enumerate(p.tangent_pt([s[0], q[1]], 3)):
        dx, dy = P.dir(*loc[k][:2])
        same(x, r.atend_pt(), (w[k][0] + 3*dx, w[k][1] + 3*dy), "tangent %d" % k)


def between(P, a, b):
    """expected segments (as straight runs) of the piece between locations a < b (None: begin / end)"""
    out = []
    for i, j, it in P.items():
        lo, hi = 0, it[4]
        if a is not None:
            if (i, j) < a[:2]:
                continue
            if (i, j) == a[:2]:
                lo = a[2]
        if b is not None:
            if (i, j) > b[:2]:
                continue
            if (i, j) == b[:2]:
                hi = b[2]
        out.append((i, j, it, lo, hi))
    return out


def check_piece(x, P, piece, exp, label, closed=()):
    """piece is a normpath, exp a list of (subpath, item, item data, lo, hi)"""
    groups = []
    for e in exp:
        if groups and groups[-1][-1][0] == e[0]:
            groups[-1].append(e)
        else:
            groups.append([e])
    subs = list(piece.normsubpaths)
    x.check(len(subs) == len(groups), label + " number of subpaths", (len(subs), len(groups)))
    for sp, g in zip(subs, groups):
        x.check(len(sp.normsubpathitems) == len(g), label + " number of items", (len(sp.normsubpathitems), len(g)))
        x.check(bool(sp.closed) == (g[0][0] in closed), label + " closed")
        for it, (i, j, d, lo, hi) in zip(sp.normsubpathitems, g):
            same(x, it.atbegin_pt(), (d[0] + d[2]*lo, d[1] + d[3]*lo), label + " item begin")
            same(x, it.atend_pt(), (d[0] + d[2]*hi, d[1] + d[3]*hi), label + " item end")


@harness(cases=[(n, k, w) for n in ("open", "two", "mixed", "mixed2", "curve") for k in KINDS for w in ("s", "p")], max_paths=120)
def split1(x, case):
    """split at one position; in closed subpaths the piece before and after are one"""
    from pyx import unit
    name, kind, by = case
    P = Poly(x, name)
    p = P.build(kind)
    s = x.real("s", 0, 1000)
    x.assume(s < P.length())
    loc = P.locate(s)
    x.assume(s > 1e-3)
    x.assume(s < P.length() - 1e-3)
    if by == "p":
        p = p.normpath()
        r = p.split([p.arclentoparam_pt(s)])
    else:
        r = p.split(s * unit.t_pt) if kind == "path" else p.split_pt(s)
    i, j, t = loc
    closed = [k for k in range(len(P.subs)) if P.closed[k]]
    if P.closed[i]:
        # the subpath becomes one open piece, from the position round to the position
        x.check(len(r) == 1, "number of pieces")
        exp = [e for e in between(P, None, None) if e[0] < i]
        exp += [e for e in between(P, loc, None) if e[0] == i] + [e for e in between(P, None, loc) if e[0] == i]
        exp += [e for e in between(P, None, None) if e[0] > i]
        check_piece(x, P, r[0], exp, "piece", [k for k in closed if k != i])
    else:
        x.check(len(r) == 2, "number of pieces")
        check_piece(x, P, r[0], between(P, None, loc), "first piece", closed)
        check_piece(x, P, r[1], between(P, loc, None), "second piece", closed)


@harness(cases=[(n, k) for n in ("open", "two", "mixc", "rect", "curve", "mixc2", "closed") for k in KINDS], max_paths=200, deadline=140)
def split2(x, case):
    """split at two positions in ascending order"""
    name, kind = case
    P = Poly(x, name)
    p = P.build(kind)
    s = [x.real("s%d" % k, 0, 1000) for k in range(2)]
    x.assume(s[0] > 1e-3)
    x.assume(s[0] < s[1] - 1e-3)
    x.assume(s[1] < P.length() - 1e-3)
    a, b = [P.locate(v) for v in s]
    r = p.split_pt(list(s))
    closed = [k for k in range(len(P.subs)) if P.closed[k]]
    i, k = a[0], b[0]
    if i == k and P.closed[i]:
        x.check(len(r) == 2, "number of pieces")
        pre = [e for e in between(P, None, None) if e[0] < i]
        post = [e for e in between(P, None, None) if e[0] > i]
        outer = [e for e in between(P, b, None) if e[0] == i] + [e for e in between(P, None, a) if e[0] == i]
        inner = between(P, a, b)
        others = [m for m in closed if m != i]
        # the outer piece goes through the start point of the subpath
        check_piece(x, P, r[0], pre + outer, "outer piece", others)
        check_piece(x, P, r[1], inner + post, "inner piece", others)
    elif P.closed[i] or P.closed[k]:
        # one of both lies in a closed subpath, which is cut open
        x.check(len(r) == 2, "number of pieces")
        total = sum(q.arclen_pt() for q in r)
        x.eq(total, P.length(), "length of the pieces", 1e-2)
    else:
        x.check(len(r) == 3, "number of pieces")
        check_piece(x, P, r[0], between(P, None, a), "first piece", closed)
        check_piece(x, P, r[1], between(P, a, b), "second piece", closed)
        check_piece(x, P, r[2], between(P, b, None), "third piece", closed)


@harness(cases=NAMES)
def reverse(x, name):
    P = Poly(x, name)
    n = P.build("normpath")
    kept = lib.normpath_segs(n)
    r = n.reversed()
    x.check(len(r) == len(n), "number of subpaths")
    for sp, items, closed in zip(r, P.subs[::-1], P.closed[::-1]):
        x.check(bool(sp.closed) == bool(closed), "closed")
        x.check(len(sp) == len(items), "number of items")
        for it, d in zip(sp.normsubpathitems, items[::-1]):
            same(x, it.atbegin_pt(), (d[0] + d[2]*d[4], d[1] + d[3]*d[4]), "item begin")
            same(x, it.atend_pt(), d[:2], "item end")
    lib.same_segs(x, lib.normpath_segs(n), kept, "operand unchanged", 1e-6)
    p = P.build("path")
    lib.same_segs(x, lib.normpath_segs(p.reversed().normpath()), lib.normpath_segs(r), "reversed path", 1e-3)


JOIN = [(a, b, k) for a, b in (("open", "curve"), ("two", "two"), ("mixed2", "mixed"), ("open", "mixed")) for k in ("path", "normpath", "np", "pn")]


def moved(segs, d):
    return lib.map_segs(segs, lambda p: (p[0] + d[0], p[1] + d[1]))


@harness(cases=[c + (w,) for c in JOIN for w in ("joined", "join", "<<", "+", "+=", "append") if w != "append" or c[2] != "pn"])
def joining(x, case):
    from pyx import path, trafo
    na, nb, kinds, how = case
    A, B = Poly(x, na), Poly(x, nb, "b")
    k1, k2 = dict(path=("path", "path"), normpath=("normpath", "normpath"), np=("normpath", "path"), pn=("path", "normpath"))[kinds]
    a, b = A.build(k1), B.build(k2)
    sa, sb = lib.normpath_segs(A.build("normpath")), lib.normpath_segs(B.build("normpath"))
    before = lib.normpath_segs(a.normpath())
    if how == "joined":
        r = a.joined(b)
    elif how == "join":
        r = a
        r.join(b)
    elif how == "<<":
        r = a << b
    elif how == "+":
        r = a + b
    elif how == "+=":
        r = a
        r += b
    else:
        r = a
        if k1 == "path" or k2 == "path":
            if k2 != "path":
                x.reject()
            r.extend(list(b))
        else:
            r.extend(list(b.normpath()))
    out = lib.normpath_segs(r.normpath())
    if how in ("joined", "join", "<<"):
        # the last subpath continues with a line to the begin of the other path
        x.check(sb[0][0] == "M", "oracle")
        exp = sa + [("L",) + tuple(sb[0][1:])] + sb[1:]
        x.check(not A.closed[-1] and not B.closed[0], "oracle open")
    else:
        exp = sa + sb
    # a line of length zero is dropped
    lib.same_segs(x, out, exp, how, 1e-3)
    if how in ("joined", "<<", "+"):
        lib.same_segs(x, lib.normpath_segs(a.normpath()), before, "first operand unchanged", 1e-6)
        lib.same_segs(x, lib.normpath_segs(b.normpath()), sb, "second operand unchanged", 1e-3)


@harness(cases=["closed+", "+closed"])
def joinclosed(x, kind):
    """closed subpaths cannot be joined"""
    from pyx import normpath
    A, B = Poly(x, "closed" if kind == "closed+" else "open"), Poly(x, "open" if kind == "closed+" else "closed", "b")
    a, b = A.build("normpath"), B.build("normpath")
    try:
        a.joined(b)
        x.check(False, "joining a closed subpath succeeded")
    except normpath.NormpathException:
        x.check(True, "refused")


@harness(cases=[(n, w) for n in ("open", "mixed", "curve") for w in ("+len", "-len", "len+", "len-", "*", "r*", "/", "p+p", "p-p", "cmp", "cmplen") if (n, w) not in (("curve", "p+p"), ("curve", "p-p"))],
         thorough=[("curve", "p+p"), ("curve", "p-p")], max_paths=120)
def arithmetic(x, case):
    """parameters behave like their arc length"""
    from pyx import unit
    name, op = case
    P = Poly(x, name)
    n = P.build("normpath")
    L = P.length()
    s = x.real("s", 0, 1000)
    x.assume(s > 1e-3)
    x.assume(s < L - 1e-3)
    P.locate(s)
    p = n.arclentoparam_pt(s)

    def expect(q, v):
        x.assume(v > 1e-3)
        x.assume(v < L - 1e-3)
        i, j, t = P.locate(v)
        x.eq(n.paramtoarclen_pt(q), v, "arc length of the result", 1e-3)
        same(x, n.at_pt(q), P.at(i, j, t), "position of the result")
    if op in ("*", "r*", "/"):
        if op == "*":
            expect(p * 2, s * 2)
        elif op == "r*":
            expect(2 * p, s * 2)
        else:
            expect(p / 4, s / 4)
        return
    l = x.real("l", -100, 300)
    if op == "+len":
        expect(p + l * unit.t_pt, s + l)
    elif op == "len+":
        expect(l * unit.t_pt + p, s + l)
    elif op == "-len":
        expect(p - l * unit.t_pt, s - l)
    elif op == "len-":
        expect(l * unit.t_pt - p, l - s)
    else:
        x.assume(l > 1e-3)
        x.assume(l < L - 1e-3)
        P.locate(l)
        q = n.arclentoparam_pt(l)
        if op == "p+p":
            expect(p + q, s + l)
        elif op == "p-p":
            expect(p - q, s - l)
        elif op == "cmp":
            x.assume(x.any([s < l - 1e-3, s > l + 1e-3]))
            lt = bool(s < l)
            x.check(bool(p < q) == lt, "p < q")
            x.check(bool(p > q) == (not lt), "p > q")
            x.check(bool(p <= q) == lt, "p <= q")
            x.check(bool(p >= q) == (not lt), "p >= q")
            x.check(not (p == q), "p == q")
            x.check(bool(p == n.arclentoparam_pt(s)), "p == p")
        else:
            x.assume(x.any([s < l - 1e-3, s > l + 1e-3]))
            lt = bool(s < l)
            d = l * unit.t_pt
            x.check(bool(p < d) == lt, "p < length")
            x.check(bool(p > d) == (not lt), "p > length")


@harness(cases=["pathitem", "pathitems", "normsubpath", "empty"])
def building(x, kind):
    """normpaths built with append and extend"""
    from pyx import path, normpath
    v = [(x.real("x%d" % i, 10*i, 10*i + 8), x.real("y%d" % i, 10*i, 10*i + 8)) for i in range(4)]
    n = normpath.normpath()
    if kind == "normsubpath":
        sp = normpath.normsubpath([normpath.normline_pt(*(v[0] + v[1])), normpath.normline_pt(*(v[1] + v[2]))])
        n.append(sp)
        n.append(normpath.normsubpath([normpath.normline_pt(*(v[1] + v[3]))]))
        exp = [("M", v[0]), ("L", v[1]), ("L", v[2]), ("M", v[1]), ("L", v[3])]
    elif kind == "empty":
        n.append(path.moveto_pt(*v[0]))
        n.extend([path.lineto_pt(*v[1]), path.rlineto_pt(11, 0), path.moveto_pt(*v[2]), path.lineto_pt(*v[3])])
        exp = [("M", v[0]), ("L", v[1]), ("L", (v[1][0] + 11, v[1][1])), ("M", v[2]), ("L", v[3])]
    else:
        n = path.line_pt(*(v[0] + v[1])).normpath()
        its = [path.lineto_pt(*v[2]), path.rlineto_pt(0, -12), path.lineto_pt(*v[3])]
        if kind == "pathitem":
            for i in its:
                n.append(i)
        else:
            n.extend(its)
        exp = [("M", v[0]), ("L", v[1]), ("L", v[2]), ("L", (v[2][0], v[2][1] - 12)), ("L", v[3])]
    lib.same_segs(x, lib.normpath_segs(n), exp, kind, 1e-3)
    c = n.copy()
    c.normsubpaths[0].append(normpath.normline_pt(*(c.normsubpaths[0].atend_pt() + (500, 500))))
    lib.same_segs(x, lib.normpath_segs(n), exp, "unaffected by changes of the copy", 1e-3)
    x.eq(n.arclen_pt(), sum(x.math.hypot(b[-1][0] - a[-1][0], b[-1][1] - a[-1][1]) for a, b in zip(exp, exp[1:]) if b[0] == "L"), "arc length", 1e-3)


def chain(x, p0, lens, dirs):
    pts = [p0]
    for l, (a, b) in zip(lens, dirs):
        pts.append((pts[-1][0] + l * a, pts[-1][1] + l * b))
    return pts


E1, N1 = (1, 0), (0, 1)
SHORT = [(a, b) for a in ("L", "Ls", "sL", "LsL", "LssL") for b in ("L", "Ls", "sL", "LLs", "s")]


@harness(cases=[(a, b, w) for a, b in SHORT for w in ("joined", "<<", "+")], max_paths=200)
def shortpieces(x, case):
    """pieces below the precision (s) do not move the ends, and further items continue from there"""
    from pyx import normpath, path
    a, b, how = case
    n = [0]

    def sub(spec, p0):
        pts = [p0]
        for i, c in enumerate(spec):
            n[0] += 1
            l = x.real("s%d" % n[0], 1e-6, 9e-6) if c == "s" else x.real("l%d" % n[0], 1, 50)
            d = (E1, N1)[i % 2] if c == "s" else E1
            # short pieces point in the direction of y, which is left by nothing else
            pts.append((pts[-1][0], pts[-1][1] + l) if c == "s" else (pts[-1][0] + l, pts[-1][1]))
        return pts
    pa = sub(a, (0, 0))
    pb = sub(b, pa[-1])
    L = lambda pts: [normpath.normline_pt(*(p + q)) for p, q in zip(pts, pts[1:])]
    A = normpath.normpath([normpath.normsubpath(L(pa))])
    B = normpath.normpath([normpath.normsubpath(L(pb))])

    def at(p, e, label):
        x.eq(p[0], e[0], label + " x", 1e-8)
        x.eq(p[1], e[1], label + " y", 1e-8)
    at(A.atend_pt(), pa[-1], "end of the first")
    at(A.atbegin_pt(), pa[0], "begin of the first")
    at(B.atend_pt(), pb[-1], "end of the second")
    if how == "+":
        S = A + B
        at(S[0].atend_pt(), pa[-1], "end of the first subpath")
        at(S[1].atend_pt(), pb[-1], "end of the second subpath")
    else:
        S = A << B if how == "<<" else normpath.normpath([A[0].joined(B[0])])
        x.check(len(S) == 1, "one subpath")
    at(S.atbegin_pt(), pa[0], "begin")
    at(S.atend_pt(), pb[-1], "end")
    # longer than the precision: nothing is lost when going on
    q = (pb[-1][0] + 10, pb[-1][1])
    S[-1].append(normpath.normline_pt(*(pb[-1] + q)))
    at(S.atend_pt(), q, "end after appending")
    at(A.atend_pt(), pa[-1], "operand is unchanged")
