"""Line simplification."""
import math

from vf.core import Check, Gen, Violation, Skip, expect, short
from coral import coord


def col(a, b, c):
    return (a[0] - c[0]) * (b[1] - a[1]) == (a[0] - b[0]) * (c[1] - a[1])


def straight(a, b, c):
    """b lies between a and c (or repeats one of them)."""
    return col(a, b, c) and (a[0] - b[0]) * (c[0] - b[0]) <= 0 and (a[1] - b[1]) * (c[1] - b[1]) <= 0


def dedup(p):
    out = []
    for v in p:
        if not out or out[-1] != v:
            out.append(v)
    return out


def area2(p):
    return sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(p, p[1:] + p[:1]))


def canon_open(p):
    """The same polyline with the vertices inside straight runs dropped."""
    p = dedup(p)
    out = []
    for i, v in enumerate(p):
        if 0 < i < len(p) - 1 and straight(p[i - 1], v, p[i + 1]):
            continue
        out.append(v)
    return out


def canon_ring(p):
    p = dedup(p)
    while len(p) > 1 and p[0] == p[-1]:
        p.pop()
    n = len(p)
    return [p[i] for i in range(n) if not straight(p[i - 1], p[i], p[(i + 1) % n])]


def doubles_back(p):
    """Some vertex where the line turns back on itself (a slit)."""
    p = dedup(p)
    return any(col(a, b, c) and not straight(a, b, c) for a, b, c in zip(p, p[1:], p[2:]))


def subsequence(o, s):
    it = iter(s)
    return all(any(v == w for w in it) for v in o)


def walk(r, n, style):
    """A lattice path of n vertices."""
    # (far out, products of differences no longer fit in a float)
    far = r.choice((10**7, 3 * 10**8)) if r.chance(0.06) else 0
    x, y = r.randint(-20, 20), r.randint(-20, 20)
    out = [(x, y)]
    if style == "free":
        big = r.choice((2, 5, 50, 10**6))
        for _ in range(n - 1):
            out.append((r.randint(-big, big), r.randint(-big, big)))
        return out
    dx, dy = 1, 0
    for _ in range(n - 1):
        u = r.random()
        if style == "stairs":
            if u < 0.5:
                dx, dy = r.choice(((1, 0), (0, 1), (-1, 0), (0, -1)))
        elif style == "line":
            if u < 0.1:
                dx, dy = r.randint(-3, 3), r.randint(-3, 3)
        else:       # forward: never turns back
            if u < 0.5:
                dx, dy = r.randint(1, 3), r.randint(-3, 3)
        if u > 0.95:
            out.append((x, y))
        x, y = x + dx, y + dy
        if far and r.chance(0.6):
            # on, and nearly straight on
            q = r.choice((1, 2, 3, far, far + 1))
            x, y = x + q * dx + r.choice((0, 0, 1)), y + q * dy + r.choice((0, 0, 1, -1)) * (style != "stairs")
        out.append((x, y))
    return out


def unsnap(r, pts, m):
    """Real coordinates that snap to pts on a grid of size m."""
    j = r.choice((0, 0, 0.3, 0.45))
    out = []
    for x, y in pts:
        if j:
            x, y = x + r.uniform(-j, j), y + r.uniform(-j, j)
        out.append((x * m, y * m))
    return out


def draw_company(r):
    """Other lines simplified at the same time: (points, taken before)."""
    if r.chance(0.75):
        return []
    return [(walk(r, r.size(30, 1), r.choice(("stairs", "forward", "free"))), r.randint(0, 9), r.chance(0.5))
            for _ in range(r.choice((1, 1, 2)))]


def in_company(company, k, make, mon):
    """The output of make(), taken in turns with that of other lines, some of
    which are left unfinished."""
    others = []
    for pts, before, closed in company:
        g = coord.simplify(iter(pts), 1, closed, k)
        for _ in range(before):
            next(g, None)
        others.append(g)
    out = []
    for v in make():
        out.append(v)
        for g in others:
            next(g, None)
        others.reverse()
    mon.ev("taken in turns", bool(company))
    return out


def draw_scale(r):
    return r.choice((1, 1, 1.0, 2, 0.5, 5000, 0.001, r.uniform(0.01, 20)))


class SimplifyOpen(Check):
    id = "C06"
    files = ("coral/coord.py",)
    quick, thorough = 100000, 2000000
    rule = ("lattice walks (staircases, long straight runs, forward lines, free jumps, "
            "repeated points, inserted out-and-back slits) of 0 to 400 vertices under "
            "random cell sizes, offsets inside the cell and buffer sizes; "
            "non-trivial: three or more vertices")
    required = ("snapped subsequence", "ends kept", "area kept", "same path", "vertex dropped",
                "slit removed", "empty", "taken in turns", "single point", "longer than the buffer")

    def gen(self, r):
        kind = r.choice(("stairs", "line", "forward", "forward", "free", "slits"))
        n = r.choice((0, 1, 2, 3, 4)) if r.chance(0.1) else r.size(400, 3)
        k = r.choice((8, 8, 8, 1, 2, 4, 16, 64))
        depth = 0
        base = None
        if kind == "slits":
            base = walk(r, max(2, min(n, 60)), "forward")
            pts = []
            for i, v in enumerate(base):
                pts.append(v)
                if r.chance(0.2):
                    # out and back along the same vertices
                    out = []
                    q = v
                    d = r.randint(1, k)
                    for j in range(d):
                        # climbs straight out of reach of the line, zigzag
                        q = (q[0] - r.randint(1, 4), q[1] + r.choice((17, 23, -19, 31)))
                        out.append(q)
                    pts += out + out[-2::-1] + [v]
        else:
            pts = walk(r, n, kind) if n else []
        m = draw_scale(r)
        return {"kind": kind, "pts": unsnap(r, pts, m), "snap": pts, "base": base, "m": m,
                "k": k, "src": r.choice(("list", "gen", "iter")), "company": draw_company(r)}

    larges = tuple((kind, n, k) for kind in ("stairs", "line", "forward", "slits")
                   for n, k in ((700, 512), (5000, 8), (5000, 256), (5000, 1024), (70000, 8), (70000, 64)))

    def large(self, what):
        kind, n, k = what
        r = Gen("line %s %d %d" % what)
        base = None
        if kind == "slits":
            # steps out of the line and back, at first in reach of the buffer and then as far as it goes
            base, pts = walk(r, n // 4, "forward"), []
            for i, v in enumerate(base):
                pts.append(v)
                if i % (k // 3 + 5) == 4:
                    out = [(v[0] - 3 * j, v[1] + 17 * j + j % 3) for j in range(1, 1 + r.choice((1, 2, k // 2 or 1, k)))]
                    pts += out + out[-2::-1] + [v]
        else:
            pts = walk(r, n, kind)
        return {"kind": kind, "pts": unsnap(r, pts, 0.5), "snap": pts, "base": base, "m": 0.5, "k": k, "src": "gen", "company": []}

    def nontrivial(self, c):
        return len(c["pts"]) > 2

    def check(self, c, mon):
        s, m, k = c["snap"], c["m"], c["k"]
        pts = c["pts"]
        src = {"list": lambda: list(pts), "gen": lambda: (p for p in pts),
               "iter": lambda: iter(pts)}[c["src"]]()
        o = in_company(c["company"], k, lambda: coord.simplify(src, m) if k == 8 else coord.simplify(src, m, False, k), mon)
        if not s:
            expect(o == [], "nothing simplifies to {}", short(o))
            mon.ev("empty")
            return
        if len(s) == 1:
            expect(o == s, "the point {} simplifies to {}", s[0], short(o))
            mon.ev("single point")
            return
        expect(all(isinstance(v[0], int) and isinstance(v[1], int) for v in o),
               "vertices are not whole cells: {}", short(o))
        expect(subsequence(o, s), "{} is not a subsequence of the snapped line {} (k={})",
               short(o), short(s), k)
        mon.ev("snapped subsequence")
        expect(len(o) >= 1 and o[0] == s[0] and o[-1] == s[-1],
               "ends of {} become {} (k={})", short(s), short(o), k)
        mon.ev("ends kept")
        expect(area2(o) == area2(s), "area changes from {}/2 to {}/2: {} becomes {} (k={})",
               area2(s), area2(o), short(s), short(o), k)
        mon.ev("area kept")
        if len(o) > k + 2:
            mon.ev("longer than the buffer")
        if not doubles_back(s):
            w = canon_open(s)
            if len(w) > 1 and len(set(w)) > 1:
                expect(o == w, "{} becomes {} instead of the same line {} (k={})",
                       short(s), short(o), short(w), k)
                mon.ev("same path")
                if len(w) < len(s):
                    mon.ev("vertex dropped")
        elif c["base"] is not None:
            w = canon_open(c["base"])
            if len(w) > 1:
                expect(dedup(o) == w, "{} becomes {}; without its slits it is {} (k={})",
                       short(s), short(o), short(w), k)
                mon.ev("slit removed")


class SimplifyRing(Check):
    id = "C07"
    files = ("coral/coord.py",)
    quick, thorough = 100000, 2000000
    rule = ("closed lattice rings (star-shaped with lattice vertices, rectangles with "
            "vertices on their sides, staircases, free rings) started at any vertex, with "
            "and without the repeated closing point; non-trivial: four or more vertices")
    required = ("ring kept", "area kept", "no closing vertex", "start inside a straight run",
                "given closed", "given open", "taken in turns", "free ring")

    def gen(self, r):
        kind = r.choice(("star", "star", "rect", "stairs", "free"))
        if kind == "star":
            n = 3 + r.size(120)
            big = r.choice((6, 20, 300, 10**5))
            pts = []
            for i in range(n):
                t = 2 * math.pi * i / n
                d = big * r.uniform(0.3, 1)
                pts.append((round(d * math.cos(t)), round(d * math.sin(t))))
        elif kind == "rect":
            w, h = r.randint(1, 30), r.randint(1, 30)
            pts = [(x, 0) for x in range(w)] + [(w, y) for y in range(h)] + \
                  [(x, h) for x in range(w, 0, -1)] + [(0, y) for y in range(h, 0, -1)]
            pts = [p for p in pts if r.random() < 0.8 or p in ((0, 0), (w, 0), (w, h), (0, h))]
        elif kind == "stairs":
            n = r.randint(1, 12)
            pts, x, y = [], 0, 0
            for _ in range(n):
                d = r.randint(1, 3)
                pts += [(x, y), (x + d, y)]
                x, y = x + d, y + r.randint(1, 3)
            pts += [(x, y), (-1, y), (-1, 0)]
        else:
            big = r.choice((2, 4, 40))
            pts = [(r.randint(-big, big), r.randint(-big, big)) for _ in range(1 + r.size(40))]
        i = r.randrange(len(pts))
        pts = pts[i:] + pts[:i]
        if r.chance(0.5):
            pts.reverse()
        if r.chance(0.2):
            pts = [p for p in pts for _ in range(r.choice((1, 1, 2)))]
        if r.chance(0.06):
            # far out, products of differences no longer fit in a float
            q = r.choice((10**7, 3 * 10**8))
            pts = [(x * q + r.choice((0, 0, 1, -1)), y * q + r.choice((0, 0, 1, -1))) for x, y in pts]
        closed = r.chance(0.5)
        if closed:
            pts = pts + [pts[0]]
        m = draw_scale(r)
        k = r.choice((8, 8, 8, 1, 2, 4, 16))
        return {"kind": kind, "snap": pts, "pts": unsnap(r, pts, m), "m": m, "k": k, "closed": closed,
                "company": draw_company(r)}

    larges = tuple((kind, n, k) for kind in ("star", "stairs", "comb")
                   for n, k in ((700, 512), (5000, 8), (5000, 256), (20000, 1024), (70000, 8)))

    def large(self, what):
        kind, n, k = what
        r = Gen("ring %s %d %d" % what)
        if kind == "star":
            pts = []
            for i in range(n):
                t, d = 2 * math.pi * i / n, 10**8 * r.uniform(0.3, 1)
                pts.append((round(d * math.cos(t)), round(d * math.sin(t))))
        elif kind == "stairs":
            pts = [(i // 2 + i % 2, i // 2) for i in range(n)] + [(-1, n), (-1, -1), (0, -1)]
        else:       # long straight sides and teeth
            pts = [(i, 0) for i in range(n // 2)] + [(n // 2 - i // 2, 5 + i % 4 // 2 * 3) for i in range(n // 2)]
        i = r.randrange(len(pts))
        pts = pts[i:] + pts[:i]
        closed = k != 8
        if closed:
            pts.append(pts[0])
        return {"kind": kind, "snap": pts, "pts": unsnap(r, pts, 2), "m": 2, "k": k, "closed": closed, "company": []}

    def nontrivial(self, c):
        return len(c["snap"]) > 3

    def check(self, c, mon):
        s, k = c["snap"], c["k"]
        o = in_company(c["company"], k, lambda: coord.simplify(iter(c["pts"]), c["m"], closed=True, k=k), mon)
        what = "ring %s becomes %s (k=%d)" % (short(s), short(o), k)
        expect(len(o) >= 1, "{}", what)
        expect(set(o) <= set(s), "new vertices: {}", what)
        ring = dedup(s)
        while len(ring) > 1 and ring[0] == ring[-1]:
            ring.pop()
        expect(len(o) < 2 or o[0] != o[-1], "closing vertex repeated: {}", what)
        mon.ev("no closing vertex")
        expect(area2(o) == area2(s), "area changes from {}/2 to {}/2: {}", area2(s), area2(o), what)
        mon.ev("area kept")
        mon.ev("given closed" if c["closed"] else "given open")
        if c["kind"] == "free":
            mon.ev("free ring")
        # vertices keep their order around the ring
        expect(any(subsequence(o, ring[i:] + ring[:i]) for i in range(len(ring))
                   if ring[i] == o[0]), "vertices out of order: {}", what)
        if len(ring) > 2 and not doubles_back(ring + ring[:2]) and area2(s) != 0:
            w = canon_ring(s)
            i = next((i for i in range(len(w)) if w[i:] + w[:i] == o), None)
            expect(i is not None, "{} instead of {}", what, short(w))
            mon.ev("ring kept")
            if straight(ring[-1], ring[0], ring[1]):
                mon.ev("start inside a straight run")
