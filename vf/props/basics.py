"""Bounding boxes, bounded deque, compass."""
import collections
import math

from vf.core import Check, Gen, Violation, expect, close, raises, short
from coral import bbox, coord


Spot = collections.namedtuple("Spot", "x y")


def corners(b):
    return (b.x0, b.y0, b.x1, b.y1)


class BoxAlgebra(Check):
    id = "C01"
    files = ("coral/bbox.py",)
    quick, thorough = 100000, 2000000
    rule = ("random boxes and point sequences (small lattices, negative, huge, "
            "fractional, degenerate; lists, tuples, iterators); every operation "
            "is compared with the point-set meaning; non-trivial: at least one "
            "box of non-zero area or two points")
    required = ("tight", "union", "intersection", "membership", "collision",
                "transform", "identity")

    def num(self, r, kind):
        if kind == "lattice":
            return r.randint(-4, 5)
        if kind == "int":
            return r.integer(-1000, 1000)
        if kind == "big":
            return r.randint(-10**12, 10**12)
        if kind == "huge":
            return float(r.randint(-999, 999)) * 1e152
        if kind == "small":
            return r.randint(-999, 999) * 1e-137
        if kind == "half":
            return r.randint(-64, 64) / 4
        return r.real(-400, 400)

    def box(self, r, kind):
        u = r.random()
        if u < 0.08:
            return (0, 0, 0, 0)
        x0, x1 = sorted((self.num(r, kind), self.num(r, kind)))
        y0, y1 = sorted((self.num(r, kind), self.num(r, kind)))
        if u < 0.14:
            x1 = x0
        elif u < 0.20:
            y1 = y0
        elif u < 0.23:
            x1, y1 = x0, y0
        return (x0, y0, x1, y1)

    def gen(self, r):
        kind = r.choice(("lattice", "lattice", "int", "big", "half", "real", "huge" if r.chance(0.5) else "small"))
        pts = [(self.num(r, kind), self.num(r, kind)) for _ in range(1 + r.size(60))]
        if r.chance(0.2):
            pts.sort(reverse=r.chance(0.5))
        if r.chance(0.1):
            pts = [p for p in pts for _ in range(2)]
        a, b, c = (self.box(r, kind) for _ in range(3))
        u = r.random()
        if u < 0.15:        # b inside, or sharing an edge or corner with a
            b = (a[0], a[1], r.choice((a[2], b[2])), r.choice((a[3], b[3])))
        elif u < 0.3:
            b = (a[2], b[1], a[2] + abs(b[2]) + 1, b[3])
        b = (min(b[0], b[2]), min(b[1], b[3]), max(b[0], b[2]), max(b[1], b[3]))
        return {"kind": kind, "pts": pts, "a": a, "b": b, "c": c,
                "d": (self.num(r, kind), self.num(r, kind)),
                "k": r.choice((1, 2, 0.5, 4, 3, 0.25, 1.5, r.real(0.01, 50))),
                "src": r.choice(("list", "tuple", "iter", "gen"))}

    larges = (300, 5000, 70000)

    def large(self, n):
        r = Gen("points %d" % n)
        c = self.gen(r)
        c["pts"] = [(self.num(r, "int") + 7, r.real(-400, 400)) for _ in range(n)] + [(-10**7, 3), (10**7, 5), (0, -10**9)]
        return c

    def nontrivial(self, c):
        return len(c["pts"]) > 1 or c["a"][0] != c["a"][2]

    def check(self, c, mon):
        B = bbox.BBox
        mk = lambda t: B((t[0], t[1]), (t[2], t[3]))
        # construction is tight
        pts = c["pts"]
        src = {"list": lambda: list(pts), "tuple": lambda: tuple(pts),
               "iter": lambda: iter(pts), "gen": lambda: (p for p in pts)}[c["src"]]()
        t = B(src)
        want = (min(p[0] for p in pts), min(p[1] for p in pts),
                max(p[0] for p in pts), max(p[1] for p in pts))
        expect(corners(t) == want, "box of points {} is {}, tightest is {}",
               pts, corners(t), want)
        mon.ev("tight")
        a, b, d = mk(c["a"]), mk(c["b"]), mk(c["c"])
        empty = B()
        expect(corners(empty) == (0, 0, 0, 0), "BBox() is {}", corners(empty))

        def hull(*ts):
            ts = [t for t in ts if t != (0, 0, 0, 0)]
            if not ts:
                return (0, 0, 0, 0)
            return (min(t[0] for t in ts), min(t[1] for t in ts),
                    max(t[2] for t in ts), max(t[3] for t in ts))
        ta, tb, td = c["a"], c["b"], c["c"]
        for got, w, what in ((a | b, hull(ta, tb), "a|b"), (b | a, hull(tb, ta), "b|a"),
                             ((a | b) | d, hull(ta, tb, td), "(a|b)|c"),
                             (a | (b | d), hull(ta, tb, td), "a|(b|c)"),
                             (a | a, ta, "a|a"), (a | empty, ta, "a|empty"),
                             (empty | a, ta, "empty|a"),
                             (a | None if a != empty else a, ta, "a|None")):
            expect(corners(got) == w, "{} of a={} b={} c={}: {} instead of {}",
                   what, ta, tb, td, corners(got), w)
        mon.ev("union")
        # intersection: the common part of positive area, else the empty box
        x0, y0 = max(ta[0], tb[0]), max(ta[1], tb[1])
        x1, y1 = min(ta[2], tb[2]), min(ta[3], tb[3])
        w = (x0, y0, x1, y1) if x0 < x1 and y0 < y1 else (0, 0, 0, 0)
        for got, what in ((a & b, "a&b"), (b & a, "b&a")):
            expect(corners(got) == w, "{} of a={} b={}: {} instead of {}", what,
                   ta, tb, corners(got), w)
        mon.ev("intersection")
        # membership is half-open
        xs = sorted({ta[0], ta[2], tb[0], tb[2], (ta[0] + ta[2]) / 2, c["d"][0]})
        ys = sorted({ta[1], ta[3], tb[1], tb[3], (ta[1] + ta[3]) / 2, c["d"][1]})
        for x in xs:
            for y in ys:
                w = ta[0] <= x < ta[2] and ta[1] <= y < ta[3]
                expect(a.has_point((x, y)) == w and ((x, y) in a) == w,
                       "point {} in box {}: {}", (x, y), ta, not w)
                expect((Spot(x, y) in a) == w, "point {} in box {}: {}", Spot(x, y), ta, not w)
        # a hair inside and outside
        if ta[0] < ta[2] and ta[1] < ta[3]:
            hair = [(x, y) for x in (ta[0], math.nextafter(ta[0], -math.inf), math.nextafter(ta[2], -math.inf), ta[2])
                    for y in (ta[1], math.nextafter(ta[1], -math.inf), math.nextafter(ta[3], -math.inf), ta[3])]
            for x, y in hair:
                w = ta[0] <= x < ta[2] and ta[1] <= y < ta[3]
                expect(a.has_point((x, y)) == w, "point {} in box {}: {}", (x, y), ta, not w)
            for x, y in hair:
                w = x < ta[2] and y < ta[3]
                n = B((x, y), (ta[2] + 1 + abs(ta[2]), ta[3] + 1 + abs(ta[3])))
                expect(bool(a.collide(n)) == w and bool(n.collide(a)) == w,
                       "{} and {} collide: {}", ta, corners(n), not w)
                expect((corners(a & n) != (0, 0, 0, 0)) == w or (ta[2] - x) * (ta[3] - y) < 1e-300, "{} and {} collide: {}",
                       ta, corners(n), not w)
            mon.ev("a hair")
        w = (ta[0] <= tb[0] and tb[2] < ta[2] and ta[1] <= tb[1] and tb[3] < ta[3])
        expect(a.has_bbox(b) == w and (b in a) == w, "box {} in box {}: {}",
               tb, ta, not w)
        for bad in (3, "xy", None, (1, 2, 3)):
            raises(TypeError, lambda: bad in a)
        mon.ev("membership")
        if ta[0] < ta[2] and ta[1] < ta[3] and tb[0] < tb[2] and tb[1] < tb[3]:
            w = x0 < x1 and y0 < y1
            expect(bool(a.collide(b)) == w and bool(b.collide(a)) == w,
                   "collide({}, {}) should be {}", ta, tb, w)
            mon.ev("collision")
            if w:
                mon.ev("collision (overlapping)")
        # measures
        wd, ht = ta[2] - ta[0], ta[3] - ta[1]
        expect(a.width() == wd and a.height() == ht and a.area() == wd * ht,
               "measures of {}: {} {} {}", ta, a.width(), a.height(), a.area())
        dg = math.hypot(wd, ht)
        expect(abs(a.hypot() - dg) <= 1e-12 * dg, "diagonal of {}", ta)
        cx, cy = a.center()
        mx, my = max(abs(ta[0]), abs(ta[2])), max(abs(ta[1]), abs(ta[3]))
        expect(abs(cx - (ta[0] + wd / 2)) <= 1e-14 * mx and abs(cy - (ta[1] + ht / 2)) <= 1e-14 * my,
               "center of {}: {}", ta, (cx, cy))
        expect(bool(a) == (wd * ht != 0), "truth of {}", ta)
        # order is by area
        ar = (tb[2] - tb[0]) * (tb[3] - tb[1])
        expect((a < b) == (wd * ht < ar) and (b < a) == (ar < wd * ht),
               "order of {} and {}", ta, tb)
        # transforms
        dx, dy = c["d"]
        m = a + (dx, dy)
        expect(corners(m) == (ta[0] + dx, ta[1] + dy, ta[2] + dx, ta[3] + dy)
               and corners(a.translate(dx, dy)) == corners(m),
               "{} + {}: {}", ta, (dx, dy), corners(m))
        m = a - (dx, dy)
        expect(all(close(g, w, 1e-12, 1e-12) for g, w in zip(
            corners(m), (ta[0] - dx, ta[1] - dy, ta[2] - dx, ta[3] - dy))),
            "{} - {}: {}", ta, (dx, dy), corners(m))
        k = c["k"]
        tol = 1e-14 * (1 + k + 1 / k)
        for got, f in ((a * k, k), (a.scale(k), k), (a / k, 1 / k)):
            w = (cx - wd * f / 2, cy - ht * f / 2, cx + wd * f / 2, cy + ht * f / 2)
            expect(all(abs(g - h) <= tol * m for g, h, m in zip(corners(got), w, (mx, my) * 2)),
                   "{} scaled by {}: {} instead of {}", ta, f, corners(got), w)
        mon.ev("transform")
        # identity: equality is coordinate equality, and hash follows it
        cp = a.copy()
        expect(cp is not a and cp == a and hash(cp) == hash(a) and not (cp != a),
               "copy of {}: {}", ta, corners(cp))
        fl = mk(tuple(map(float, ta)))
        expect((fl == a) == (tuple(map(float, ta)) == ta), "{} vs its float twin", ta)
        if fl == a:
            expect(hash(fl) == hash(a), "equal boxes with different hashes: {}", ta)
        expect((a == b) == (ta == tb) and (a != b) == (ta != tb),
               "{} == {}: {}", ta, tb, a == b)
        for x in (ta, None, 5, "x"):
            expect((a == x) is False and (a != x) is True, "{} equals {!r}", ta, x)
        raises(Exception, B, (0, 0), (1, 1), (2, 2))
        for i in range(4):      # one coordinate apart
            s = list(ta)
            v = s[i] + 1
            s[i] = -1 if s[i] == -2 else -2 if s[i] == -1 else math.nextafter(v, math.inf) if v == s[i] else v
            expect(mk(s) != a, "{} equals {}", s, ta)
            s[i] = math.nextafter(ta[i], math.inf)
            expect(mk(s) != a and not mk(s) == a, "{} equals {}", s, ta)
        cp.x0 = cp.x0 - 7
        expect(corners(a) == ta and corners(b) == tb and corners(d) == td,
               "an operation changed its operand: {} {} {}", corners(a), corners(b), corners(d))
        e = eval(repr(mk(ta)), {"BBox": B})
        expect(corners(e) == ta, "repr of {} reads back as {}", ta, corners(e))
        mon.ev("identity")


class BoundedDeque(Check):
    id = "C02"
    files = ("coral/coord.py",)
    quick, thorough = 20000, 300000
    rule = ("random operation histories (push, pop, peek, shift, isempty, isfull, str) "
            "of up to 400 steps on buffers of 1 to 256 places with unique values, "
            "checked step by step against a list; non-trivial: at least 4 steps")
    required = ("push", "pop", "peek", "shift", "refused push on full",
                "refused on empty", "wrapped around", "drained", "refused size")

    def gen(self, r):
        n = 1 << r.randint(0, r.choice((2, 3, 3, 4, 8)))
        ops, bias = [], r.random()
        steps = r.choice((10, 40, 120, 400))
        for i in range(steps):
            if i % 37 == 0:
                bias = r.random()
            u = r.random()
            if u < 0.06:
                ops.append("?")
            elif r.random() < bias:
                ops.append("+")
            else:
                ops.append(r.choice("-<<-^"))
        return {"n": n, "ops": "".join(ops)}

    def nontrivial(self, c):
        return len(c["ops"]) > 3

    def check(self, c, mon):
        n = c["n"]
        b, what = coord.Buffer(n), short(c["ops"])
        ref, nxt, pushed = collections.deque(), 0, 0
        expect(repr(b) == "Buffer(%d)" % n, "repr of a buffer of {} is {}", n, b)
        if n > 2:
            raises(AssertionError, coord.Buffer, n - 1)
            raises(AssertionError, coord.Buffer, n + n // 2)
            mon.ev("refused size")

        def state():
            expect(bool(b.isempty()) == (not ref), "isempty wrong with {} held of {}", len(ref), n)
            expect(bool(b.isfull()) == (len(ref) == n), "isfull wrong with {} held of {}", len(ref), n)

        state()
        for i, o in enumerate(c["ops"]):
            if o == "+":
                v = ("v", nxt)
                nxt += 1
                if len(ref) == n:
                    raises(AssertionError, b.push, v)
                    mon.ev("refused push on full")
                else:
                    b.push(v)
                    ref.append(v)
                    pushed += 1
                    mon.ev("push")
                    if pushed > n:
                        mon.ev("wrapped around")
            elif o in "-^<":
                f, name = {"-": (b.pop, "pop"), "^": (b.peek, "peek"), "<": (b.shift, "shift")}[o]
                if not ref:
                    raises(AssertionError, f)
                    mon.ev("refused on empty")
                else:
                    w = ref[0] if o == "<" else ref[-1]
                    g = f()
                    expect(g == w, "step {} of {} on Buffer({}): {} gave {} instead of {}", i, what, n, name, g, w)
                    if o == "-":
                        ref.pop()
                    elif o == "<":
                        ref.popleft()
                    mon.ev(name)
            else:
                w = "<" + " ".join(map(str, ref)) + ">"
                expect(str(b) == w, "step {} of {} on Buffer({}): str is {} instead of {}",
                       i, what, n, short(str(b)), short(w))
            state()
        while ref:
            g = b.shift()
            w = ref.popleft()
            expect(g == w, "drain of {} on Buffer({}): {} instead of {}", what, n, g, w)
        state()
        mon.ev("drained")

    larges = (9, 10, 11, 12, 13, 16, 17)

    def large(self, k):
        n = 1 << k
        if k > 13:
            return {"n": n, "ops": "+" * (n + 3) + "<" * (n // 2) + "+" * (n // 2 + 3) + "-" * (n // 4) + "+" * 9 + "<" * 9 + "^?"}
        return {"n": 1 << k, "ops": "+" * (2 << k) + "<" * (2 << k) + "+-" * 5 + "+" * (1 << k) + "?" + "-" * (1 << k)
                + "++<" * (1 << k) + "<+" * (1 << k) + "--+" * (1 << k)}

    def fixed(self, tier):
        return [{"n": 1 << k, "ops": "+" * (2 << k) + "<" * (2 << k) + "+-" * 5 + "+" * (1 << k) + "?" + "-" * (1 << k)}
                for k in range(9)]


NAMES = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE",
         "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]


class Compass(Check):
    id = "C05"
    files = ("coral/coord.py",)
    quick, thorough = 200000, 4000000
    rule = ("bearings over several turns of both signs, dense around the 16 sector "
            "borders, plus pairs of points whose bearing is known; non-trivial: all")
    required = ("sector", "hour", "east-west", "full turn")

    def fixed(self, tier):
        out = [{"b": float(k)} for k in range(-720, 1081, 5)]
        out += [{"b": k * 22.5 + e} for k in range(-33, 50) for e in (0.0, 11.24, -11.24, 11.26 - 22.5)]
        return out

    def gen(self, r):
        if r.chance(0.3):
            k = r.randint(-16, 32)
            return {"b": k * 22.5 + r.choice((11.25, -11.25)) + r.choice((1, -1)) * 10 ** r.uniform(-11, -1)}
        if r.chance(0.1):
            return {"b": r.integer(-359, 720)}
        if r.chance(0.1):
            # a hair beside a direction
            k = r.randint(-15, 32)
            return {"b": r.choice((k * 22.5, k * 22.5, 0, 0, 360)) + r.choice((1, -1)) * 10 ** r.uniform(-25, -7)}
        return {"b": r.real(-359.9, 1000)}

    def check(self, c, mon):
        # Bearings grow counterclockwise from north; a compass point is the
        # one of the 16 directions nearest to the bearing.
        b = c["b"]
        g = coord.bearing2cardinal(b)
        expect(g in NAMES, "bearing {} is called {!r}", b, g)
        k = NAMES.index(g)                  # clockwise index
        diff = (b + 22.5 * k + 180) % 360 - 180
        expect(abs(diff) <= 11.25 + 3e-12, "bearing {} is called {}, {} degrees away", b, g, diff)
        mon.ev("sector")
        h = coord.bearing2hours(b)
        expect(0 < h <= 12 + 1e-12, "bearing {} is {} o'clock", b, h)
        d = (h * 30 + b + 180) % 360 - 180
        expect(abs(d) < 1e-11, "bearing {} is {} o'clock, {} degrees away", b, h, d)
        mon.ev("hour")
        if abs(abs(diff) - 11.25) > 1e-11:
            expect(coord.bearing2cardinal(b + 360) == g and
                   (b < 0 or coord.bearing2cardinal(b - 360) == g),
                   "bearing {} and {}, a turn apart, have different names", b, b + 360)
            mon.ev("full turn")
        # the direction of travel that has this bearing
        rad = math.radians(b)
        e = 1e-3
        lon, lat = -math.sin(rad) * e, math.cos(rad) * e   # ccw: east is -90
        bb = coord.bearing(0, 0, lon, lat)
        d = (bb - b + 180) % 360 - 180
        expect(abs(d) < 1e-3, "travelling towards {} from (0,0) has bearing {}, expected {}",
               (lon, lat), bb, b)
        mon.ev("east-west")
