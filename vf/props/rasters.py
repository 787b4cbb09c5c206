"""Raster canvases: the pixel store, lines and polygon fills."""
import math
import os
from fractions import Fraction as Fr

from vf.core import Check, Violation, Skip, Gen, expect, short
from coral import raster

KINDS = ("bw", "gray", "color")


def make(kind, w, h, bg):
    cls = {"bw": raster.BWCanvas, "gray": raster.GrayCanvas, "color": raster.ColorCanvas}[kind]
    return cls(w, h) if bg is None else cls(w, h, bg)


def default(kind):
    return {"bw": 0, "gray": 255, "color": (255, 255, 255)}[kind]


def draw_level(r):
    return r.choice((0, 255, 1, 254, 127, 128)) if r.chance(0.4) else r.randint(0, 255)


def draw_plain(r, kind):
    if kind == "bw":
        return r.randint(0, 1)
    if kind == "gray":
        return draw_level(r)
    return tuple(draw_level(r) for _ in range(3))


def draw_alpha(r):
    return r.choice((0, 1, 0.5, 0.0, 1.0)) if r.chance(0.4) else r.random()


def draw_size(r):
    w = r.choice((1, 7, 8, 9, 15, 16, 17, 33)) if r.chance(0.5) else r.randint(1, 40)
    return w, r.choice((1, 2, r.randint(1, 30)))


def parts(v):
    return v if isinstance(v, tuple) else (v,)


def parse_pnm(data):
    """(magic, width, height, pixels) of a binary PBM, PGM or PPM file."""
    pos = 0

    def token():
        nonlocal pos
        while True:
            while data[pos:pos + 1].isspace():
                pos += 1
            if data[pos:pos + 1] != b"#":
                break
            while data[pos:pos + 1] not in (b"\n", b""):
                pos += 1
        a = pos
        while pos < len(data) and not data[pos:pos + 1].isspace():
            pos += 1
        return data[a:pos]
    magic = token()
    w, h = int(token()), int(token())
    top = 1 if magic == b"P4" else int(token())
    expect(data[pos:pos + 1].isspace(), "the header does not end with white space: {!r}", data[:40])
    body = data[pos + 1:]
    if magic == b"P4":
        n = (w + 7) // 8
        expect(len(body) == n * h, "{} bytes of pixels instead of {}", len(body), n * h)
        px = [(body[y * n + x // 8] >> (7 - x % 8)) & 1 for y in range(h) for x in range(w)]
    else:
        expect(top == 255, "the highest level is {}", top)
        k = {b"P5": 1, b"P6": 3}[magic]
        expect(len(body) == w * h * k, "{} bytes of pixels instead of {}", len(body), w * h * k)
        px = [body[i] if k == 1 else tuple(body[i:i + 3]) for i in range(0, len(body), k)]
    return magic.decode(), w, h, px


def pixels(cvs):
    return [cvs[x, y] for y in range(cvs.height) for x in range(cvs.width)]


class Pixels(Check):
    id = "C33"
    files = ("coral/raster.py",)
    quick, thorough = 8000, 300000
    rule = ("bilevel, gray and colour canvases of 1 to 40 by 1 to 30 pixels (widths around multiples of 8) with every kind of "
            "background, hundreds of plain and blended writes interleaved between two canvases, read back pixel by pixel and "
            "through an independent PNM parser; non-trivial: at least one write")
    required = ("pixel kept", "neighbours untouched", "opaque blend", "transparent blend", "blend between", "P4 saved",
                "P5 saved", "P6 saved", "width not a multiple of 8", "default background", "two canvases")

    def gen(self, r):
        cs = []
        for _ in range(r.choice((1, 2))):
            k = r.choice(KINDS)
            w, h = draw_size(r)
            cs.append((k, w, h, None if r.chance(0.25) else draw_plain(r, k)))
        ops = []
        for _ in range(r.choice((0, 3, 30, 200))):
            i = r.randrange(len(cs))
            k, w, h, bg = cs[i]
            v = draw_plain(r, k)
            if k != "bw" and r.chance(0.5):
                v = parts(v) + (draw_alpha(r),)
                if r.chance(0.2):       # levels between two levels
                    v = tuple(u if r.chance(0.3) else r.choice((r.uniform(0, 255), min(u, 254) + r.choice((0.25, 0.5, 0.75)))) for u in v[:-1]) + v[-1:]
            elif k == "bw" and r.chance(0.2):
                v = bool(v) if r.chance(0.5) else v * 255
            x = r.choice((0, w - 1)) if r.chance(0.2) else r.randrange(w)
            ops.append((i, x, r.randrange(h), v))
        return {"cs": cs, "ops": ops, "look": r.chance(0.3)}

    larges = (("gray", 1100, 1000), ("bw", 1030, 1100), ("color", 600, 601), ("bw", 70000, 3), ("bw", 3, 70000), ("bw", 1030, 300), ("gray", 66000, 2), ("gray", 2, 66000),
              ("color", 30000, 3), ("color", 3, 30000), ("color", 1001, 70))

    def large(self, what):
        kind, w, h = what
        r = Gen("canvas %s %d %d" % what)
        ops = []
        for _ in range(300):
            v = draw_plain(r, kind)
            if kind != "bw" and r.chance(0.4):
                v = parts(v) + (draw_alpha(r),)
            x, y = (r.choice((0, n - 1, n // 2, r.randrange(n), min(n - 1, r.choice((255, 256, 1000, 1023, 1024, 32768, 65535, 65536)))))
                    for n in (w, h))
            if (x, y) != (w - 1, h - 1) or _ == 299:
                ops.append((0, x, y, v))
        ops.append((0, w - 1, h - 1, draw_plain(r, kind)))
        return {"cs": [(kind, w, h, draw_plain(r, kind))], "ops": ops, "look": False}

    def nontrivial(self, c):
        return bool(c["ops"])

    def check(self, c, mon):
        cvs = [make(*a) for a in c["cs"]]
        want = [[default(k) if bg is None else bg] * (w * h) for k, w, h, bg in c["cs"]]
        for i, v in enumerate(cvs):
            k, w, h, bg = c["cs"][i]
            expect((v.width, v.height) == (w, h), "size is {}", (v.width, v.height))
            expect(pixels(v) == want[i], "a blank canvas {} holds {}", c["cs"][i], short(pixels(v)))
            mon.ev("default background", bg is None)
        mon.ev("two canvases", len(cvs) > 1)
        for i, x, y, val in c["ops"]:
            k, w, h, bg = c["cs"][i]
            at = y * w + x
            old = want[i][at]
            cvs[i][x, y] = val
            got = cvs[i][x, y]
            if k == "bw":
                expect(got == (1 if val else 0) and got in (0, 1), "pixel {} set to {} reads {}", (x, y), val, got)
                mon.ev("pixel kept")
            elif len(parts(val)) in (2, 4):
                *fg, a = val
                for o, f, g in zip(parts(old), fg, parts(got)):
                    self.blended(o, f, a, g, mon)
                expect(len(parts(got)) == len(fg), "pixel reads {}", got)
            else:
                expect(got == val, "pixel {} set to {} reads {}", (x, y), val, got)
                mon.ev("pixel kept")
            want[i][at] = got
            if c["look"] or (x, y) == (w - 1, h - 1):
                for j, v in enumerate(cvs):
                    p = pixels(v)
                    if p != want[j]:
                        bad = next(n for n in range(len(p)) if p[n] != want[j][n])
                        raise Violation("writing {} at {} of canvas {} changed pixel {} of canvas {} from {} to {}".format(
                            val, (x, y), i, (bad % v.width, bad // v.width), j, want[j][bad], p[bad]))
                mon.ev("neighbours untouched")
        d = mon.dir()
        for i, v in enumerate(cvs):
            expect(pixels(v) == want[i], "canvas {} holds other pixels than were written", c["cs"][i])
            path = os.path.join(d, "a.pnm")
            with open(path, "wb") as f:
                f.write(b"something longer than the image, perhaps" * (i * 100))
            for again in range(2):
                v.save(path)
                with open(path, "rb") as f:
                    magic, w, h, px = parse_pnm(f.read())
                expect(magic == {"bw": "P4", "gray": "P5", "color": "P6"}[c["cs"][i][0]], "format is {}", magic)
                expect((w, h) == (v.width, v.height), "the file is {} by {}", w, h)
                expect(px == want[i], "the file of {} holds other pixels", c["cs"][i])
            mon.ev(magic + " saved")
            mon.ev("width not a multiple of 8", magic == "P4" and w % 8 != 0)
            expect(pixels(v) == want[i], "saving changed the canvas")

    def blended(self, o, f, a, g, mon):
        ideal = Fr(o) * (1 - Fr(a)) + Fr(f) * Fr(a)
        expect(abs(g - ideal) <= Fr(1, 2) + Fr(1, 10**6), "{} over {} with opacity {} gives {}, not {}", f, o, a, g, float(ideal))
        expect(math.floor(min(o, f)) <= g <= math.ceil(max(o, f)), "{} over {} with opacity {} gives {}", f, o, a, g)
        if a == 1:
            expect(g == f or f != int(f), "opaque {} over {} gives {}", f, o, g)
            mon.ev("opaque blend")
        elif a == 0:
            expect(g == o, "transparent {} over {} gives {}", f, o, g)
            mon.ev("transparent blend")
        else:
            mon.ev("blend between")


def paint(r, kind, w, h):
    """What is on the canvas before drawing."""
    if r.chance(0.5):
        return None
    return [draw_plain(r, kind) for _ in range(w * h)] if r.chance(0.5) else [draw_plain(r, kind)] * (w * h)


def prepared(kind, w, h, back):
    cvs = make(kind, w, h, None)
    if back is not None:
        for i, v in enumerate(back):
            cvs[i % w, i // w] = v
    return cvs


class Lines(Check):
    id = "C34"
    files = ("coral/raster.py",)
    quick, thorough = 20000, 800000
    rule = ("plain and anti-aliased segments between every pair of relative positions (all octants, horizontal, vertical, "
            "diagonal, one pixel, borders of the canvas, fractional ends) over blank and painted canvases, and polygon outlines of "
            "1 to 8 vertices; every pixel of the canvas is compared; non-trivial: segments of two pixels or more")
    required = ("plain line", "anti-aliased line", "fractional ends", "zero length", "steep", "on the border", "outline",
                "outline: mode by canvas", "outline: mode forced", "horizontal or vertical", "over a painted canvas")

    def gen(self, r):
        w, h = r.choice(((1, 1), (12, 12), (40, 3), (3, 40), (r.randint(1, 60), r.randint(1, 60)), (150, 130)))
        mode = r.choice(("line", "line", "aa", "aa", "aa fractional", "outline"))
        kind = r.choice(KINDS) if mode in ("line", "outline") else r.choice(KINDS[1:])
        if mode == "aa fractional":
            w, h = max(w, 5), max(h, 5)

        def pt():
            if mode == "aa fractional":
                f = lambda n: r.choice((1, 1.5, n - 3, 2.25, 2.75)) if r.chance(0.2) else r.uniform(1, n - 3)
                return f(w), f(h)
            f = lambda n: r.choice((0, n - 1)) if r.chance(0.2) else r.randrange(n)
            return f(w), f(h)
        pts = [pt() for _ in range(r.randint(1, 8) if mode == "outline" else 2)]
        if mode != "outline" and r.chance(0.3):
            (x, y), (u, v) = pts
            pts = r.choice(([(x, y), (x, v)], [(x, y), (u, y)], [(x, y), (x, y)]))
        if mode in ("line", "aa") and r.chance(0.15):   # a diagonal
            n = r.randrange(min(w, h))
            x, y = r.randrange(w - n), r.randrange(h - n)
            pts = r.choice(([(x, y), (x + n, y + n)], [(x + n, y), (x, y + n)]))
            if r.chance(0.5):
                pts.reverse()
        return {"mode": mode, "kind": kind, "w": w, "h": h, "pts": pts, "color": draw_plain(r, kind),
                "tuple": r.chance(0.3), "back": paint(r, kind, w, h), "aa": r.choice((None, None, True, False)),
                "type": r.choice(("list", "tuples"))}

    larges = tuple((mode, w, h) for mode in ("line", "aa", "aa fractional", "outline") for w, h in ((6000, 5), (5, 6000), (800, 600)))

    def large(self, what):
        mode, w, h = what
        r = Gen("line %s %d %d" % what)
        kind = {5: "gray", 600: "color", 6000: "bw"}[h] if mode == "line" else "color" if h == 5 else "gray"
        if mode == "outline":
            pts = [(r.randrange(w), r.randrange(h)) for _ in range(40)]
        elif mode == "aa fractional":
            pts = [(1.25, h - 3.5), (w - 3.25, 1.75)]
        else:
            pts = [(0, h - 1), (w - 1, 0)]
        return {"mode": mode, "kind": kind, "w": w, "h": h, "pts": pts, "color": draw_plain(r, kind), "tuple": False, "back": None,
                "aa": None, "type": "list"}

    def nontrivial(self, c):
        return len(set(c["pts"])) > 1

    def check(self, c, mon):
        kind, w, h = c["kind"], c["w"], c["h"]
        cvs = prepared(kind, w, h, c["back"])
        before = pixels(cvs)
        mon.ev("over a painted canvas", c["back"] is not None)
        color = c["color"]
        if kind == "bw" and c["back"] is None:
            color = 1
        if c["mode"] == "outline":
            return self.outline(c, cvs, color, mon)
        a, b = c["pts"]
        if c["mode"] == "line":
            cvs.line(a, b, color)
            return self.plain(a, b, color, before, cvs, mon)
        ends = {(self.half_up(a[k]), self.half_up(b[k])) for k in (0, 1)}
        steep = abs(a[1] - b[1]) > abs(a[0] - b[0])
        if a != b and self.half_up(a[steep]) == self.half_up(b[steep]):
            raise Skip      # within one pixel column
        cvs.aaline(a, b, (color,) if kind == "gray" and c["tuple"] else color)
        self.smooth(a, b, color, before, cvs, mon)
        mon.ev("fractional ends", c["mode"] == "aa fractional")

    @staticmethod
    def half_up(x):
        return int(x + 0.5)

    def plain(self, a, b, color, before, cvs, mon):
        w = cvs.width
        dx, dy = abs(b[0] - a[0]), abs(b[1] - a[1])
        after = pixels(cvs)
        # The color may be there already: draw once more over its negative.
        bg = tuple(255 - v for v in color) if isinstance(color, tuple) else 1 - color if isinstance(cvs, raster.BWCanvas) else 255 - color
        blank = type(cvs)(w, cvs.height, bg)
        blank.line(a, b, color)
        touched = {(i % w, i // w) for i, v in enumerate(pixels(blank)) if v != bg}
        want = [color if (i % w, i // w) in touched else v for i, v in enumerate(before)]
        expect(after == want, "the pixels of a line from {} to {} depend on what was painted", a, b)
        expect(all(v in (bg, color) for v in pixels(blank)), "a line of {} over {} paints other colours", color, bg)
        self.path(a, b, touched)
        mon.ev("plain line")
        mon.ev("steep", dy > dx)
        mon.ev("zero length", a == b)
        mon.ev("horizontal or vertical", a != b and 0 in (dx, dy))
        mon.ev("on the border", any(p[0] in (0, w - 1) or p[1] in (0, cvs.height - 1) for p in (a, b)))

    def path(self, a, b, touched):
        dx, dy = abs(b[0] - a[0]), abs(b[1] - a[1])
        expect(a in touched and b in touched, "a line from {} to {} misses its ends: {}", a, b, short(sorted(touched)))
        expect(len(touched) == max(dx, dy) + 1, "a line from {} to {} has {} pixels", a, b, len(touched))
        for x, y in touched:
            expect(min(a[0], b[0]) <= x <= max(a[0], b[0]) and min(a[1], b[1]) <= y <= max(a[1], b[1]),
                   "a line from {} to {} paints {}", a, b, (x, y))
            # The distance to the segment along the shorter axis, times the longer.
            off = abs((x - a[0]) * (b[1] - a[1]) - (y - a[1]) * (b[0] - a[0]))
            expect(2 * off <= max(dx, dy), "a line from {} to {} paints {}, {} pixels away", a, b, (x, y), off / max(dx, dy, 1))
        if a != b:
            major = 0 if dx >= dy else 1
            run = sorted(touched, key=lambda p: p[major])
            for p, q in zip(run, run[1:]):
                expect(q[major] - p[major] == 1 and abs(p[1 - major] - q[1 - major]) <= 1, "a line from {} to {} jumps from {} to {}", a, b, p, q)

    def smooth(self, a, b, color, before, cvs, mon):
        w, h = cvs.width, cvs.height
        steep = abs(b[1] - a[1]) > abs(b[0] - a[0])
        (x0, y0), (x1, y1) = (p[::-1] if steep else p for p in (a, b))
        if x0 > x1:
            x0, y0, x1, y1 = x1, y1, x0, y0
        alpha = {}
        if a != b:
            g = Fr(y1 - y0) / Fr(x1 - x0) if isinstance(x0, int) else Fr(y1 - y0) / Fr(x1 - x0)
            first, last = self.half_up(x0), self.half_up(x1)
            for x in range(first, last + 1):
                y = Fr(y0) + g * (x - Fr(x0))
                cover = Fr(1)
                if x == first:
                    cover = 1 - (Fr(x0) + Fr(1, 2) - first)
                elif x == last:
                    cover = Fr(x1) + Fr(1, 2) - last
                lo = y.numerator // y.denominator
                for iy in (lo, lo + 1):
                    p = (iy, x) if steep else (x, iy)
                    if 0 <= p[0] < w and 0 <= p[1] < h:
                        alpha[p] = cover * (1 - abs(y - iy))
        for i, (old, new) in enumerate(zip(before, pixels(cvs))):
            p = (i % w, i // w)
            al = alpha.get(p)
            if al is None:
                expect(old == new, "a line from {} to {} changes {} from {} to {}", a, b, p, old, new)
                continue
            for o, n, f in zip(parts(old), parts(new), parts(color)):
                ideal = o * (1 - al) + f * al
                expect(abs(n - ideal) <= 0.5 + 1e-6, "a line of {} from {} to {} turns {} at {} into {}, not {}",
                       color, a, b, old, p, new, float(ideal))
        mon.ev("anti-aliased line")
        mon.ev("steep", steep)
        mon.ev("zero length", a == b)
        mon.ev("horizontal or vertical", a != b and (a[0] == b[0] or a[1] == b[1]))

    def outline(self, c, cvs, color, mon):
        kind, pts = c["kind"], list(c["pts"])
        aa = c["aa"] if kind != "bw" else r_none(c["aa"])
        given = list(pts)
        if aa is None:
            cvs.strokepolygon(given, color)
            mon.ev("outline: mode by canvas")
        else:
            cvs.strokepolygon(given, color, aa)
            mon.ev("outline: mode forced")
        expect(given == pts, "the vertices were changed to {}", given)
        smooth = aa if aa is not None else kind != "bw"
        if not smooth:
            ref = prepared(kind, c["w"], c["h"], c["back"])
            for p, q in zip(pts, pts[1:] + pts[:1]):
                ref.line(p, q, color)
            expect(pixels(cvs) == pixels(ref), "the outline of {} is not that of its sides", pts)
        else:
            ref = prepared(kind, c["w"], c["h"], c["back"])
            for p, q in zip(pts, pts[1:] + pts[:1]):
                ref.aaline(p, q, color)
            expect(pixels(cvs) == pixels(ref), "the smooth outline of {} is not that of its sides", pts)
        mon.ev("outline")


def r_none(aa):
    return None if aa else aa


class Fill(Check):
    id = "C35"
    files = ("coral/raster.py",)
    quick, thorough = 15000, 500000
    rule = ("one to four polygons with integer vertices (convex, star-shaped, self-crossing, with repeated vertices, holes of "
            "either direction, horizontal and vertical sides, reaching beyond the left and right borders) filled together with an "
            "opaque or translucent colour; every pixel of the canvas against exact winding numbers; "
            "non-trivial: some pixel has to be filled")
    required = ("filled pixel", "empty pixel", "several polygons", "hole", "overlap with winding two", "clipped left or right",
                "translucent", "down to the last row", "bw", "gray", "color")

    def gen(self, r):
        w, h = r.choice(((10, 10), (r.randint(1, 40), r.randint(1, 40)), (17, 9), (100, 80)))
        kind = r.choice(KINDS)
        polys = []
        for _ in range(r.choice((1, 1, 2, 4))):
            style = r.choice(("free", "free", "box", "nested", "thin", "integer slopes"))
            lo, hi = (0, w) if r.chance(0.7) else (-w, 2 * w)
            X, Y = (lambda: r.randint(lo, hi)), (lambda: r.choice((0, h)) if r.chance(0.15) else r.randint(0, h))
            if style == "box" or (style == "nested" and not polys):
                a, b, c, d = X(), Y(), X(), Y()
                p = [(a, b), (c, b), (c, d), (a, d)]
            elif style == "nested":
                q = polys[-1]
                f = r.choice((1, -1))
                xs, ys = [v[0] for v in q], [v[1] for v in q]
                x0, x1, y0, y1 = min(xs) + 1, max(xs) - 1, min(ys) + 1, max(ys) - 1
                p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)][::f] if x0 < x1 and y0 < y1 else [(X(), Y()) for _ in range(3)]
            elif style == "thin":
                x, y = X(), Y()
                p = [(x, y), (x + r.randint(-2, 2), Y()), (x + r.randint(-2, 2), Y())]
            elif style == "integer slopes":
                n = r.randint(1, max(1, h // 3))
                x, y = X(), r.randint(0, h - n) if n <= h else 0
                k = r.randint(-3, 3)
                p = [(x, y), (x + k * n, min(h, y + n)), (x + 5, min(h, y + n)), (x + 3, y)]
            else:
                p = [(X(), Y()) for _ in range(r.choice((1, 2, 3, 3, 4, 5, 9)))]
            if r.chance(0.1):
                i = r.randrange(len(p))
                p.insert(i, p[i])
            if r.chance(0.15):
                p.append(p[0])
            if r.chance(0.3):
                p.reverse()
            polys.append(p)
        color = draw_plain(r, kind)
        if kind == "bw":
            color = r.choice((1, 1, 0))
        alpha = draw_alpha(r) if kind != "bw" and r.chance(0.3) else None
        return {"w": w, "h": h, "kind": kind, "polys": polys, "color": color, "alpha": alpha, "back": paint(r, kind, w, h)}

    larges = ("vertices", "rows", "columns", "polygons", "windings", "marks")

    def large(self, what):
        r = Gen("fill " + what)
        w, h = {"rows": (9, 5000), "columns": (70000, 3)}.get(what, (300, 250))
        pt = lambda: (r.randint(0, w), r.randint(0, h))
        if what == "windings":      # the same square again and again
            polys = [[(10 + i % 7, 10), (200, 10), (200, 200), (10, 200)] for i in range(600)]
        elif what == "marks":       # a comb of many teeth
            polys = [[p for i in range(0, w - 2, 2) for p in ((i, 0), (i, h), (i + 1, h), (i + 1, 0))]]
        else:
            n, k = {"vertices": (1, 3000), "polygons": (700, 3)}.get(what, (2, 4))
            polys = [[pt() for _ in range(k)] for _ in range(n)]
            if what in ("rows", "columns"):
                polys.append([(0, 0), (w, 0), (w, h), (0, h)])
        kind = {"vertices": "color", "polygons": "gray"}.get(what, "bw")
        return {"w": w, "h": h, "kind": kind, "polys": polys, "color": draw_plain(r, kind) if kind != "bw" else 1, "alpha": None, "back": None}

    def nontrivial(self, c):
        return any(len(set(p)) > 2 for p in c["polys"])

    def winding(self, c, mon):
        """Per row, what the winding number right of each column boundary is:
        a list of (crossing lo, crossing hi, direction)."""
        rows = [[] for _ in range(c["h"])]
        for p in c["polys"]:
            for (x0, y0), (x1, y1) in zip(p, p[1:] + p[:1]):
                if y0 == y1:
                    continue
                s = 1
                if y0 > y1:
                    x0, y0, x1, y1, s = x1, y1, x0, y0, -1
                for y in range(y0, y1):
                    x = Fr(x0) + Fr(x1 - x0) * (y - y0) / (y1 - y0)
                    lo = x.numerator // x.denominator
                    f = x - lo
                    if abs(f - Fr(1, 2)) < Fr(1, 10**6):
                        rows[y].append((lo, lo + 1, s))
                    else:
                        v = lo + (f > Fr(1, 2))
                        rows[y].append((v, v, s))
        return rows

    def check(self, c, mon):
        w, h = c["w"], c["h"]
        cvs = prepared(c["kind"], w, h, c["back"])
        before = pixels(cvs)
        color, alpha = c["color"], c["alpha"]
        scans = None
        given = [list(p) for p in c["polys"]]
        for p in given:
            scans = cvs.scanpolygon(p) if scans is None else cvs.scanpolygon(p, scans)
        expect(given == c["polys"], "the vertices were changed")
        expect(pixels(cvs) == before, "marking the perimeter painted something")
        cvs.fillpolygons(scans, color if alpha is None else parts(color) + (alpha,))
        after = pixels(cvs)
        filled = empty = 0
        for y, marks in enumerate(self.winding(c, mon)):
            lo, hi = {}, {}
            vague = set()
            step = [0] * (w + 1)
            for a, b, s in marks:
                if b > a:
                    vague.add(a)
                if a < w:
                    step[max(a, 0)] += s
            n, twice = 0, False
            for x in range(w):
                n += step[x]
                i = y * w + x
                if abs(n) > 1:
                    twice = True
                if x in vague:
                    continue
                old, new = before[i], after[i]
                if n:
                    filled += 1
                    if alpha is None:
                        ok = new == color
                    else:
                        ok = all(abs(v - (o * (1 - alpha) + f * alpha)) <= 0.5 + 1e-6
                                 for o, v, f in zip(parts(old), parts(new), parts(color)))
                    expect(ok, "pixel {} is inside (winding {}) but turned from {} into {} (fill {} {})", (x, y), n, old, new, color, alpha)
                else:
                    empty += 1
                    expect(new == old, "pixel {} is outside but changed from {} to {}", (x, y), old, new)
            mon.ev("overlap with winding two", twice)
        mon.ev("filled pixel", filled)
        mon.ev("empty pixel", empty)
        mon.ev("several polygons", len(given) > 1)
        mon.ev("translucent", alpha is not None)
        mon.ev(c["kind"])
        allv = [v for p in given for v in p]
        mon.ev("clipped left or right", any(x < 0 or x > w for x, y in allv))
        mon.ev("down to the last row", any(y == h for x, y in allv))
        mon.ev("hole", len(given) > 1 and self.orient(given[0]) * self.orient(given[1]) < 0)

    @staticmethod
    def orient(p):
        return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(p, p[1:] + p[:1]))
