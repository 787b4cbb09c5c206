"""Vector pages: what a PostScript interpreter paints from a saved file."""
import os
import stat
import subprocess
import tempfile
import threading

from vf import ps
from vf.core import Check, Violation, Skip, Gen, expect, raises, close, short, litter
from coral import vector, bbox

TEXT = "abc XYZ 0129 ()\\%/{}[]<>#!'\"-+.,;:~^&*=_|"
FONTS = ("Times-Bold", "Helvetica", "Courier")
ANCHORS = "c t tr r br b bl l tl".split()


def draw_number(r):
    u = r.random()
    if u < 0.4:
        return r.integer(-50, 50)
    if u < 0.5:
        return float(r.randint(-300, 300))
    if u < 0.55:
        return r.choice((1e-07, 1e16, -2.5e-9, 123456789.125, 1e22, 0.1))
    return r.uniform(-500, 500)


def draw_ink(r):
    u = r.random()
    if u < 0.45:
        return r.choice((0, 1, 0.5, 0.0, 1.0, r.random()))
    v = r.choice((0, 1, 0.25))
    if u < 0.5:
        return nearly(r, v)
    if u < 0.55:
        return tuple(nearly(r, v) for _ in range(3))
    if u < 0.65:
        return r.choice(((0, 0, 1), (0, 1, 0), (0, 1, 1), (0.1, 0.2, 0.7), (0.7, 0.1, 0.2), (0.2, 0.1, 0.7)))
    return r.choice(((0, 0, 0), (1, 1, 1), (1, 0, 0), (0.5, 0.5, 0.5), (v, v, v), tuple(r.random() for _ in range(3))))


def nearly(r, v):
    """Sometimes another number, close to it."""
    if r.chance(0.3):
        return abs(v - r.choice((1e-2, 1e-3, 1e-4, 1e-6, 1e-9)))
    return v


def draw_points(r, lo=1, small=True):
    n = r.choice((lo, 2, 3, 4, 5, 12)) if small else r.randint(lo, 200)
    n = max(lo, n)
    if r.chance(0.8):
        x, y = r.uniform(-300, 300), r.uniform(-300, 300)
        pts = [(round(x + r.uniform(-50, 50), r.choice((0, 2))), y + r.uniform(-50, 50)) for _ in range(n)]
    else:
        pts = [(draw_number(r), draw_number(r)) for _ in range(n)]
    if r.chance(0.1) and len(pts) > 1:
        pts = [(pts[0][0], y) for x, y in pts]
    if r.chance(0.15):
        pts.append(pts[0])
    return pts


def draw_call(r):
    k = r.choice(("polygon",) * 5 + ("polyline",) * 3 + ("circle",) * 2 + ("rounded", "text", "text", "image", "image",
                 "gray", "color", "ink", "ink", "width", "width", "dash", "dash", "empty polygon"))
    fill = draw_ink(r) if r.chance(0.6) else None
    stroke = draw_ink(r) if r.chance(0.6) else None
    if k == "polygon":
        return ("polygon", draw_points(r, small=r.chance(0.97)), fill, stroke, r.choice(("list", "gen", "tuple")))
    if k == "polyline":
        return ("polyline", draw_points(r), stroke, r.choice(("list", "gen")))
    if k == "circle":
        return ("circle", (draw_number(r), draw_number(r)), abs(draw_number(r)) + 0.25, fill, stroke)
    if k == "rounded":
        return ("rounded", draw_points(r, 3), r.uniform(0.1, 5), fill, stroke)
    if k == "text":
        return ("text", (draw_number(r), draw_number(r)), r.text(r.randint(1, 12), TEXT), r.choice((8, 10.5, 30)),
                r.choice(FONTS), r.choice(ANCHORS + ["l"]), r.chance(0.3))
    if k == "image":
        w, h = r.randint(1, 9), r.randint(1, 7)
        color = r.chance(0.5)
        data = [r.choice((0, 255, 15, 16, r.randint(0, 255))) for _ in range(w * h * (3 if color else 1))]
        return ("image", data, w, r.choice((None, (r.randint(-90, 90), r.uniform(-9, 9)))), r.choice((None, 1, 2.5, 10)), color,
                r.choice(("list", "bytes")))
    if k == "gray":
        return ("gray", nearly(r, r.choice((0, 1, 0.5, r.random()))))
    if k == "color":
        return ("color", r.choice(((0, 0, 0), (1, 1, 1), tuple(r.random() for _ in range(3)))))
    if k == "ink":
        return ("ink", draw_ink(r))
    if k == "width":
        return ("width", nearly(r, r.choice((1, 0, 2, 0.5, 1.0, r.uniform(0, 9), r.uniform(0, 9), 10 ** r.uniform(-6, 0), 123456789.0125, 10**13 + 1))))
    if k == "dash":
        return ("dash", r.choice(([], [3], [3, 2], [1.5, 2, 3], (4, 1))), r.choice((None, 0, 1, 2.5)))
    return ("polygon", [], fill, stroke, "list")


def intact(call, mine):
    """A list given to the canvas stays the caller's, who may use it again."""
    expect(len(mine) == len(call[1]) and all(a == b for a, b in zip(mine, call[1])),
           "the call {} left {} of the list given", short(call), short(mine))
    if isinstance(mine, list):
        mine.clear()


def do(cvs, call):
    k = call[0]
    if k in ("polygon", "polyline"):
        mine, kind = list(call[1]), call[-1]
        pts = (p for p in mine) if kind == "gen" else tuple(mine) if kind == "tuple" else mine
        kw = {}
        if k == "polygon":
            if call[2] is not None:
                kw["fill"] = call[2]
            if call[3] is not None:
                kw["stroke"] = call[3]
            cvs.addpolygon(pts, **kw)
        else:
            if call[2] is not None:
                kw["stroke"] = call[2]
            cvs.addpolyline(pts, **kw)
        intact(call, mine)
    elif k == "circle":
        cvs.addcircle(call[1], call[2], call[3], call[4])
    elif k == "rounded":
        mine = list(call[1])
        cvs.addroundedpolygon(mine, call[2], call[3], call[4])
        intact(call, mine)
    elif k == "text":
        if call[6]:
            cvs.addtext(call[1], call[2], call[3])
        else:
            cvs.addtext(call[1], call[2], call[3], call[4], call[5])
    elif k == "image":
        data = bytes(call[1]) if call[6] == "bytes" else list(call[1])
        kw = {}
        if call[3] is not None:
            kw["position"] = call[3]
        if call[4] is not None:
            kw["scale"] = call[4]
        cvs.addimage(data, call[2], color=call[5], **kw)
        intact(call, data)
    elif k == "gray":
        cvs.setgray(call[1])
    elif k == "color":
        cvs.setcolor(*call[1])
    elif k == "ink":
        cvs.setink(call[1])
    elif k == "width":
        cvs.setwidth(call[1])
    elif k == "dash":
        p = call[1]
        mine = list(p) if isinstance(p, list) else p
        cvs.setdash(mine) if call[2] is None else cvs.setdash(mine, call[2])
        if isinstance(mine, list):
            mine.append(99)     # the caller may use its list again


def rgb(ink):
    return tuple(map(float, ink)) if isinstance(ink, tuple) else (float(ink),) * 3


class Model:
    """What the calls mean: the paint operations, in order, and the box."""

    def __init__(self, bg):
        self.ink = rgb(bg) if bg is not None else (0.0, 0.0, 0.0)
        self.width, self.dash = 1.0, ((), 0.0)
        self.events = []
        self.box = None
        self.bg = bg

    def copy(self):
        m = Model(self.bg)
        m.__dict__.update(self.__dict__)
        m.events = list(self.events)
        return m

    def cover(self, x0, y0, x1, y1):
        if (x0, y0, x1, y1) == (0, 0, 0, 0):
            raise Skip      # cannot be told from an empty box
        if self.box is None:
            self.box = (x0, y0, x1, y1)
        else:
            a, b, c, d = self.box
            self.box = (min(a, x0), min(b, y0), max(c, x1), max(d, y1))

    def paint(self, path, fill, stroke):
        if fill is not None:
            self.events.append(("fill", path, rgb(fill), None, None))
        if stroke is not None:
            self.events.append(("stroke", path, rgb(stroke), self.width, self.dash))
        if stroke is not None:
            self.ink = rgb(stroke)
        elif fill is not None:
            self.ink = rgb(fill)

    def call(self, c):
        k = c[0]
        if k in ("polygon", "polyline") and not c[1]:
            return
        if k in ("polygon", "polyline", "rounded"):
            xs, ys = zip(*c[1])
            self.cover(min(xs), min(ys), max(xs), max(ys))
        if k == "polygon":
            path = [("M", c[1][0])] + [("L", p) for p in c[1][1:]] + [("Z",)]
            self.paint(path, c[2], c[3])
        elif k == "polyline":
            path = [("M", c[1][0])] + [("L", p) for p in c[1][1:]]
            self.paint(path, None, c[2] if c[2] is not None else self.ink)
        elif k == "circle":
            (x, y), rad = c[1], c[2]
            self.cover(x - rad, y - rad, x + rad, y + rad)
            self.paint([("arc", (x, y), rad, 0, 360), ("Z",)], c[3], c[4])
        elif k == "rounded":
            p = c[1]
            start = ((p[0][0] + p[1][0]) / 2, (p[0][1] + p[1][1]) / 2)
            path = [("M", start)]
            for i in range(1, len(p) + 1):
                nxt = p[(i + 1) % len(p)] if i < len(p) else start
                path.append(("corner", p[i % len(p)], nxt, c[2]))
            path.append(("Z",))
            self.paint(path, c[3], c[4])
        elif k == "text":
            font, anchor = ("Times-Bold", "l") if c[6] else (c[4], c[5])
            self.events.append(("show", c[2], font, c[3], c[1], anchor, self.ink))
        elif k == "image":
            data, w, pos, sc, color = c[1:6]
            n = 3 if color else 1
            h = len(data) // (w * n)
            sc = 1 if sc is None else sc
            x, y = pos or (0, 0)
            self.cover(x, y, x + w * sc, y + h * sc)
            self.events.append(("image", (w, h), bytes(data), n, (x, y, w * sc, h * sc)))
        elif k in ("gray", "color", "ink"):
            self.ink = rgb(c[1])
        elif k == "width":
            self.width = float(c[1])
        elif k == "dash":
            self.dash = (tuple(map(float, c[1])), float(c[2] or 0))


def near(a, b, scale):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b), scale)


class Judge:
    """Compares what was painted with what was meant, under x -> k * x + t."""

    def __init__(self, k, tx, ty, mag):
        self.k, self.tx, self.ty = k, tx, ty
        self.plain = k == 1 and tx == 0 == ty
        self.mag = max(mag * abs(k), abs(tx), abs(ty), 1e-3)

    def at(self, p, q, what, exact=False):
        x, y = p[0] * self.k + self.tx, p[1] * self.k + self.ty
        mag = 0 if self.plain and exact else self.mag      # as given, to the last digits
        expect(near(x, q[0], mag) and near(y, q[1], mag), "{}: painted at {} instead of {}", what, q, (x, y))

    def path(self, want, got, what):
        expect([e[0] for e in want] == [e[0] for e in got], "{}: path {} instead of {}", what, short(got), short(want))
        for a, b in zip(want, got):
            if a[0] in "ML":
                self.at(a[1], b[1], what, True)
            elif a[0] == "corner":
                self.at(a[1], b[1], what)
                self.at(a[2], b[2], what)
                expect(near(a[3] * self.k, b[3], self.mag), "{}: corner radius {} instead of {}", what, b[3], a[3])
            elif a[0] == "arc":
                self.at(a[1], b[1], what)
                expect(near(a[2] * self.k, b[2], self.mag) and a[3:] == b[3:], "{}: circle {} instead of {}", what, b, a)

    def event(self, want, got, i):
        what = "paint operation %d (%s)" % (i, want[0])
        expect(want[0] == got["op"], "{}: it is a {}", what, got["op"])
        if want[0] in ("fill", "stroke"):
            self.path(want[1], got["path"], what)
            expect(got["ink"] == want[2], "{}: ink {} instead of {}", what, got["ink"], want[2])
            if want[0] == "stroke":
                expect(close(got["width"], want[3] * self.k, 1e-14, 0), "{}: line width {} instead of {}", what, got["width"], want[3] * self.k)
                expect(len(got["dash"][0]) == len(want[4][0]) and close(got["dash"][1], want[4][1] * self.k, 1e-14, 0) and
                       all(close(a, b * self.k, 1e-14, 0) for a, b in zip(got["dash"][0], want[4][0])),
                       "{}: dash {} instead of {}", what, got["dash"], want[4])
        elif want[0] == "show":
            _, text, font, size, pos, anchor, ink = want
            expect(got["text"] == text, "{}: text {!r} instead of {!r}", what, got["text"], text)
            expect(got["font"] == font and close(got["size"], size * self.k, 1e-14, 0), "{}: font {} {}", what, got["font"], got["size"])
            expect(got["ink"] == ink, "{}: ink {} instead of {}", what, got["ink"], ink)
            w = (sum(map(ps.char_width, text)) - ps.BEARING) * size
            h = (ps.ASCENT - ps.DESCENT) * size
            dx = -w if "r" in anchor else 0 if "l" in anchor else -w / 2
            dy = -h if "t" in anchor else 0 if "b" in anchor else -h / 2
            self.at((pos[0] + dx, pos[1] + dy), got["at"], what + " anchored at " + anchor)
        else:
            _, size, data, n, (x, y, w, h) = want
            expect(got["size"] == size and got["comp"] == n, "{}: image {} of {} samples", what, got["size"], got["comp"])
            expect(got["data"] == data, "{}: image data {} instead of {}", what, short(got["data"]), short(data))
            # unit square -> pixels, top row first
            expect(got["matrix"] == (float(size[0]), 0.0, 0.0, float(-size[1]), 0.0, float(size[1])), "{}: image matrix {}", what, got["matrix"])
            a, b, c, d, e, f = got["ctm"]
            self.at((x, y), (e, f), what)
            self.at((x + w, y + h), (a + e, d + f), what)
            expect(b == 0 and c == 0, "{}: turned image", what)


def interpret(path):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    try:
        return ps.run(src)
    except ps.PSError as e:
        raise Violation("a PostScript interpreter fails on the file: %s" % e)


def magnitude(calls):
    out = 1.0
    for c in calls:
        for v in c[1:3]:
            if isinstance(v, tuple) or isinstance(v, list) and c[0] != "image":
                for p in v:
                    for x in p if isinstance(p, tuple) else (p,):
                        if isinstance(x, (int, float)):
                            out = max(out, abs(x))
            elif isinstance(v, (int, float)):
                out = max(out, abs(v))
    return out


def judge_file(path, m, calls, size, margin, mon):
    events, box = interpret(path)
    mag = magnitude(calls)
    if size is None:
        j = Judge(1.0, 0.0, 0.0, mag)
        b = m.box or (0, 0, 0, 0)
        want = (b[0] - margin, b[1] - margin, b[2] + margin, b[3] + margin)
    else:
        x0, y0, x1, y1 = m.box
        k = (size - margin) / max(x1 - x0, y1 - y0)
        j = Judge(k, size / 2 - k * (x0 + x1) / 2, size / 2 - k * (y0 + y1) / 2, mag)
        want = (0, 0, size, size)
    expect(all(near(a, b, mag) for a, b in zip(want, box)), "bounding box {} instead of {}", box, want)
    mon.ev("box")
    if m.bg is not None:
        expect(events, "no background")
        e = events.pop(0)
        x0, y0, x1, y1 = want
        Judge(1.0, 0.0, 0.0, mag).path([("M", (x0, y0)), ("L", (x1, y0)), ("L", (x1, y1)), ("L", (x0, y1)), ("Z",)],
                                       e["path"], "background")
        expect(e["op"] == "fill" and e["ink"] == rgb(m.bg), "background {} {}", e["op"], e["ink"])
        mon.ev("background")
    expect(len(events) == len(m.events), "{} paint operations instead of {}", len(events), len(m.events))
    for i, (w, g) in enumerate(zip(m.events, events)):
        j.event(w, g, i)
        mon.ev(w[0])
    return events


class Page(Check):
    id = "C36"
    files = ("coral/vector.py", "coral/defs.ps")
    quick, thorough = 8000, 250000
    rule = ("pages of 0 to 25 drawing calls (polygons, lines, circles, rounded polygons, text at nine anchors, images, "
            "ink, width and dash changes, with repetitions of the same state), every kind of background, "
            "saved plainly, with margins or to a size; the file is run by a PostScript interpreter that records "
            "every paint operation; non-trivial: two calls or more")
    required = ("fill", "stroke", "show", "image", "box", "background", "sized", "margin", "dashed", "wide", "curve",
                "no ink refused", "no anchor refused")

    def gen(self, r):
        calls = [draw_call(r) for _ in range(r.choice((1, 3, 8, 25)))]
        return {"bg": None if r.chance(0.5) else draw_ink(r), "calls": calls,
                "size": r.choice((None, None, None, 100, 612, 33.5)), "margin": r.choice((None, None, 0, 5, 2.5))}

    larges = ("polygon", "polyline", "rounded", "calls", "states", "wide image", "tall image", "colour image", "text", "dashes", "circles")

    def large(self, what):
        r = Gen("page of much " + what)
        ink = (0.25, 0.5, 0.75)
        line = lambda n: [(round(i % 400 + r.random(), 3), float(r.randint(-300, 300))) for i in range(n)]
        if what == "polygon":
            calls = [("polygon", line(n), ink, 0, "list") for n in (1000, 1501, 20000)]
        elif what == "polyline":
            calls = [("polyline", line(n), ink, "gen") for n in (1000, 1501, 20000)]
        elif what == "rounded":
            calls = [("rounded", line(3000), 1.5, 0.5, ink)]
        elif what == "calls":
            calls = [draw_call(r) for _ in range(4000)]
        elif what == "states":
            calls = []
            for i in range(700):
                calls += [("width", i / 8), ("dash", [i + 1, 2], i), ("color", (i / 700, 0.5, 1 - i / 700)), ("polyline", line(2), None, "list")]
        elif what in ("wide image", "tall image", "colour image"):
            w, h = {"wide image": (1100, 70), "tall image": (7, 10000)}.get(what, (300, 250))
            n = 3 if what[0] == "c" else 1
            calls = [("image", [r.randint(0, 255) for _ in range(w * h * n)], w, (3, 4.5), 2.5, n == 3, t) for t in ("list", "bytes")]
        elif what == "text":
            calls = [("text", (1, 2), r.text(n, TEXT), 10.5, "Helvetica", "tr", False) for n in (100, 300, 5000)]
        elif what == "dashes":
            calls = [("dash", [1 + i % 7 for i in range(n)], 1) for n in (9, 11)]
            calls = [x for d in calls for x in (d, ("polyline", line(4), 0, "list"))]
        else:
            calls = [("circle", (r.uniform(-9, 9), i / 4), 0.25 + i / 16, ink, None) for i in range(2000)]
        return {"bg": 0.5, "calls": calls, "size": None, "margin": None}

    def nontrivial(self, c):
        return len(c["calls"]) > 1

    def check(self, c, mon):
        cvs = vector.Canvas(c["bg"]) if c["bg"] is not None else vector.Canvas()
        m = Model(c["bg"])
        for call in c["calls"]:
            m.call(call)
            do(cvs, call)
        # (What is refused leaves no trace on the page.)
        k = len(c["calls"])
        raises(TypeError, cvs.setink, ("red", None, "0.5", {}, b"x")[k % 5])
        mon.ev("no ink refused")
        raises(Exception, cvs.addtext, (1, 2), "x", 10, "Courier", ("", "x", "lt", "top", "C")[k % 5])
        mon.ev("no anchor refused")
        path = os.path.join(mon.dir(), "page.eps")
        litter(path)
        size, margin = c["size"], c["margin"]
        if size is not None and (m.box is None or max(m.box[2] - m.box[0], m.box[3] - m.box[1]) <= 1e-9 * magnitude(c["calls"])):
            size = None
        kw = {}
        if size is not None:
            kw["size"] = size
            mon.ev("sized")
        if margin is not None:
            kw["margin"] = margin
            mon.ev("margin", margin > 0)
        cvs.save(path, **kw)
        evs = judge_file(path, m, c["calls"], size, margin or 0, mon)
        for e in evs:
            if e["op"] == "stroke":
                mon.ev("dashed", bool(e["dash"][0]))
                mon.ev("wide", e["width"] > 1)
                mon.ev("curve", e["path"][0][0] == "arc" or len(e["path"]) > 1 and e["path"][1][0] == "corner")


class Canvases(Check):
    id = "C37"
    files = ("coral/vector.py", "coral/bbox.py")
    quick, thorough = 6000, 200000
    rule = ("several canvases drawn on in turns, copied, saved on the way (plainly, sized, with margins), boxes reset, widened in place and "
            "put back; every canvas must paint exactly its own calls, its box must cover them and nothing else, "
            "and saving must change nothing; non-trivial: two canvases or more")
    required = ("copied", "saved on the way", "box reset", "box put back", "box widened", "covers", "same file again", "box",
                "untouched by work on others")

    def gen(self, r):
        ops = []
        n = r.choice((1, 2, 3))
        for _ in range(r.choice((4, 12, 30))):
            u = r.random()
            i = r.randint(0, n - 1)
            if u < 0.6:
                ops.append(("call", i, draw_call(r)))
            elif u < 0.72:
                ops.append(("copy", i, r.randint(0, n)))
            elif u < 0.85:
                ops.append(("save", i, r.choice((None, 50)), r.choice((0, 3))))
            elif u < 0.9:
                ops.append(("reset", i))
            elif u < 0.94:
                ops.append(("keep", i))
            elif u < 0.96:
                ops.append(("widen", i, r.choice((1, 7, 0.5, 300))))
            else:
                ops.append(("put", i))
        return {"bgs": [None if r.chance(0.5) else draw_ink(r) for _ in range(n)], "ops": ops}

    larges = ("copies", "chain of copies", "vertices", "calls")

    def large(self, what):
        r = Gen("canvases " + what)
        if what == "copies":            # of one canvas, each drawn upon
            ops = [("call", 0, draw_call(r)) for _ in range(5)]
            for i in range(120):
                ops += [("copy", 0, i + 1), ("call", i + 1, draw_call(r)), ("call", 0, draw_call(r))]
        elif what == "chain of copies":
            ops = [("call", 0, draw_call(r)) for _ in range(5)]
            for i in range(120):
                ops += [("copy", i, i + 1), ("call", i, draw_call(r)), ("call", i + 1, draw_call(r))]
        elif what == "vertices":
            ops = []
            for n in (2000, 1000, 5000):
                pts = [(round(i % 400 + r.random(), 3), float(r.randint(-300, 300))) for i in range(n)]
                ops += [("call", 0, ("polygon", pts, 0.5, None, "gen")), ("copy", 0, 1), ("save", 1, 50, 3), ("call", 1, draw_call(r))]
        else:
            ops = [("call", i % 2, draw_call(r)) for i in range(1500)] + [("copy", 0, 2), ("call", 2, draw_call(r)), ("save", 0, 50, 0)]
        return {"bgs": [None, 0.5], "ops": ops} if what in ("vertices", "calls") else {"bgs": [0.5], "ops": ops}

    def nontrivial(self, c):
        return len(c["bgs"]) > 1

    def check(self, c, mon):
        d = mon.dir()
        cs = [vector.Canvas(bg) for bg in c["bgs"]]
        ms = [Model(bg) for bg in c["bgs"]]
        calls = [op[2] for op in c["ops"] if op[0] == "call"]
        kept = [None] * (len(cs) + 1)
        # The file of a canvas stays the same while only others are worked on.
        texts = {}

        def text(k):
            path = os.path.join(d, "t.eps")
            cs[k].save(path)
            with open(path) as f:
                return f.read()
        for op in c["ops"]:
            i = op[1]
            texts.pop(op[2] if op[0] == "copy" else i if op[0] != "save" else None, None)
            if op[0] == "copy" and i != op[2]:
                texts[i] = text(i)
            if op[0] == "call":
                ms[i].call(op[2])
                do(cs[i], op[2])
            elif op[0] == "copy":
                j = op[2]
                if j == len(cs):
                    cs.append(cs[i].copy())
                    ms.append(ms[i].copy())
                    kept.append(None)
                else:
                    cs[j], ms[j] = cs[i].copy(), ms[i].copy()
                mon.ev("copied")
            elif op[0] == "save":
                self.save(d, cs[i], ms[i], calls, op[2], op[3], mon)
                mon.ev("saved on the way")
            elif op[0] == "reset":
                cs[i].resetbbox()
                ms[i].box = None
                mon.ev("box reset")
            elif op[0] == "widen":
                b = cs[i].bbox
                b.x0, b.y1 = b.x0 - op[2], b.y1 + op[2]
                x0, y0, x1, y1 = ms[i].box or (0, 0, 0, 0)
                ms[i].box = (x0 - op[2], y0, x1, y1 + op[2])
                kept[i] = None
                mon.ev("box widened")
            elif op[0] == "keep":
                kept[i] = (cs[i].bbox, ms[i].box)
            elif kept[i]:
                cs[i].bbox, ms[i].box = kept[i]
                mon.ev("box put back")
            b = cs[i].bbox
            want = ms[i].box or (0, 0, 0, 0)
            mag = magnitude(calls)
            expect(all(near(x, y, mag) for x, y in zip((b.x0, b.y0, b.x1, b.y1), want)), "after {}: box {} instead of {}",
                   short(op), b, want)
            mon.ev("covers")
        for k, t in texts.items():
            expect(text(k) == t, "the file of canvas {} is another after work on the others", k)
            mon.ev("untouched by work on others")
        for cv, m in zip(cs, ms):
            self.save(d, cv, m, calls, None, 0, mon)

    def save(self, d, cv, m, calls, size, margin, mon):
        if size is not None and (m.box is None or max(m.box[2] - m.box[0], m.box[3] - m.box[1]) <= 1e-9 * magnitude(calls)):
            size = None
        a, b = os.path.join(d, "a.eps"), os.path.join(d, "b.eps")
        kw = {"margin": margin}
        if size is not None:
            kw["size"] = size
        cv.save(a, **kw)
        cv.save(b, **kw)
        with open(a) as f, open(b) as g:
            expect(f.read() == g.read(), "saving again gives another file")
        mon.ev("same file again")
        judge_file(a, m, calls, size, margin, mon)


GS = """#!/bin/sh
# stands for Ghostscript: the page itself is the picture
out=; in=; dev=
printf '%s\\n' "$#" >> "$VF_LOG"
for a in "$@"; do
  printf 'gs %s\\n' "$a" >> "$VF_LOG"
  case "$a" in
    -sOutputFile=*) out="${a#-sOutputFile=}" ;;
    -sDEVICE=*) dev="${a#-sDEVICE=}" ;;
    -*) ;;
    *) in="$a" ;;
  esac
done
cat "$in" > "$out" || exit 9
printf '%%%% device %s\\n' "$dev" >> "$out"
[ "$VF_STATUS" = killed ] && kill -9 $$
exit ${VF_STATUS:-0}
"""

CONVERT = """#!/bin/sh
# stands for ImageMagick: the animation is its frames, one after the other
for a in "$@"; do printf 'convert %s\\n' "$a" >> "$VF_LOG"; last="$a"; done
n=$#
: > "$last" || exit 9
i=0
for a in "$@"; do
  i=$((i+1))
  case "$a" in *.png) [ $i -lt $n ] && { cat "$a" >> "$last"; printf '%%%% end of frame\\n' >> "$last"; } ;; esac
done
[ "$VF_STATUS" = killed ] && kill -9 $$
exit ${VF_STATUS:-0}
"""


class Export(Check):
    id = "C38"
    files = ("coral/vector.py",)
    level = "fault_enumeration"
    quick, thorough = 480, 20000
    wall = {"quick": 60.0, "thorough": 1200.0}
    rule = ("pages exported alone, several at once from different threads, exported after a failed call, and animations of 1 to 12 frames, "
            "with paths of spaces, quotes, dollar signs and non-ASCII characters, by stand-ins for Ghostscript and "
            "ImageMagick that hand the page through (and fail on demand); non-trivial: several pages")
    required = ("exported", "at the same time", "animation", "odd path", "status passed on", "converter killed", "nothing left behind",
                "frames in order", "failed save", "converted file", "ten frames or more", "options in order")

    PATHS = ("x.png", "a b.png", "it's.png", 'q"q.png', "$HOME.png", "a;b.png", "é漢.png", "a&b.png", "-x.png", "(1).png",
             "a\\b.png", "`ls`.png", "x*.png")

    def gen(self, r):
        kind = r.choice(("one", "one", "threads", "animation", "plain", "broken"))
        n = {"one": 1, "plain": 1, "broken": 1, "threads": r.randint(2, 4)}.get(kind) or r.choice((1, 2, 3, 11))
        pages = []
        for _ in range(n):
            calls = [draw_call(r) for _ in range(r.choice((1, 3, 6)))]
            pages.append({"bg": None if r.chance(0.5) else draw_ink(r), "calls": calls})
        return {"kind": kind, "pages": pages, "path": r.choice(self.PATHS), "device": r.choice((None, "png16m", "pnggray")),
                "size": r.choice((None, None, 100)), "margin": r.choice((None, 4)), "status": r.choice((0, 0, 0, 3, "killed")),
                "delay": r.choice((None, 10, 50)), "rounds": r.randint(1, 2)}

    larges = ("frames", "page", "threads", "long path")

    def large(self, what):
        r = Gen("export " + what)
        n = {"frames": 1003, "threads": 24}.get(what, 1)
        pages = [{"bg": None, "calls": [draw_call(r) for _ in range(3)]} for _ in range(n)]
        if what == "page":
            pages[0]["calls"] += [("image", [r.randint(0, 255) for _ in range(300 * 250)], 300, None, None, False, "list"),
                                  ("polygon", [(i / 8, i % 97) for i in range(9000)], 0.5, 0, "list")]
        return {"kind": {"frames": "animation", "threads": "threads"}.get(what, "one"), "pages": pages,
                "path": "é " + "x" * 200 + ".png" if what == "long path" else "x.png", "device": None, "size": None, "margin": None,
                "status": 0, "delay": None, "rounds": 1}

    def nontrivial(self, c):
        return len(c["pages"]) > 1

    def setup(self, d):
        bin_ = os.path.join(d, "bin")
        os.mkdir(bin_)
        for name, src in (("gs", GS), ("convert", CONVERT)):
            p = os.path.join(bin_, name)
            with open(p, "w") as f:
                f.write(src)
            os.chmod(p, 0o755)
        tmp = os.path.join(d, "tmp dir")
        os.mkdir(tmp)
        return bin_, tmp

    def check(self, c, mon):
        d = mon.dir()
        bin_, tmp = self.setup(d)
        out = os.path.join(d, "out")
        os.mkdir(out)
        env = dict(os.environ)
        old = tempfile.tempdir
        cwd = os.getcwd()
        log = os.path.join(d, "log")
        err = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        try:
            os.environ.update(PATH=bin_ + ":/usr/bin:/bin", VF_LOG=log, VF_STATUS=str(c["status"]), TMPDIR=tmp)
            tempfile.tempdir = tmp
            os.chdir(out)
            os.dup2(null, 2)
            fds = set(os.listdir("/proc/self/fd"))
            getattr(self, c["kind"])(c, out, mon)
            left = os.listdir(tmp)
            expect(not left, "temporary files are left: {}", left)
            left = set(os.listdir("/proc/self/fd")) - fds
            expect(not left, "file descriptors are left open: {}", sorted(left))
            mon.ev("nothing left behind")
        finally:
            os.dup2(err, 2)
            os.close(err)
            os.close(null)
            os.chdir(cwd)
            tempfile.tempdir = old
            os.environ.clear()
            os.environ.update(env)

    def page(self, p):
        cvs = vector.Canvas(p["bg"]) if p["bg"] is not None else vector.Canvas()
        m = Model(p["bg"])
        for call in p["calls"]:
            m.call(call)
            do(cvs, call)
        return cvs, m

    def options(self, c, m, calls):
        kw = {}
        size = c["size"]
        if size is not None and (m.box is None or max(m.box[2] - m.box[0], m.box[3] - m.box[1]) <= 1e-9 * magnitude(calls)):
            size = None
        if size is not None:
            kw["size"] = size
        if c["margin"] is not None:
            kw["margin"] = c["margin"]
        return kw

    def judge(self, c, path, m, calls, kw, mon):
        expect(os.path.isfile(path), "no picture at {}: {}", path, os.listdir(os.path.dirname(path)))
        with open(path, encoding="utf-8") as f:
            src = f.read()
        expect("%% device " + (c["device"] or "png256") in src, "device {}", src[-60:])
        judge_file(path, m, calls, kw.get("size"), kw.get("margin", 0), mon)

    def one(self, c, out, mon):
        cvs, m = self.page(c["pages"][0])
        calls = c["pages"][0]["calls"]
        kw = self.options(c, m, calls)
        path = os.path.join(out, c["path"])
        for _ in range(c["rounds"]):
            if c["device"] and "size" in kw and "margin" in kw:
                mon.ev("options in order")
                ret = cvs.export(path, c["device"], kw["size"], kw["margin"])
            else:
                args = (c["device"],) if c["device"] else ()
                ret = cvs.export(path, *args, **kw)
            self.status(c, ret, mon)
            mon.ev("status passed on", c["status"] != 0)
            self.judge(c, path, m, calls, kw, mon)
            mon.ev("exported")
            mon.ev("odd path", c["path"] != "x.png")

    def plain(self, c, out, mon):
        """A page already saved is converted."""
        cvs, m = self.page(c["pages"][0])
        calls = c["pages"][0]["calls"]
        src = os.path.join(out, c["path"].replace(".png", ".eps"))
        cvs.save(src)
        with open(src) as f:
            before = f.read()
        path = os.path.join(out, c["path"])
        ret = vector.export(src, path, *((c["device"],) if c["device"] else ()))
        self.status(c, ret, mon)
        self.judge(c, path, m, calls, {}, mon)
        with open(src) as f:
            expect(f.read() == before, "the page itself changed")
        mon.ev("converted file")

    def status(self, c, ret, mon):
        if c["status"] == "killed":
            # (-9, or 137 if the shell waits for it)
            expect(ret in (-9, 137), "status {} of a converter that was killed", ret)
            mon.ev("converter killed")
        else:
            expect(ret == c["status"], "status {} instead of {}", ret, c["status"])

    def broken(self, c, out, mon):
        """A page that cannot be saved."""
        cvs, m = self.page(c["pages"][0])
        raises(Exception, cvs.export, os.path.join(out, c["path"]), size="not a size")
        mon.ev("failed save")

    def threads(self, c, out, mon):
        jobs, errs = [], []
        for i, p in enumerate(c["pages"]):
            cvs, m = self.page(p)
            jobs.append((cvs, m, p["calls"], os.path.join(out, "%d %s" % (i, c["path"]))))
        gate = threading.Barrier(len(jobs))

        def go(cvs, m, calls, path):
            try:
                kw = self.options(c, m, calls)
                gate.wait()
                for _ in range(c["rounds"]):
                    ret = cvs.export(path, *((c["device"],) if c["device"] else ()), **kw)
                    self.status(c, ret, mon)
                    self.judge(c, path, m, calls, kw, mon)
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=go, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        mon.ev("at the same time", len(jobs))

    def animation(self, c, out, mon):
        frames, models = [], []
        for p in c["pages"]:
            cvs, m = self.page(p)
            frames.append(cvs)
            models.append(m)
        boxes = [(b.x0, b.y0, b.x1, b.y1) for b in (f.bbox for f in frames)]
        all_ = [m.box for m in models if m.box]
        calls = [x for p in c["pages"] for x in p["calls"]]
        if not all_:
            raise Skip
        x0, y0 = min(b[0] for b in all_), min(b[1] for b in all_)
        x1, y1 = max(b[2] for b in all_), max(b[3] for b in all_)
        if max(x1 - x0, y1 - y0) <= 1e-9 * magnitude(calls):
            raise Skip
        cx, cy, w, h = (x0 + x1) / 2, (y0 + y1) / 2, (x1 - x0) * 1.05 / 2, (y1 - y0) * 1.05 / 2
        whole = (cx - w, cy - h, cx + w, cy + h)
        path = os.path.join(out, c["path"].replace(".png", ".gif"))
        args = () if c["delay"] is None else (c["delay"],)
        kw = {}
        if c["device"]:
            kw["device"] = c["device"]
        if c["size"] is not None:
            kw["size"] = c["size"]
        if c["margin"] is not None:
            kw["margin"] = c["margin"]
        for _ in range(c["rounds"]):
            if len(args) == 1 and len(kw) == 3:
                mon.ev("options in order")
                ret = vector.animation(path, frames, args[0], kw["device"], kw["size"], kw["margin"])
            else:
                ret = vector.animation(path, frames, *args, **kw)
            self.status(c, ret, mon)
            expect(os.path.isfile(path), "no animation at {}: {}", path, os.listdir(out))
            with open(path, encoding="utf-8") as f:
                parts = f.read().split("%% end of frame\n")
            expect(parts.pop() == "" and len(parts) == len(frames), "{} frames instead of {}", len(parts), len(frames))
            for i, (src, m) in enumerate(zip(parts, models)):
                one = os.path.join(out, "frame.ps")
                with open(one, "w", encoding="utf-8") as f:
                    f.write(src)
                mm = m.copy()
                mm.box = whole
                self.judge(c, one, mm, calls, kw, mon)
            mon.ev("frames in order")
            mon.ev("ten frames or more", len(frames) > 9)
            now = [(b.x0, b.y0, b.x1, b.y1) for b in (f.bbox for f in frames)]
            expect(now == boxes, "the animation changed the boxes of its frames: {} -> {}", boxes[:2], now[:2])
        with open(os.environ["VF_LOG"]) as f:
            log = f.read().split("\n")
        k = log.index("convert -delay")
        expect(log[k + 1] == "convert %d" % (c["delay"] or 10), "delay: {}", log[k + 1])
        mon.ev("animation")
