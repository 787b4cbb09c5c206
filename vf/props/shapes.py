"""Shapefiles: what is written is what is read, and what is on the disk."""
import io
import os
import struct
import time

from vf import esri
from vf.core import Check, Gen, Violation, Skip, expect, raises, short, litter
from coral import shapefile

LETTERS = "abcdefghijklmnopqrstuvwxyz"
TEXTS = {
    "utf-8": "abcXYZ 019-_.,éçãßñ漢字🙂'\"\\*\xa0\u3000\t",
    "latin1": "abcXYZ 019-_.,éçãßñ'\"\\*ÿ\xa0;",
    "cp1252": "abcXYZ 019-_.,éçãßñ'\"\\*€",
    "shift_jis": "abcXYZ 019-_.,漢字かなカナ",
    "cp850": "abcXYZ 019-_.,éçãßñ'\"\\*",
    "ascii": "abcXYZ 019-_.,'\"\\*",
}


def coordinate(r):
    u = r.random()
    if u < 0.5:
        return r.uniform(-180, 180)
    if u < 0.7:
        return r.randint(-1000, 1000)
    if u < 0.8:
        return float(r.choice((0, -0.0, 1e-300, 5e-324, 1e300, -1e300, 0.1, 1 / 3, 2.0**53 + 2)))
    return r.real(-1e7, 1e7)


def measure(r):
    return r.choice((-1e39, -1e38, -1.01e38, -2e38, -9e38, -1.79e308)) if r.chance(0.05) else coordinate(r)


def draw_point(r, nd):
    p = [coordinate(r), coordinate(r)]
    if nd > 2:
        p.append(coordinate(r))
    if nd > 3:
        p.append(measure(r))
    return p


def draw_shape(r, t, big=False):
    """A shape as literal data."""
    if r.chance(0.08):
        return None
    if t in esri.POINTS:
        return draw_point(r, r.choice((2, 3, 4, 4)))
    if r.chance(0.03):      # without any point
        return {"parts": [], "pt": [] if t == 31 else None, "tuples": False}
    nd = r.choice((2, 3, 4, 4)) if t not in (3, 5, 8) else r.choice((2, 2, 2, 3, 4))
    nparts = 1 if t in esri.MULTIPOINTS else r.choice((1, 1, 2, 3, 6))
    parts = []
    for _ in range(nparts):
        n = 1 + r.size(30)
        if big:
            n = r.choice((127, 128, 255, 256, 257, 1000, 5000))
        if t in (5, 15, 25, 31):
            n = max(3, n)
        p = [draw_point(r, nd) for _ in range(n)]
        if t == 31 or (t in (5, 15, 25) and r.chance(0.6)):
            p.append(list(p[0]))
        parts.append(p)
    return {"parts": parts, "pt": [r.randint(0, 5) for _ in parts] if t == 31 else None,
            "tuples": r.chance(0.3)}


def long_shape(r, t, n, parts=1):
    """A shape of n points in some parts."""
    if t in esri.POINTS:
        return draw_point(r, 4)
    nd = 2 if t in (3, 5, 8) else 4
    pts = [[i % 977 / 8, i % 1013 - 500, i / 4, i / 2][:nd] for i in range(n)]
    parts = 1 if t in esri.MULTIPOINTS else parts
    cut = [pts[i * n // parts:(i + 1) * n // parts] for i in range(parts)]
    if t == 31:         # (always given closed)
        cut = [p + [list(p[0])] for p in cut]
    return {"parts": cut,
            "pt": [i % 6 for i in range(parts)] if t == 31 else None, "tuples": False}


LARGES = tuple((k, t) for k in ("points", "parts") for t in (3, 5, 13, 15, 31)) + (
    ("points", 8), ("points", 18), ("shapes", 1), ("shapes", 11), ("shapes", 3))


def large_file(r, what):
    """A file that has much of something."""
    k, t = what
    c = draw_file(r, attrs=False)
    shapes = draw_shapes(r, t, {1: 66000, 11: 40000}.get(t, 3000)) if k == "shapes" else \
        [draw_shape(r, t), long_shape(r, t, 80000, 1 if k == "points" else 20000 if t == 5 else 40000),
         long_shape(r, t, 3000, 300), draw_shape(r, t)]
    c.update(t=t, shapes=shapes, recs=[[i] for i in range(len(shapes))], kw=[False] * len(shapes), typed=True,
             how="streams" if t in (3, 5, 15) else "plain", lower=False)
    return c


def draw_shapes(r, t, n):
    return [draw_shape(r, t) for _ in range(n)]


def put(w, t, s):
    """Offer a shape to the writer."""
    if s is None:
        w.null()
    elif t in esri.POINTS:
        w.point(*s)
    else:
        conv = tuple if s["tuples"] else list
        parts = conv(conv(conv(p) for p in part) for part in s["parts"])
        before = repr(parts)
        if t == 3:
            w.line(parts=parts)
        elif t == 5:
            w.poly(parts=parts)
        elif t == 31:
            w.poly(parts=parts, shapeType=t, partTypes=list(s["pt"]))
        else:
            w.poly(parts=parts, shapeType=t)
        expect(repr(parts) == before, "the caller's parts changed from {} to {}", short(before), short(repr(parts)))


def meaning(t, s):
    """What the file must hold for the shape."""
    if s is None:
        return {"type": 0, "points": [], "parts": None, "z": None, "m": None, "partTypes": None}
    if t in esri.POINTS:
        p = (list(s) + [0, 0])[:4]
        return {"type": t, "points": [(float(p[0]), float(p[1]))], "parts": None,
                "z": [p[2]] if t == 11 else None, "m": [p[3]] if t in (11, 21) else None,
                "partTypes": None}
    pts, starts = [], []
    for part in s["parts"]:
        part = [list(p) for p in part]
        if t in (5, 15, 25) and part[0] != part[-1]:
            part.append(part[0])
        starts.append(len(pts))
        pts += [(p + [0, 0])[:4] for p in part]
    return {"type": t, "points": [(float(p[0]), float(p[1])) for p in pts],
            "parts": starts if t in esri.PARTED else None,
            "z": [p[2] for p in pts] if t in esri.HAS_Z else None,
            "m": [p[3] for p in pts] if t in esri.HAS_M else None,
            "partTypes": s["pt"]}


def compare_read(shape, want, where):
    """A shape from the Reader against its meaning."""
    expect(shape.shapeType == want["type"], "{}: type {} instead of {}", where, shape.shapeType, want["type"])
    got = [tuple(p) for p in shape.points]
    expect(got == want["points"], "{}: points {} instead of {}", where, short(got), short(want["points"]))
    if want["parts"] is not None:
        expect(list(shape.parts) == want["parts"], "{}: parts {} instead of {}", where, list(shape.parts), want["parts"])
    if want["z"] is not None:
        z = list(shape.z)
        expect(z == want["z"], "{}: z {} instead of {}", where, short(z), short(want["z"]))
    if want["m"] is not None:
        m = list(getattr(shape, "m", [])) if not want["points"] else list(shape.m)
        w = [None if v is None or v <= -1e38 else v for v in want["m"]]
        m = [None if v is None or v <= -1e38 else v for v in m]
        expect(m == w, "{}: m {} instead of {}", where, short(m), short(w))
    if want["partTypes"] is not None:
        expect(list(shape.partTypes) == want["partTypes"], "{}: part types {} instead of {}",
               where, list(shape.partTypes), want["partTypes"])


def compare_disk(s, want, where):
    """A shape from the independent parser against its meaning."""
    expect(s["type"] == want["type"], "{}: type {} on disk instead of {}", where, s["type"], want["type"])
    expect(s["points"] == want["points"], "{}: points {} on disk instead of {}", where, short(s["points"]), short(want["points"]))
    for k in ("parts", "z", "m", "partTypes"):
        a, b = s[k], want[k]
        if k == "m" and b is not None:
            a = a and [None if v <= -1e38 else v for v in a]
            b = [None if v is None or v <= -1e38 else v for v in b]
        expect(a == b, "{}: {} {} on disk instead of {}", where, k, short(a), short(b))


def draw_fields(r, enc):
    n = r.choice((1, 1, 2, 3, 5)) if r.chance(0.95) else r.choice((30, 128, 200))
    out = []
    for i in range(n):
        u = r.random()
        name = ("F%d" % i) if u < 0.55 else ("%s%d" % (r.choice(("DELETION", "deletion", "Deleted", "Deletion")), i)) if u < 0.58 and i < 100 else "%s%d" % (r.text(r.randint(1, 6), LETTERS + "_"), i)
        if 0.6 < u < 0.7:
            name = r.text(r.randint(1, 3), "".join(x for x in TEXTS[enc] if not x.isspace()) + "ab") + str(i)
            while len(name.encode(enc)) > 10:
                name = name[1:]
        if 0.7 < u < 0.75:
            name = (name + "_" * 10)[:10] if n == 1 else name
        k = r.choice("CCCNNNDL")
        if k == "C":
            out.append((name, "C", r.choice((1, 3, 10, 50, 254, 255, r.randint(1, 254))), 0))
        elif k == "N":
            dec = r.choice((0, 0, 2, 5, 15))
            out.append((name, "N", r.randint(max(3, dec + 3), 30) if dec else r.randint(1, 20), dec))
        else:
            out.append((name, k, 8 if k == "D" else 1, 0))
    if r.chance(0.1):
        out = [(f[0], f[1], str(f[2]), f[3]) for f in out]
    return out


def draw_attr(r, f, enc):
    k, size, dec = f[1], int(f[2]), f[3]
    if r.chance(0.08):
        return r.choice(("", "", None))
    if k == "C":
        u = r.random()
        s = r.text(r.randint(0, min(size, 30)), TEXTS[enc])
        if u < 0.2:
            s = s * (size // max(1, len(s)) + 1)
        elif u < 0.25:
            s = s + " inside " + s
        elif u < 0.3:
            return r.choice((12, -7, 3.5))
        if r.chance(0.8):
            while len(s.encode(enc)) > size:
                s = s[:-1]
        else:
            s = s + s       # may be too long: it is cut
        return s
    if k == "N":
        if dec:
            v = r.choice((0.0, 1.5, -2.25, round(r.uniform(-99, 99), min(dec, 4)), r.uniform(-1, 1), 7,
                          r.uniform(-99, 99), 1 / 3, 2e-7 * r.random(), 10.0 ** (size - dec - 2) - 10.0 ** -dec,
                          r.uniform(-1, 1) * 10 ** r.uniform(0, size - dec - 1)))
            return v if fits(f, v) else 0
        if r.chance(0.1):       # a real number all the same
            v = r.choice((3.0, -0.0, float(r.randint(-9, 99)), 1e15, r.uniform(-99, 99)))
            return v if fits(f, v) else 0
        v = r.choice((0, 1, -1, 10 ** (size - 1), 10 ** size - 1, r.randint(-10**9, 10**9)))
        return v if len(str(v)) <= size else 1
    if k == "L":
        return r.choice((True, False, "T", "f", "yes", "N", "?"))
    return "%04d%02d%02d" % (r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28))


def fits(f, v):
    """Does a number fit its field, in the decimals of the field?"""
    return len("{:.{}f}".format(v, f[3]) if isinstance(v, float) else str(v)) <= int(f[2])


class Real(float):
    """A number as a field of some decimals gives it back."""

    def __new__(cls, v, dec):
        o = float.__new__(cls, v)
        o.dec = dec
        return o

    def near(self, x):
        return abs(x - self) <= 0.5 * 10.0 ** -self.dec * (1 + 1e-9) + 4e-16 * abs(self)


def attr_meaning(f, v, enc):
    """What a reader must give back for an attribute."""
    k, size, dec = f[1], int(f[2]), f[3]
    if v == "" or v is None:
        return ""
    if k == "N" and isinstance(v, float):
        return Real(v, dec)
    if k == "N":
        return float(v) if dec else int(v)
    if k == "L":
        return str(v)[0].upper()
    s = str(v).encode(enc)[:size].decode(enc, "ignore")
    return s.strip()


def same_attr(a, b):
    if isinstance(b, Real):
        return type(a) is (float if b.dec else int) and b.near(a)
    return type(a) is type(b) and a == b


def disk_attr(f, v, enc):
    """The bytes of the attribute on disk, padding removed."""
    if v is None:
        return b""
    if f[1] == "N":
        return str(v).encode(enc)
    if f[1] == "L":
        return str(v)[:1].upper().encode(enc)
    return str(v).encode(enc)[:int(f[2])].decode(enc, "ignore").encode(enc)


class Scratch:
    """Run with the working directory inside a scratch directory."""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)


def save(w, how, d):
    """Save by one of the documented ways; returns the three blobs and a function that opens a Reader."""
    if how == "streams":
        fs = [io.BytesIO() for _ in range(3)]
        w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
        blobs = [f.getvalue() for f in fs]
        return blobs, lambda **kw: shapefile.Reader(shp=io.BytesIO(blobs[0]), shx=io.BytesIO(blobs[1]),
                                                    dbf=io.BytesIO(blobs[2]), **kw)
    if how == "parts":
        p = os.path.join(d, "by parts")
        litter(p + ".shp", p + ".shx", p + ".dbf")
        w.saveShp(p)
        w.shp.close()
        w.saveShx(p + ".shx")
        w.shx.close()
        w.saveDbf(p)
        w.dbf.close()
    elif how == "unnamed":
        with Scratch(d):
            p = os.path.join(d, w.save())
    elif how == "nested":
        p = os.path.join(d, "new", "folder", "x.shp")
        w.save(p)
        p = p[:-4]
    elif how == "dotted":
        p = os.path.join(d, "x.y.shp")
        litter(p, p[:-4] + ".shx", p[:-4] + ".dbf")
        w.save(p)
        p = p[:-4]
    else:
        p = os.path.join(d, "plain")
        litter(p + ".shp", p + ".shx", p + ".dbf")
        w.save(p)
    blobs = []
    for e in (".shp", ".shx", ".dbf"):
        with open(p + e, "rb") as f:
            blobs.append(f.read())
    return blobs, lambda **kw: shapefile.Reader(p + (".shp" if how in ("nested", "dotted") else ""), **kw)


WAYS = ("plain", "plain", "streams", "parts", "unnamed", "nested", "dotted")


def draw_file(r, geometry=True, attrs=True, tmax=None):
    t = r.choice(esri.TYPES)
    n = r.size(12 if r.chance(0.95) else 60, 0)
    shapes = draw_shapes(r, t, n)
    if r.chance(0.02):
        shapes = [draw_shape(r, t, True)]
    if r.chance(0.01):
        shapes = [draw_shape(r, 1) for _ in range(300)]
        t = 1
    enc = r.choice(("utf-8", "utf-8", "utf-8", "latin1", "cp1252", "shift_jis", "cp850", "ascii"))
    fields = draw_fields(r, enc) if attrs else [("ID", "N", 6, 0)]
    if attrs:
        recs = [[draw_attr(r, f, enc) for f in fields] for _ in shapes]
    else:
        recs = [[i] for i in range(len(shapes))]
    return {"t": t, "shapes": shapes, "enc": enc, "fields": fields, "recs": recs,
            "kw": [r.chance(0.2) for _ in shapes], "how": r.choice(WAYS), "typed": r.chance(0.7),
            "order": r.choice(("together", "shapes first", "records first")), "lower": r.chance(0.1)}


def writer_of(c):
    # The type is taken from the first shape when it is not given.
    t = c["t"]
    typed = c["typed"] or t in esri.POINTS or not any(c["shapes"])
    w = shapefile.Writer(t, encoding=c["enc"]) if c["enc"] != "utf-8" else \
        shapefile.Writer(t) if typed else shapefile.Writer()
    if not typed and c["enc"] != "utf-8":
        w = shapefile.Writer(encoding=c["enc"])
    for f in c["fields"]:
        if f[1] == "C" and f[2] == 50:
            w.field(f[0])
        else:
            w.field(f[0], f[1].lower() if c.get("lower") else f[1], *f[2:])
    def rec(i):
        row = c["recs"][i]
        if c["kw"][i] and row:
            d = {f[0]: v for f, v in zip(c["fields"], row) if v != ""}
            if d and all(k.isidentifier() for k in d) and len(set(f[0] for f in c["fields"])) == len(row):
                w.record(**d)
                return
        w.record(*row)
    if c["order"] == "records first":
        for i in range(len(c["recs"])):
            rec(i)
    for i, s in enumerate(c["shapes"]):
        put(w, t, s)
        if c["order"] == "together" and i < len(c["recs"]):
            rec(i)
    if c["order"] == "shapes first":
        for i in range(len(c["recs"])):
            rec(i)
    return w


def expand(c):
    """A case of many records, kept short in writing."""
    if "many" not in c:
        return c
    n = c["many"]
    return dict(c, t=1, shapes=[[i, -i] for i in range(n)], enc="utf-8", fields=[("N", "N", 6, 0), ("S", "C", 3, 0)],
                recs=[[i, chr(97 + i % 26)] for i in range(n)], kw=[False] * n, how="plain", typed=True,
                order="together", more=[[1, 2]], morerecs=[[-1, "z"]], again=False)


class Geometry(Check):
    id = "C20"
    files = ("coral/shapefile.py",)
    quick, thorough = 8000, 250000
    rule = ("shapefiles of every shape type with 0 to 60 shapes (null ones among them), parts "
            "of 1 to 30 vertices (now and then 5000), coordinates incl. extreme doubles and no-data "
            "measures, 2 to 4 ordinates given, saved in each documented way; non-trivial: one shape or more")
    required = tuple("type %d" % t for t in esri.TYPES) + (
        "null shape", "shape", "z", "m", "part types", "ring closed", "several parts",
        "saved: streams", "saved: parts", "saved: unnamed", "saved: nested", "no shapes", "saved again", "ranges of the file", "no number refused", "without points")

    def gen(self, r):
        c = draw_file(r, attrs=False)
        c["again"] = r.chance(0.2)
        c["no"] = None
        if r.chance(0.1) and any(c["shapes"]):
            v = r.choice(("a", "1", None, 1j, [1.0]))
            k = r.choice((0, 1) + (2,) * (c["t"] in esri.HAS_Z) + (3,) * (c["t"] in esri.HAS_M))
            c["no"] = (r.randrange(100), k, v, r.choice(("one", "last", "all")))
        return c

    larges = LARGES

    def large(self, what):
        return dict(large_file(Gen("large %s %d" % what), what), again=False, no=None)

    def refused(self, c, d, mon):
        """A shape with a coordinate that is no number is refused, in the end."""
        at, k, v, which = c["no"]
        shapes = list(c["shapes"])
        full = [i for i, s in enumerate(shapes) if s and (c["t"] in esri.POINTS or s["parts"])]
        if not full:
            return
        i = full[at % len(full)]
        bad = lambda p: (list(p) + [1.0, 2.0])[:max(len(p), k + 1)]
        change = lambda p: [v if j == k else x for j, x in enumerate(bad(p))]
        s = shapes[i]
        if c["t"] in esri.POINTS:
            s = change(s)
        elif which == "all":
            s = dict(s, parts=[[change(p) for p in part] for part in s["parts"]])
        else:
            j = -1 if which == "last" else at % len(s["parts"])
            parts = [list(p) for p in s["parts"]]
            n = -1 if which == "last" else at % len(parts[j])
            parts[j][n] = change(parts[j][n])
            s = dict(s, parts=parts)
        shapes[i] = s
        bad = dict(c, shapes=shapes, how="streams")
        try:
            blobs = save(writer_of(bad), "streams", d)[0]
        except Exception:
            mon.ev("no number refused")
        else:
            raise Violation("shape {}: the value {!r} is saved as {}".format(i, v, short(esri.parse_shp(blobs[0]))))

    def nontrivial(self, c):
        return bool(c["shapes"])

    def check(self, c, mon):
        d = mon.dir()
        if c["no"]:
            self.refused(c, d, mon)
        w = writer_of(c)
        if c["again"]:
            save(w, "streams", d)
            mon.ev("saved again")
        blobs, reader = save(w, c["how"], d)
        mon.ev("saved: " + c["how"])
        rd = reader(encoding=c["enc"])
        want = [meaning(c["t"], s) for s in c["shapes"]]
        got = rd.shapes()
        expect(len(got) == len(want), "{} shapes come back as {}", len(want), len(got))
        if any(c["shapes"]):
            expect(rd.shapeType == c["t"], "file type {} instead of {}", rd.shapeType, c["t"])
        for i, (g, x) in enumerate(zip(got, want)):
            compare_read(g, x, "shape %d" % i)
            mon.ev("shape")
            if c["shapes"][i] is None:
                mon.ev("null shape")
                continue
            mon.ev("type %d" % c["t"])
            mon.ev("z", x["z"] is not None)
            mon.ev("m", x["m"] is not None)
            if x["partTypes"]:
                mon.ev("part types")
            if x["parts"] and len(x["parts"]) > 1:
                mon.ev("several parts")
            if c["t"] in (5, 15, 25) and sum(map(len, c["shapes"][i]["parts"])) < len(x["points"]):
                mon.ev("ring closed")
            mon.ev("without points", not x["points"])
            if x["type"] not in (0, 1, 11, 21) and x["points"]:
                xs, ys = zip(*x["points"])
                expect(list(g.bbox) == [min(xs), min(ys), max(xs), max(ys)], "shape {}: box {}", i, list(g.bbox))
        pts = [p for x in want for p in x["points"]]
        if pts:
            xs, ys = zip(*pts)
            expect(list(rd.bbox) == [min(xs), min(ys), max(xs), max(ys)], "box of the file: {}", list(rd.bbox))
            self.ranges(c["t"], want, rd, mon)
        else:
            mon.ev("no shapes")
        for i in range(len(want)) if len(want) < 5000 else (0, 1, len(want) // 2, len(want) - 1):
            compare_read(rd.shape(i), want[i], "shape(%d)" % i)

    def ranges(self, t, want, rd, mon):
        zs = [z for x in want for z in x["z"] or ()] if t in esri.HAS_Z else [0]
        ms = [m for x in want for m in x["m"] or () if m is not None and m >= -1e38] if t in esri.HAS_M else [0]
        expect(list(rd.elevation) == [min(zs), max(zs)], "elevations {} instead of {}", list(rd.elevation), (min(zs), max(zs)))
        if ms:
            expect(list(rd.measure) == [min(ms), max(ms)], "measures {} instead of {}", list(rd.measure), (min(ms), max(ms)))
        mon.ev("ranges of the file")


class Attributes(Check):
    id = "C21"
    files = ("coral/shapefile.py",)
    quick, thorough = 8000, 250000
    rule = ("attribute tables of 1 to 200 fields (text, integer, real, date, logical) and 0 to 60 rows in six "
            "encodings, rows given by position or by name, blanks, full-width, over-long and non-ASCII values; "
            "non-trivial: one record or more")
    required = ("text", "integer", "real", "date", "logical", "blank", "cut to the field", "not ASCII",
                "by name", "field names kept", "refused number", "no records", "type in lower case",
                "nothing", "real cut to the decimals", "real for an integer")

    def gen(self, r):
        c = draw_file(r)
        c["t"] = 1
        c["typed"] = True
        c["shapes"] = [[i, -i] for i in range(len(c["recs"]))]
        return c

    def fixed(self, tier):
        return [{"many": 33000}, {"many": 66000}]

    larges = ("columns", "wide columns", "letters")

    def large(self, what):
        r = Gen("attributes " + what)
        c = self.gen(r)
        n = {"columns": 255, "wide columns": 250, "letters": 3}[what]
        c["fields"] = [("F%d" % i, "C", 254, 0) for i in range(n)] if what != "columns" else \
            [("F%d" % i, "CNNDL"[i % 5], (20, 12, 10, 8, 1)[i % 5], 3 * (i % 5 == 2)) for i in range(n)]
        c["recs"] = [[draw_attr(r, f, c["enc"]) for f in c["fields"]] for _ in range(20)]
        if what == "letters":       # texts that are much too long
            c["recs"] = [["x" * 300, r.text(70000, TEXTS[c["enc"]]), "y" * 65790] for _ in range(5)]
        n = len(c["recs"])
        c.update(shapes=[[i, -i] for i in range(n)], kw=[False] * n, lower=False)
        return c

    def nontrivial(self, c):
        return bool(c.get("recs"))

    def check(self, c, mon):
        c = expand(c)
        d = mon.dir()
        enc = c["enc"]
        w = writer_of(c)
        blobs, reader = save(w, c["how"], d)
        rd = reader(encoding=enc)
        fields = rd.fields[1:]
        want = [(f[0], f[1], int(f[2]), f[3]) for f in c["fields"]]
        expect([tuple(f) for f in fields] == want, "fields {} come back as {}", short(want), short(fields))
        mon.ev("field names kept")
        rows = rd.records()
        expect(len(rows) == len(c["recs"]) and rd.numRecords == len(rows),
               "{} records come back as {} (numRecords {})", len(c["recs"]), len(rows), rd.numRecords)
        for i, (g, row) in enumerate(zip(rows, c["recs"])):
            expect(len(g) == len(row), "record {} has {} values", i, len(g))
            for f, x, y in zip(c["fields"], g, row):
                m = attr_meaning(f, y, enc)
                expect(same_attr(x, m), "record {}, field {}: {!r} comes back as {!r}", i, f, y, x)
                if m == "":
                    mon.ev("blank")
                    mon.ev("nothing", int(y is None))
                elif f[1] == "C":
                    mon.ev("text")
                    if not m.isascii():
                        mon.ev("not ASCII")
                    if len(str(y).encode(enc)) > int(f[2]):
                        mon.ev("cut to the field")
                else:
                    if isinstance(m, Real):
                        mon.ev("real cut to the decimals", int(x != y and bool(f[3])))
                        mon.ev("real for an integer", int(not f[3]))
                    mon.ev({"N": "real" if f[3] else "integer", "D": "date", "L": "logical"}[f[1]])
            if c["kw"][i]:
                mon.ev("by name")
            expect(rd.record(i) == g, "record({}) differs from records()[{}]", i, i)
        if not rows:
            mon.ev("no records")
        elif c.get("lower"):
            mon.ev("type in lower case")
        # a number that does not fit is refused, not cut
        for f in c["fields"]:
            if f[1] == "N":
                w = shapefile.Writer(1)
                w.field(*f)
                w.point(0, 0)
                w.record(10 ** int(f[2]))
                raises(Exception, w.saveDbf, io.BytesIO())
                mon.ev("refused number")
                break


class OnDisk(Check):
    id = "C22"
    files = ("coral/shapefile.py",)
    quick, thorough = 8000, 250000
    rule = ("the bytes written for random shapefiles (as in the geometry and attribute workloads), saved once, "
            "twice, after adding more, through streams or paths, parsed by an independent strict parser "
            "of the ESRI and dBASE layouts; non-trivial: one shape or more")
    required = ("shp parsed", "shx parsed", "dbf parsed", "index agrees", "same bytes again", "grown", "the writer's own boxes")

    def gen(self, r):
        c = draw_file(r)
        more = [draw_shape(r, c["t"]) for _ in range(r.randint(1, 3))]
        c["more"] = more if r.chance(0.3) and c["shapes"] else []
        c["morerecs"] = [[draw_attr(r, f, c["enc"]) for f in c["fields"]] for _ in c["more"]]
        c["again"] = r.chance(0.5)
        return c

    def fixed(self, tier):
        return [{"many": 33000}, {"many": 66000}]

    larges = LARGES

    def large(self, what):
        return dict(large_file(Gen("disk %s %d" % what), what), more=[], morerecs=[], again=True)

    def nontrivial(self, c):
        return bool(c.get("shapes"))

    def check(self, c, mon):
        c = expand(c)
        d = mon.dir()
        t0 = time.localtime()[:3]
        w = writer_of(c)
        blobs, reader = save(w, c["how"], d)
        self.judge(c, c["shapes"], c["recs"], blobs, t0, mon)
        self.boxes(c, w, blobs[0], mon)
        if c["again"]:
            b2, _ = save(w, "streams", d)
            t1 = time.localtime()[:3]
            if t0 == t1:
                for a, b, what in zip(blobs, b2, ("shp", "shx", "dbf")):
                    expect(a == b, "saving again gives another {} file", what)
            mon.ev("same bytes again")
        if c["more"]:
            for s, row in zip(c["more"], c["morerecs"]):
                put(w, c["t"], s)
                w.record(*row)
            b3, _ = save(w, "streams", d)
            self.judge(c, c["shapes"] + c["more"], c["recs"] + c["morerecs"], b3, t0, mon)
            mon.ev("grown")

    def boxes(self, c, w, shp, mon):
        """What the writer says of its shapes."""
        want = [meaning(c["t"], s) for s in c["shapes"] if s is not None]
        if any(x["points"] for x in want):
            xs, ys = zip(*(p for x in want for p in x["points"]))
            expect(list(w.bbox()) == [min(xs), min(ys), max(xs), max(ys)], "bbox() is {}", w.bbox())
            box = struct.unpack("<8d", shp[36:100])
            if c["t"] in esri.HAS_Z:
                expect(tuple(w.zbox()) == box[4:6], "zbox() is {}, the file has {}", w.zbox(), box[4:6])
            if c["t"] in esri.HAS_M:
                expect(tuple(w.mbox()) == box[6:], "mbox() is {}, the file has {}", w.mbox(), box[6:])
            mon.ev("the writer's own boxes")

    def judge(self, c, shapes, recs, blobs, t0, mon):
        try:
            kind, box, got, index = esri.parse_shp(blobs[0])
            mon.ev("shp parsed")
            kind2, box2, index2 = esri.parse_shx(blobs[1])
            mon.ev("shx parsed")
            date, fields, rows = esri.parse_dbf(blobs[2])
            mon.ev("dbf parsed")
        except esri.Bad as e:
            raise Violation("bad file: %s" % e)
        expect(index == index2, "index {} for records at {}", short(index2), short(index))
        expect(kind == kind2 and box == box2, "shp and shx headers differ")
        mon.ev("index agrees")
        if any(shapes):
            expect(kind == c["t"], "type {} on disk instead of {}", kind, c["t"])
        expect(len(got) == len(shapes), "{} shapes on disk instead of {}", len(got), len(shapes))
        for i, (g, s) in enumerate(zip(got, shapes)):
            compare_disk(g, meaning(c["t"], s), "shape %d" % i)
        enc = c["enc"]
        now = time.localtime()[:3]
        expect(date in (t0, now), "date {} on disk", date)
        want = [(f[0].encode(enc), f[1], int(f[2]), f[3]) for f in c["fields"]]
        expect(fields == want, "fields on disk {} instead of {}", short(fields), short(want))
        expect(len(rows) == len(recs), "{} records on disk instead of {}", len(rows), len(recs))
        for (deleted, vals), row in zip(rows, recs):
            expect(not deleted, "record written as deleted")
            for f, x, y in zip(c["fields"], vals, row):
                n = int(f[2])
                if f[1] == "N" and isinstance(y, float):
                    expect(len(x) == n and Real(y, f[3]).near(float(x)) and (f[3] or x.strip().lstrip(b"-").isdigit()),
                           "field {}: {!r} on disk for {!r}", f, x, y)
                    continue
                y = disk_attr(f, y, enc)
                y = y.rjust(n) if f[1] == "N" else y.ljust(n)
                expect(x == y, "field {}: {!r} on disk instead of {!r}", f, x, y)
