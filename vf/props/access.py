"""Shapefiles: ways of reading, foreign files, editing, GeoJSON."""
import io
import os
import random
import struct
from fractions import Fraction

from vf import esri
from vf.core import Check, Gen, Violation, expect, raises, short, litter
from vf.props import shapes as S
from coral import shapefile


def rings_of(r, n, flat=False):
    """Some integer rings, clockwise (outer) and counter-clockwise (holes); flat: or without area."""
    out = []
    for i in range(n):
        k = r.choice((3, 4, 5, 8))
        x, y = r.randint(-50, 50), r.randint(-50, 50)
        w, h = r.randint(1, 20), r.randint(1, 20)
        ring = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
        if k == 3:
            ring = ring[:3]
        elif k > 4:
            ring = ring[:3] + [(x + w // 2, y + 3 * h), (x - 1, y + h)][:k - 3] + ring[3:]
        if r.chance(0.7):
            ring.reverse()
        s = r.randrange(len(ring))
        ring = ring[s:] + ring[:s]
        ring.append(ring[0])
        if r.chance(0.3):
            ring = [(a / 7, b / 7) for a, b in ring]
        elif flat and r.chance(0.1):
            ring = [(x, y), (x + w, y + h), (x + 3 * w, y + 3 * h), (x, y)]
            if r.chance(0.5):
                ring.reverse()
        elif flat and r.chance(0.05):
            ring = ring[:r.choice((1, 2))]
            ring.append(ring[0])
        out.append(ring)
    return out


def foreign_shape(r, t):
    if r.chance(0.08):
        return None
    if t in esri.POINTS:
        m = None if r.chance(0.4) else [S.measure(r)]
        return {"points": [(float(S.coordinate(r)), float(S.coordinate(r)))], "parts": None,
                "z": [float(S.coordinate(r))] if t == 11 else None,
                "m": m and [float(m[0])] if t in (11, 21) else None, "partTypes": None}
    if r.chance(0.03):      # without any point
        return {"points": [], "parts": [] if t in esri.PARTED else None, "z": [] if t in esri.HAS_Z else None,
                "m": None, "partTypes": [] if t == 31 else None}
    parts, pts = [], []
    for i in range(1 if t in esri.MULTIPOINTS else r.choice((1, 1, 2, 3))):
        parts.append(len(pts))
        if t in (5, 15, 25) and r.chance(0.5):
            pts += [(float(a), float(b)) for a, b in rings_of(r, 1)[0]]
        else:
            pts += [(float(S.coordinate(r)), float(S.coordinate(r))) for _ in range(1 + r.size(12))]
    n = len(pts)
    # The measures are left out, or all there.
    m = None if r.chance(0.4) or t not in esri.HAS_M else [float(S.measure(r)) for _ in range(n)]
    return {"points": pts, "parts": parts if t in esri.PARTED else None,
            "z": [float(S.coordinate(r)) for _ in range(n)] if t in esri.HAS_Z else None, "m": m,
            "partTypes": [r.randint(0, 5) for _ in parts] if t == 31 else None}


def foreign_file(r, tmax=None, deleted=True):
    t = r.choice(esri.TYPES)
    n = r.size(10)
    shapes = [foreign_shape(r, t) for _ in range(n)]
    fields, rows = foreign_table(r, n)
    return {"t": t, "shapes": shapes, "fields": fields, "rows": rows,
            # (room for measures that are left out would be read as measures)
            "pad": [r.choice((0, 0, 0, 1, 4, 50)) if t not in esri.HAS_M or s and s["m"] is not None else 0
                    for s in shapes] if r.chance(0.3) else [],
            "wrong": r.choice((0, 0, 0, 8, -8, -20, -60, -200, -1000, 1000, 1 << 20)),
            "deleted": sorted(r.sample(range(n), r.randint(0, n))) if deleted and n and r.chance(0.4) else [],
            "eof": r.chance(0.6)}


LARGES = ("shapes", "more shapes", "points", "parts", "columns", "deleted")


def large_file(r, what):
    """A file that has much of something."""
    t = {"shapes": 5, "more shapes": 1, "points": 13, "parts": 15, "columns": 3, "deleted": 11}[what]
    n = {"shapes": 2000, "more shapes": 66000, "points": 2, "parts": 3, "columns": 20, "deleted": 3000}[what]
    shapes = []
    for i in range(n):
        if what in ("points", "parts") and i < 2:
            k = 70000 if i == 0 else 300
            pts = [(float(j % 977), float(j % 89) / 7) for j in range(k)]
            parts = list(range(0, k, 2)) if what == "parts" else [0, 40, k // 2]
            shapes.append({"points": pts, "parts": parts, "z": [j / 4 for j in range(k)],
                           "m": [j / 2 for j in range(k)] if i else None, "partTypes": None})
        else:
            shapes.append(foreign_shape(r, t))
    fields, rows = foreign_table(r, n)
    if what == "columns":
        fields = [(b"C%d" % i, "C", 254, 0) for i in range(120)] + [(b"N%d" % i, "N", 18, 0) for i in range(8)]
        rows = [[b"x" + b"y" * r.randint(0, 253) for _ in range(120)] + [b"%d" % r.randint(0, 10 ** 17) for _ in range(8)] for _ in range(n)]
    return {"t": t, "shapes": shapes, "fields": fields, "rows": rows, "pad": [], "wrong": 0,
            "deleted": sorted(r.sample(range(n), n // 2)) if what == "deleted" else [], "eof": True}


def foreign_table(r, n):
    fields = []
    for i in range(r.choice((1, 1, 2, 3, 6))):
        name = ("%s%d" % (r.text(r.randint(0, 8), "ABCXYZ_"), i)).encode()
        k = r.choice("CCNNND")
        if k == "C":
            fields.append((name, "C", r.choice((1, 5, 20, 254)), 0))
        elif k == "N":
            dec = r.choice((0, 0, 3, 11))
            fields.append((name, "N", r.randint(dec + 3, 24) if dec else r.randint(1, 18), dec))
        else:
            fields.append((name, "D", 8, 0))
    rows = []
    for _ in range(n):
        row = []
        for name, k, size, dec in fields:
            if r.chance(0.1):
                row.append(b" " * r.choice((0, size)))
            elif k == "C":
                row.append(("x" + r.text(r.randint(0, size - 1), "abc ,.'\"0")).encode()[:size])
            elif k == "N" and dec:
                v = "%+.*f" if size > dec + 3 and r.chance(0.1) else "%.*f"
                v = v % (dec, r.uniform(-9, 9))
                if size >= 12 and r.chance(0.1):
                    v = "%.*e" % (min(dec, size - 8), r.uniform(-9, 9) * 10 ** r.randint(-9, max(0, min(9, size - dec - 4))))
                row.append(v.encode()[:size])
            elif k == "N":
                v = str(r.choice((0, 7, -3, 10**size - 1, r.randint(0, 9999))))
                if r.chance(0.2):
                    v = v.zfill(size)
                elif r.chance(0.1) and v[0] != "-" and len(v) < size:
                    v = "+" + v
                v = (v if len(v) <= size else "1").encode()
                if r.chance(0.1):
                    v = r.choice((v.rjust(size, b"\0"), v.ljust(size, b"\0"), b"\0" * (size > len(v)) + v))
                row.append(v)
            else:
                row.append(b"20240229")
        rows.append(row)
    return fields, rows


def foreign_blobs(c):
    shp, shx = esri.build_shp(c["t"], c["shapes"], c["pad"], c["wrong"])
    dbf = esri.build_dbf(c["fields"], c["rows"], c["deleted"], c["eof"])
    return shp, shx, dbf


def foreign_meaning(c):
    shapes = []
    for s in c["shapes"]:
        if s is None:
            shapes.append({"type": 0, "points": [], "parts": None, "z": None, "m": None, "partTypes": None})
        else:
            shapes.append(dict(s, type=c["t"]))
    rows = []
    for i, row in enumerate(c["rows"]):
        if i in c["deleted"]:
            rows.append(None)
            continue
        vals = []
        for (name, k, size, dec), v in zip(c["fields"], row):
            v = v.decode().strip(" \0")
            if v == "":
                vals.append("")
            elif k == "N":
                vals.append(float(v) if dec else int(v))
            else:
                vals.append(v)
        rows.append(vals)
    return shapes, rows


def same_rows(got, want, where):
    expect(len(got) == len(want), "{}: {} records instead of {}", where, len(got), len(want))
    for i, (g, x) in enumerate(zip(got, want)):
        same_row(g, x, "%s [%d]" % (where, i))


def same_row(g, x, where):
    if x is None or g is None:
        expect(g is x, "{}: {} instead of {}", where, short(g), short(x))
        return
    expect(len(g) == len(x) and all(S.same_attr(a, b) for a, b in zip(g, x)),
           "{}: record {} instead of {}", where, short(g), short(x))


def spoil(x):
    """The caller does what it likes with what it got."""
    if isinstance(x, list):
        x.reverse()
        x.append(None)
        return
    for k in ("points", "parts", "partTypes", "z", "m", "bbox", "record", "shape"):
        v = getattr(x, k, None)
        if isinstance(v, list) and v:
            if isinstance(v[0], list):
                v[0].append(7)
            v.pop()
        elif v is not None and k == "shape":
            spoil(v)


class Flaky(io.BytesIO):
    """A stream that fails, now and then, as a network drive does."""

    fuse = None

    def read(self, *a):
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                raise Glitch("not now")
        return super().read(*a)


class Glitch(Exception):
    pass


class Access(Check):
    id = "C23"
    files = ("coral/shapefile.py",)
    quick, thorough = 8000, 250000
    rule = ("random sequences of up to 25 reading operations on one reader (single shapes, records and pairs by "
            "positive and negative index, whole listings, two iterators of each kind stepped at any time, "
            "indices out of range) over files with padding, null shapes and deleted records, opened by name or as "
            "streams, with and without the index, the geometry or the attribute file; against the contents computed "
            "independently; non-trivial: two operations or more")
    required = ("shape", "shape, negative", "record", "shapeRecord", "shapes", "records", "shapeRecords",
                "iterShapes step", "iterRecords step", "iterator end", "out of range", "deleted record",
                "no index", "geometry only", "attributes only", "opened by name", "loaded again", "failed read", "missing file")

    def gen(self, r):
        c = foreign_file(r)
        c["how"] = r.choice(("path", "path", "path.shp", "files", "streams", "no shx", "no shx", "shp only", "shp+shx", "dbf only"))
        n = len(c["shapes"])
        ops = []
        for _ in range(r.choice((2, 6, 25))):
            k = r.choice(("shape", "record", "shapeRecord", "shapes", "records", "shapeRecords",
                          "iterS", "iterR", "stepS", "stepR", "stepS", "stepR", "fault"))
            if k == "fault":
                ops.append((k, (r.choice(("shape", "record", "shapeRecord", "shapes", "records", "shapeRecords", "iterShapes", "iterRecords")),
                                r.randrange(n) if n else 0, r.choice((0, 1, 2, 3, 5, 9, 30, 100)))))
            elif k in ("shape", "record", "shapeRecord"):
                i = r.randint(-n - 2, n + 1) if r.chance(0.3) or not n else r.randrange(n)
                ops.append((k, i))
            else:
                ops.append((k, r.randint(0, 1)))
        c["ops"] = ops
        c["other"] = foreign_file(r) if r.chance(0.2) and c["how"] in ("path", "path.shp") else None
        return c

    def open(self, c, mon):
        blobs = foreign_blobs(c)
        how = c["how"]
        if how in ("path", "path.shp", "files"):
            d = mon.dir()
            for e, b in random.Random(len(blobs[0])).sample(list(zip(("shp", "shx", "dbf"), blobs)), 3):
                if how != "files":
                    raises(shapefile.ShapefileException, shapefile.Reader, os.path.join(d, "a b"))
                    mon.ev("missing file")
                with open(os.path.join(d, "a b." + e), "wb") as f:
                    f.write(b)
            raises(shapefile.ShapefileException, shapefile.Reader)
            mon.ev("opened by name")
            if how == "files":
                self.files_ = [open(os.path.join(d, "a b." + e), "rb") for e in ("shp", "shx", "dbf")]
                return shapefile.Reader(**dict(zip(("shp", "shx", "dbf"), self.files_)))
            return shapefile.Reader(os.path.join(d, "a b" + (".shp" if how == "path.shp" else "")))
        s = dict(zip(("shp", "shx", "dbf"), map(Flaky, blobs)))
        for f in s.values():
            f.seek(7)       # a stream the caller already looked at
        if how == "no shx":
            del s["shx"]
            mon.ev("no index")
        elif how == "shp only":
            s = {"shp": s["shp"]}
        elif how == "shp+shx":
            del s["dbf"]
        elif how == "dbf only":
            s = {"dbf": s["dbf"]}
            mon.ev("attributes only")
        if "dbf" not in s:
            mon.ev("geometry only")
        return shapefile.Reader(**s)

    larges = tuple((x, how) for x in LARGES for how in ("path", "streams", "no shx")
                   if how == "path" or x not in ("more shapes", "parts"))

    def large(self, what):
        r = Gen("large " + what[0])
        c = large_file(r, what[0])
        n = len(c["shapes"])
        ops = [("stepS", 0), ("stepR", 0)] * 3
        for i in (n - 1, 0, n // 2, -1, 3 * n // 4, -n, 1, n, -n - 1):
            ops += [("shape", i), ("record", i), ("shapeRecord", i), ("stepS", 0), ("stepR", 0)]
        ops += [("shapes", 0), ("records", 0), ("stepS", 0), ("stepR", 0), ("shapeRecords", 0), ("stepS", 0), ("stepR", 0)]
        return dict(c, how=what[1], ops=ops, other=None)

    def nontrivial(self, c):
        return bool(c["shapes"])

    def check(self, c, mon):
        if c["other"] is not None:
            # a reader that had another file open first
            rd = self.open(dict(c["other"], how="path"), mon)
            rd.records()
            rd.shapes()
            if c["other"]["shapes"]:
                rd.shapeRecord(0)
            d = mon.dir()
            for e, b in zip(("shp", "shx", "dbf"), foreign_blobs(c)):
                with open(os.path.join(d, "second." + e), "wb") as f:
                    f.write(b)
            rd.load(os.path.join(d, "second"))
            mon.ev("loaded again")
            expect(len(rd.fields) == len(c["fields"]) + 1, "fields of both files: {}", short(rd.fields))
        else:
            rd = self.open(c, mon)
        shapes, rows = foreign_meaning(c)
        n = len(shapes)
        geo = c["how"] != "dbf only"
        att = c["how"] not in ("shp only", "shp+shx")
        alive = [x for x in rows if x is not None]
        its = {}
        for k, a in c["ops"]:
            if k == "fault":
                self.fault(rd, a, mon)
                continue
            if k in ("shape", "shapes", "iterS", "stepS") and not geo or \
                    k in ("record", "records", "iterR", "stepR") and not att or \
                    k in ("shapeRecord", "shapeRecords") and not (geo and att):
                if k in ("shape", "shapes", "record", "records", "shapeRecord"):
                    raises(Exception, getattr(rd, k), *([0] if k[-1] != "s" else []))
                continue
            if k in ("shape", "record", "shapeRecord"):
                if not -n <= a < n:
                    # Without records the length is not known beforehand.
                    raises(IndexError if att else Exception, getattr(rd, k), a)
                    mon.ev("out of range")
                    continue
                if a < 0 and c["how"] == "shp only":
                    continue        # nothing tells where the end is
                got = getattr(rd, k)(a)
                if k == "shape":
                    S.compare_read(got, shapes[a], "shape(%d)" % a)
                    mon.ev("shape, negative" if a < 0 else "shape")
                elif k == "record":
                    same_row(got, rows[a], "record(%d)" % a)
                    mon.ev("record")
                else:
                    S.compare_read(got.shape, shapes[a], "shapeRecord(%d)" % a)
                    same_row(got.record, rows[a], "shapeRecord(%d)" % a)
                    mon.ev("shapeRecord")
                if rows[a] is None:
                    mon.ev("deleted record")
                spoil(got)
            elif k == "shapes":
                got = rd.shapes()
                expect(len(got) == n, "shapes(): {} instead of {}", len(got), n)
                for i in range(n):
                    S.compare_read(got[i], shapes[i], "shapes()[%d]" % i)
                    spoil(got[i])
                spoil(got)
                mon.ev("shapes")
            elif k == "records":
                got = rd.records()
                same_rows(got, alive, "records()")
                for g in got:
                    spoil(g)
                spoil(got)
                mon.ev("records")
            elif k == "shapeRecords":
                got = rd.shapeRecords()
                want = [i for i in range(n) if rows[i] is not None]
                expect(len(got) == len(want), "shapeRecords(): {} instead of {}", len(got), len(want))
                for i, g in zip(want, got):
                    S.compare_read(g.shape, shapes[i], "shapeRecords() of %d" % i)
                    same_row(g.record, rows[i], "shapeRecords() of %d" % i)
                    spoil(g)
                spoil(got)
                mon.ev("shapeRecords")
            elif k == "iterS":
                its["S", a] = [rd.iterShapes(), 0]
            elif k == "iterR":
                its["R", a] = [rd.iterRecords(), 0]
            else:
                w = k[-1]
                if (w, a) not in its:
                    its[w, a] = [rd.iterShapes() if w == "S" else rd.iterRecords(), 0]
                it = its[w, a]
                want = shapes if w == "S" else alive
                if it[1] >= len(want):
                    raises(StopIteration, next, it[0])
                    mon.ev("iterator end")
                    del its[w, a]
                    continue
                got = next(it[0])
                if w == "S":
                    S.compare_read(got, want[it[1]], "iterShapes %d" % it[1])
                    mon.ev("iterShapes step")
                else:
                    same_row(got, want[it[1]], "iterRecords %d" % it[1])
                    mon.ev("iterRecords step")
                spoil(got)
                it[1] += 1
        for f in (rd.shp, rd.shx, rd.dbf):
            if f:
                f.close()
        for f in self.__dict__.pop("files_", ()):
            f.close()


    @staticmethod
    def fault(rd, a, mon):
        """An operation that fails on the way; nothing may be left of it."""
        name, i, fuse = a
        fs = [f for f in (rd.shp, rd.shx, rd.dbf) if isinstance(f, Flaky)]
        if not fs:
            return
        for f in fs:
            f.fuse = fuse
        try:
            if name.startswith("iter"):
                for _ in getattr(rd, name)():
                    pass
            else:
                getattr(rd, name)(*([i] if name[-1] != "s" else []))
        except Glitch:
            mon.ev("failed read")
        except Exception:
            pass        # what it has no file for
        for f in fs:
            f.fuse = None


class Foreign(Check):
    id = "C26"
    files = ("coral/shapefile.py",)
    quick, thorough = 8000, 250000
    rule = ("shapefiles laid out by an independent writer of the ESRI and dBASE formats: every shape type, measures "
            "present or left out, no-data measures, padded records, header length off, deleted records, with and "
            "without the end-of-file byte, zero-filled and blank numbers; non-trivial: one shape or more")
    required = ("measures left out", "measures there", "no-data measure", "padded record", "length off",
                "deleted", "no end byte", "blank", "zero-filled", "NULs around a number") + tuple("type %d" % t for t in esri.TYPES)

    def gen(self, r):
        return foreign_file(r)

    larges = LARGES

    def large(self, what):
        return large_file(Gen("large " + what), what)

    def nontrivial(self, c):
        return bool(c["shapes"])

    def check(self, c, mon):
        shp, shx, dbf = foreign_blobs(c)
        rd = shapefile.Reader(shp=io.BytesIO(shp), shx=io.BytesIO(shx), dbf=io.BytesIO(dbf))
        shapes, rows = foreign_meaning(c)
        got = rd.shapes()
        expect(len(got) == len(shapes), "{} shapes instead of {}", len(got), len(shapes))
        expect(rd.shapeType == c["t"], "file type {}", rd.shapeType)
        box = struct.unpack("<8d", shp[36:100])
        expect((tuple(rd.bbox), tuple(rd.elevation), tuple(rd.measure)) == (box[:4], box[4:6], box[6:]),
               "boxes {}, {} and {} instead of {}", list(rd.bbox), list(rd.elevation), list(rd.measure), box)
        for i, (g, x) in enumerate(zip(got, shapes)):
            S.compare_read(g, x, "shape %d" % i)
            S.compare_read(rd.shape(i), x, "shape(%d)" % i)
            s = c["shapes"][i]
            if s is None:
                continue
            mon.ev("type %d" % c["t"])
            if c["t"] in esri.HAS_M:
                if s["m"] is None:
                    mon.ev("measures left out")
                    expect(not getattr(g, "m", None), "shape {}: measures {} out of nowhere", i, short(getattr(g, "m", None)))
                else:
                    mon.ev("measures there")
                    if any(v < -1e38 for v in s["m"]):
                        mon.ev("no-data measure")
                        if c["t"] not in esri.POINTS:
                            expect([v is None for v in g.m] == [v < -1e38 for v in s["m"]],
                                   "shape {}: measures {} for {}", i, short(list(g.m)), short(s["m"]))
            if i < len(c["pad"]) and c["pad"][i]:
                mon.ev("padded record")
        if c["wrong"]:
            mon.ev("length off")
        if not c["eof"]:
            mon.ev("no end byte")
        expect(rd.numRecords == len(rows), "numRecords {}", rd.numRecords)
        expect([tuple(f) for f in rd.fields[1:]] == [(f[0].decode(),) + f[1:] for f in c["fields"]],
               "fields {}", short(rd.fields))
        same_rows(rd.records(), [x for x in rows if x is not None], "records()")
        same_rows(list(rd.iterRecords()), [x for x in rows if x is not None], "iterRecords()")
        for i, x in enumerate(rows):
            same_row(rd.record(i), x, "record(%d)" % i)
            if x is None:
                mon.ev("deleted")
                continue
            mon.ev("blank", x.count(""))
            for f, v in zip(c["fields"], c["rows"][i]):
                if f[1] == "N" and not f[3] and v[:1] == b"0" and len(v) > 1:
                    mon.ev("zero-filled")
                if f[1] == "N" and b"\0" in v:
                    mon.ev("NULs around a number")


def area2(ring):
    """Twice the signed area, exactly."""
    p = [(Fraction(x), Fraction(y)) for x, y in ring]
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(p, p[1:] + p[:1]))


def tupled(o):
    return tuple(map(tupled, o)) if isinstance(o, (list, tuple)) else o


class GeoJSON(Check):
    id = "C24"
    files = ("coral/shapefile.py",)
    quick, thorough = 8000, 250000
    rule = ("the GeoJSON mapping of shapes read from a file: points, multipoints, lines and polygons of 1 to 9 "
            "parts in all their Z and M variants; rings clockwise (outer) and counter-clockwise (holes) in any order; "
            "against an independent grouping with exact areas; non-trivial: more than one part")
    required = ("Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon", "hole", "no area", "short ring", "tiny rings", "without points")

    def gen(self, r):
        t = r.choice((1, 11, 21, 8, 18, 28, 3, 13, 23) + (5, 15, 25) * 4)
        if t in (5, 15, 25):
            parts = rings_of(r, r.choice((1, 2, 3, 4, 9)), True)
            if r.chance(0.2):       # tiny rings (the scale keeps all values exact)
                k = 2.0 ** -r.randint(8, 30)
                parts = [[(x * k, y * k) for x, y in p] for p in parts]
        elif t in esri.POINTS:
            parts = [[(S.coordinate(r), S.coordinate(r))]]
        else:
            parts = [[(S.coordinate(r), S.coordinate(r)) for _ in range(1 + r.size(10))]
                     for _ in range(1 if t in esri.MULTIPOINTS else r.choice((1, 1, 2, 3, 7)))]
        if t not in esri.POINTS and r.chance(0.03):
            parts = []
        elif t in (3, 13, 23) and len(parts) > 1 and r.chance(0.2):
            parts[r.choice((0, 0, -1, len(parts) // 2))] = []
        return {"t": t, "parts": parts}

    larges = ("ring", "rings", "outer rings", "multipoint", "line", "lines")

    def large(self, what):
        r = Gen("large " + what)
        pts = [(float(i % 977), float(i % 89) / 7) for i in range(70000)]
        if what == "ring":
            big = [(i, (-1) ** i * 3 + 10) for i in range(20000)] + [(20000, -5), (0, -5)]
            parts = [big[::-1] + big[-1:], big + big[:1], big[::-1] + big[-1:]]
            parts += rings_of(r, 5)
        elif "rings" in what:
            parts = [p for p in rings_of(r, 400) if what == "rings" or area2(p) < 0]
        elif what == "lines":
            parts = [pts[i:i + 2] for i in range(0, 9000, 2)]
        else:
            parts = [pts]
        return {"t": 8 if what == "multipoint" else 13 if "line" in what else 5, "parts": parts}

    def nontrivial(self, c):
        return len(c["parts"]) > 1

    def check(self, c, mon):
        t = c["t"]
        parts = [[(float(x), float(y)) for x, y in p] for p in c["parts"]]
        pts = [p for q in parts for p in q]
        starts, k = [], 0
        for p in parts:
            starts.append(k)
            k += len(p)
        s = {"points": pts, "parts": starts, "z": [1.0] * k, "m": [2.0] * k, "partTypes": None}
        shp, shx = esri.build_shp(t, [s])
        rd = shapefile.Reader(shp=io.BytesIO(shp), shx=io.BytesIO(shx))
        got = rd.shape(0).__geo_interface__
        if not parts:
            kind = "Point" if t in esri.MULTIPOINTS else "LineString" if t in (3, 13, 23) else "Polygon"
            expect(got["type"] in (kind, "Multi" + kind), "type {} of a {} shape without points", got["type"], t)
            expect(not got["coordinates"], "coordinates {} of a shape without points", got["coordinates"])
            mon.ev("without points")
            return
        if t in esri.POINTS:
            want = ("Point", pts[0])
        elif t in esri.MULTIPOINTS:
            want = ("MultiPoint", tupled(pts))
        elif t in (3, 13, 23):
            want = ("LineString", tupled(parts[0])) if len(parts) == 1 else ("MultiLineString", tupled(parts))
        else:
            areas = [area2(p) for p in parts]
            reach = max(max(abs(x), abs(y)) for x, y in pts)
            if any(a and abs(a) < 1e-9 * reach * reach for a in areas):
                return              # (rounding may hide the orientation)
            mon.ev("tiny rings", reach < 1e-3)
            groups = []
            for p, a in zip(parts, areas):
                if a < 0 or not groups:
                    groups.append([p])
                else:
                    groups[-1].append(p)
                    mon.ev("hole" if a else "no area")
                mon.ev("short ring", int(len(p) < 4))
            want = ("Polygon", tupled(groups[0])) if len(groups) == 1 else ("MultiPolygon", tupled(groups))
        expect(got["type"] == want[0], "type {} instead of {}", got["type"], want[0])
        g = tupled(got["coordinates"])
        if want[0] == "MultiLineString" and () in want[1]:
            # a part of no points may be there or not
            mon.ev("empty part")
            g, want = tuple(filter(None, g)), (want[0], tuple(filter(None, want[1])))
        expect(g == want[1], "{}: coordinates {} instead of {}", want[0], short(g), short(want[1]))
        mon.ev(want[0])


class Editing(Check):
    id = "C25"
    files = ("coral/shapefile.py",)
    quick, thorough = 6000, 200000
    rule = ("shapefiles of every type opened in the editor, 0 to 6 shapes and records added in any order, saved in "
            "place or elsewhere, up to three times over, some with deleted records, some shapes deleted by number; the result must be what was "
            "there plus what was added; non-trivial: something was there and something was added")
    required = ("kept shape", "kept record", "added", "saved in place", "saved elsewhere", "edited again",
                "deleted record gone", "nothing added", "shape deleted", "balanced") + tuple("type %d" % t for t in esri.TYPES)

    def gen(self, r):
        while True:
            c = S.draw_file(r)
            if c["enc"] == "utf-8":
                break
        c["how"], c["typed"] = "plain", True
        c["deleted"] = sorted(r.sample(range(len(c["shapes"])), r.randint(0, min(3, len(c["shapes"]))))) \
            if r.chance(0.3) else []
        c["rounds"] = []
        for _ in range(r.choice((1, 1, 2, 3))):
            n = r.choice((0, 1, 1, 2, 6))
            shapes = [S.draw_shape(r, c["t"]) for _ in range(n)]
            recs = [[S.draw_attr(r, f, "utf-8") for f in c["fields"]] for _ in range(n)]
            c["rounds"].append((shapes, recs, r.choice(("together", "shapes first", "records first")), r.chance(0.6),
                                [r.randint(0, 99) for _ in range(r.choice((1, 1, 2, 3)))] if r.chance(0.3) else [],
                                r.chance(0.5)))
        c["bare"] = [S.draw_attr(r, f, "utf-8") for f in c["fields"]] if r.chance(0.2) else None
        return c

    larges = ("shapes", "points", "columns", "deleted")

    def large(self, what):
        r = Gen("edit " + what)
        while True:
            c = self.gen(r)
            if c["shapes"] and len(c["rounds"]) > 1 and any(x[0] for x in c["rounds"]) and (what != "points" or c["t"] in (13, 15)):
                break
        t, n = c["t"], {"shapes": 3000, "points": 3, "columns": 20, "deleted": 300}[what]
        if what == "columns":
            c["fields"] = [("C%d" % i, "C", 254, 0) for i in range(120)]
            c["rounds"] = [(x[0], [[S.draw_attr(r, f, "utf-8") for f in c["fields"]] for _ in x[0]]) + x[2:] for x in c["rounds"]]
        row = lambda: [S.draw_attr(r, f, "utf-8") for f in c["fields"]]
        c["shapes"] = [S.draw_shape(r, t) for _ in range(n)]
        if what == "points":
            c["shapes"][1] = S.long_shape(r, t, 70000)
            c["rounds"][0] = (c["rounds"][0][0] + [S.long_shape(r, t, 40000)], c["rounds"][0][1] + [row()]) + c["rounds"][0][2:]
        c["recs"] = [row() for _ in range(n)]
        c["deleted"] = sorted(r.sample(range(n), 290)) if what == "deleted" else []
        c.update(bare=None, kw=[False] * n, lower=False)
        return c

    def nontrivial(self, c):
        return bool(c["shapes"]) and any(x[0] for x in c["rounds"])

    def check(self, c, mon):
        d = mon.dir()
        t = c["t"]
        w = S.writer_of(c)
        path = os.path.join(d, "f0")
        w.save(path)
        if c["deleted"]:
            self.strike(path + ".dbf", c["deleted"])
            mon.ev("deleted record gone", len(c["deleted"]))
        keep = [i for i in range(len(c["shapes"])) if i not in c["deleted"]]
        shapes = [S.meaning(t, c["shapes"][i]) for i in keep]
        recs = [[S.attr_meaning(f, v, "utf-8") for f, v in zip(c["fields"], c["recs"][i])] for i in keep]
        for k, (more, rows, order, inplace, gone, early) in enumerate(c["rounds"]):
            e = shapefile.Editor(path)
            if early:
                self.remove(e, gone, shapes, recs, mon)
            if order == "records first":
                # The editor adds a null shape for each record too many when
                # a point comes; hand them in one by one.
                for s, row in zip(more, rows):
                    e.record(*row)
                    S.put(e, t, s)
            else:
                for s, row in zip(more, rows):
                    S.put(e, t, s)
                    if order == "together":
                        e.record(*row)
                if order == "shapes first":
                    for row in rows:
                        e.record(*row)
            shapes += [S.meaning(t, s) for s in more]
            recs += [[S.attr_meaning(f, v, "utf-8") for f, v in zip(c["fields"], row)] for row in rows]
            if c["bare"] is not None and all(x is not None for x in c["bare"]):
                # records without shapes
                n = 1 + (len(more) + k) % 3
                for _ in range(n):
                    e.record(*c["bare"])
                for _ in range(n + k):
                    e.balance()
                shapes += [S.meaning(t, None) for _ in range(n)]
                recs += [[S.attr_meaning(f, v, "utf-8") for f, v in zip(c["fields"], c["bare"])] for _ in range(n)]
                mon.ev("balanced")
            if not early:
                self.remove(e, gone, shapes, recs, mon)
            if not inplace:
                path = os.path.join(d, "f%d" % (k + 1))
                litter(path + ".shp", path + ".shx", path + ".dbf")
            e.save(path)
            mon.ev("saved in place" if inplace else "saved elsewhere")
            mon.ev("added", len(more))
            if not more:
                mon.ev("nothing added")
            if k:
                mon.ev("edited again")
            rd = shapefile.Reader(path)
            got = rd.shapes()
            expect(len(got) == len(shapes), "{} shapes instead of {}", len(got), len(shapes))
            for i, (g, x) in enumerate(zip(got, shapes)):
                S.compare_read(g, x, "shape %d" % i)
                mon.ev("kept shape")
                if x["type"]:
                    mon.ev("type %d" % t)
            same_rows(rd.records(), recs, "records")
            mon.ev("kept record", len(recs))
            want = [(f[0], f[1], int(f[2]), f[3]) for f in c["fields"]]
            expect([tuple(f) for f in rd.fields[1:]] == want, "fields {} instead of {}", short(rd.fields), short(want))
            for f in (rd.shp, rd.shx, rd.dbf):
                f.close()
            with open(path + ".shp", "rb") as f, open(path + ".shx", "rb") as g, open(path + ".dbf", "rb") as h:
                try:
                    index = esri.parse_shp(f.read())[3]
                    expect(index == esri.parse_shx(g.read())[2], "the index is not that of the shapes")
                    esri.parse_dbf(h.read())
                except esri.Bad as x:
                    raise Violation("bad file after editing: %s" % x)

    @staticmethod
    def remove(e, gone, shapes, recs, mon):
        for j in gone:
            if shapes:
                i = j % (2 * len(shapes)) - len(shapes)
                e.delete(i)
                del shapes[i], recs[i]
                mon.ev("shape deleted")

    @staticmethod
    def strike(path, rows):
        """Flag records as deleted, as a database program does."""
        with open(path, "rb") as f:
            b = bytearray(f.read())
        hlen = int.from_bytes(b[8:10], "little")
        rlen = int.from_bytes(b[10:12], "little")
        for i in rows:
            b[hlen + i * rlen] = 0x2a
        with open(path, "wb") as f:
            f.write(b)


class Gathered(Check):
    id = "C45"
    files = ("coral/shapefile.py",)
    quick, thorough = 4000, 120000
    rule = ("shapefiles of every type put together from one to three others (written by the package or by another program, some with "
            "deleted records): everything, a selection, in another order or with repetitions, the shapes handed over as they were read or "
            "built again from their points, the field definitions as they are, copied or declared again, saved elsewhere or over the first of the "
            "files; non-trivial: two shapes or more")
    required = ("kept shape", "kept record", "several files", "selected", "repeated", "everything at once", "one by one", "built again",
                "fields of the reader itself", "fields copied", "fields declared", "type of the first shape", "deleted left out", "readers unchanged",
                "over the source", "of another program", "measures", "opened in the editor") + tuple("type %d" % t for t in esri.TYPES)

    def gen(self, r):
        foreign = r.chance(0.3)
        src = []
        while True:
            c = foreign_file(r) if foreign else S.draw_file(r)
            if foreign or c["enc"] == "utf-8" and "many" not in c:
                break
        src.append(c)
        for _ in range(r.choice((0, 0, 1, 2))):
            n = r.size(8)
            if foreign:
                src.append(dict(c, shapes=[foreign_shape(r, c["t"]) for _ in range(n)], rows=[r.choice(c["rows"]) for _ in range(n)] if c["rows"] else [],
                                pad=[], wrong=0, deleted=[]))
                if not c["rows"]:
                    src[-1]["shapes"] = []
            else:
                src.append(dict(c, shapes=[S.draw_shape(r, c["t"]) for _ in range(n)],
                                recs=[[S.draw_attr(r, f, "utf-8") for f in c["fields"]] for _ in range(n)], kw=[False] * n))
        if not foreign:
            for s in src:
                s.update(how="plain", typed=True, deleted=sorted(r.sample(range(len(s["shapes"])), r.randint(0, min(3, len(s["shapes"])))))
                         if r.chance(0.2) else [])
        return {"foreign": foreign, "src": src, "pick": r.choice(("all", "some", "shuffled", "repeated")), "salt": r.getrandbits(30),
                "way": r.choice(("at once", "one by one", "again", "edited")), "fields": r.choice(("own", "copied", "declared")),
                "typed": r.chance(0.6), "over": r.chance(0.2)}

    larges = ("shapes", "points")

    def large(self, what):
        r = Gen("gather " + what)
        while True:
            c = self.gen(r)
            if not c["foreign"] and c["src"][0]["t"] in (13, 15):
                break
        t = c["src"][0]["t"]
        for s in c["src"]:
            s["shapes"] = [S.draw_shape(r, t) for _ in range(2000 if what == "shapes" else 2)] + [S.long_shape(r, t, 30000)] * (what == "points")
            s["recs"] = [[S.draw_attr(r, f, "utf-8") for f in s["fields"]] for _ in s["shapes"]]
            s.update(kw=[False] * len(s["recs"]), deleted=[])
        return c

    def nontrivial(self, c):
        return sum(len(s["shapes"]) for s in c["src"]) > 1

    @staticmethod
    def seen(s):
        """What a reader tells about a shape."""
        return {"type": s.shapeType, "points": [tuple(p) for p in s.points], "parts": list(s.parts) if hasattr(s, "parts") else None,
                "z": list(s.z) if hasattr(s, "z") else None, "m": list(s.m) if hasattr(s, "m") else None,
                "partTypes": list(s.partTypes) if hasattr(s, "partTypes") else None}

    @staticmethod
    def faithful(c, paths, told):
        """What the readers tell is what the files hold."""
        for path, src, has in zip(paths, c["src"], told):
            if c["foreign"]:
                shapes = [dict(s, type=src["t"]) if s else {"type": 0, "points": []} for s in src["shapes"]]
            else:
                shapes = esri.parse_shp(slurp_files(path)[0])[2]
            live = [s for i, s in enumerate(shapes) if i not in src["deleted"]]
            expect(len(live) == len(has), "{} shapes told of {}", len(has), len(live))
            for i, (s, (x, _)) in enumerate(zip(live, has)):
                expect(x["type"] == s["type"] and x["points"] == s["points"], "shape {} told as {}, stored {}", i, short(x), short(s))
                for k in ("parts", "z", "partTypes", "m") if s["points"] else ():
                    v, w = s[k], x[k]
                    if k == "m":
                        v, w = ([None if m is None or m < -1e38 else m for m in ms or ()] for ms in (v, w))
                    expect((w or None) == (v or None), "shape {}: {} told as {}, stored {}", i, k, short(x[k]), short(s[k]))

    def check(self, c, mon):
        d = mon.dir()
        rng = random.Random(c["salt"])
        paths = []
        for k, s in enumerate(c["src"]):
            path = os.path.join(d, "s%d" % k)
            paths.append(path)
            if c["foreign"]:
                for ext, b in zip((".shp", ".shx", ".dbf"), foreign_blobs(s)):
                    with open(path + ext, "wb") as f:
                        f.write(b)
            else:
                S.writer_of(s).save(path)
                if s["deleted"]:
                    Editing.strike(path + ".dbf", s["deleted"])
        mon.ev("of another program", c["foreign"])
        mon.ev("several files", len(paths) > 1)
        mon.ev("deleted left out", any(s["deleted"] for s in c["src"]))
        readers = [shapefile.Reader(p) for p in paths]
        told = []
        for rd in readers:
            told.append([(self.seen(sr.shape), list(sr.record)) for sr in rd.shapeRecords()])
        self.faithful(c, paths, told)
        fields = [list(f) for f in readers[0].fields]
        t = readers[0].shapeType
        # (The points of a writer are of its type.)
        typed = c["typed"] or c["way"] == "edited" or c["way"] == "again" and t in esri.POINTS
        w = shapefile.Writer(t) if typed else shapefile.Writer()
        mon.ev("type of the first shape", not typed)
        if c["way"] == "edited":
            # The first file as it is, by the editor.
            w = shapefile.Editor(paths[0])
            mon.ev("opened in the editor")
        elif c["fields"] == "declared":
            for f in readers[0].fields[1:]:
                w.field(*f)
            mon.ev("fields declared")
        else:
            w.fields = readers[0].fields if c["fields"] == "own" else list(readers[0].fields)
            mon.ev("fields copied" if c["fields"] == "copied" else "fields of the reader itself")
        want = []
        for rd, has, s in zip(readers, told, c["src"]):
            ids = list(range(len(has)))
            if c["way"] == "edited" and rd is readers[0]:
                want += has
                continue
            if c["pick"] == "some":
                ids = [i for i in ids if rng.random() < 0.5]
                mon.ev("selected")
            elif c["pick"] == "shuffled":
                rng.shuffle(ids)
            elif c["pick"] == "repeated" and ids:
                ids += [rng.choice(ids) for _ in range(3)]
                mon.ev("repeated")
            want += [has[i] for i in ids]
            srs = rd.shapeRecords()
            if c["way"] == "at once":
                mon.ev("everything at once")
                if c["pick"] == "all" and not s["deleted"]:
                    w.shapes().extend(rd.shapes())
                    w.records.extend(rd.records())
                else:
                    w.shapes().extend(srs[i].shape for i in ids)
                    w.records += [srs[i].record for i in ids]
            else:
                mon.ev("one by one")
                for i in ids:
                    sr = srs[i]
                    if c["way"] == "again" and sr.shape.shapeType and self.again(w, sr.shape):
                        mon.ev("built again")
                    else:
                        w.shapes().append(sr.shape)
                    w.record(*sr.record)
        out = paths[0] if c["over"] else os.path.join(d, "out")
        mon.ev("over the source", c["over"])
        if not typed and not any(x[0]["type"] for x in want):
            t = 0
        before = [slurp_files(p) for p in paths]
        w.save(out)
        for p, b in zip(paths, before):
            expect(p == out or slurp_files(p) == b, "a source changed")
        rd = shapefile.Reader(out)
        expect(rd.shapeType == t, "type {} instead of {}", rd.shapeType, t)
        got = rd.shapes()
        expect(len(got) == len(want), "{} shapes instead of {}", len(got), len(want))
        for i, (g, (x, _)) in enumerate(zip(got, want)):
            if not x["type"]:
                expect(g.shapeType == 0 and not g.points, "shape {}: not null", i)
                continue
            x = dict(x)
            if x["parts"] is not None and not x["points"]:
                x["parts"] = None
            S.compare_read(g, x, "shape %d" % i)
            mon.ev("kept shape")
            mon.ev("type %d" % x["type"])
            mon.ev("measures", x["m"] is not None)
        same_rows([list(g) for g in rd.records()], [x for _, x in want], "records")
        mon.ev("kept record", len(want))
        expect([list(f) for f in rd.fields] == fields, "fields {} instead of {}", short(rd.fields), short(fields))
        with open(out + ".shp", "rb") as f, open(out + ".shx", "rb") as g, open(out + ".dbf", "rb") as h:
            try:
                index = esri.parse_shp(f.read())[3]
                expect(index == esri.parse_shx(g.read())[2], "the index is not that of the shapes")
                esri.parse_dbf(h.read())
            except esri.Bad as x:
                raise Violation("bad file: %s" % x)
        # The readers go on as if nothing had been made of what they gave.
        for k, (r0, has) in enumerate(zip(readers, told)):
            if k or not c["over"]:
                expect([list(f) for f in r0.fields] == [list(f) for f in fields], "the reader's fields changed to {}", short(r0.fields))
                now = [(self.seen(sr.shape), list(sr.record)) for sr in r0.shapeRecords()]
                expect(repr(now) == repr(has), "a reader tells {} instead of {}", short(now), short(has))
                if has:
                    i = rng.randrange(r0.numRecords)
                    row = r0.record(i)
                    expect(row is None or any(repr(row) == repr(x) for _, x in has), "record {} is {}", i, short(row))
                mon.ev("readers unchanged")
            for f in (r0.shp, r0.shx, r0.dbf):
                f.close()
        for f in (rd.shp, rd.shx, rd.dbf):
            f.close()

    @staticmethod
    def again(w, s):
        """The same shape by the methods of the writer."""
        n = len(s.points)
        z = list(s.z) if hasattr(s, "z") else [0] * n
        m = [v if v is not None else -1e39 for v in s.m] if hasattr(s, "m") else [0] * n
        pts = [[p[0], p[1], z[i], m[i]] for i, p in enumerate(s.points)]
        if s.shapeType in esri.POINTS:
            w.point(*pts[0])
            return True
        starts = list(s.parts) if hasattr(s, "parts") else [0]
        parts = [pts[a:b] for a, b in zip(starts, starts[1:] + [n])]
        if s.shapeType in (5, 15, 25, 31) and any(not x or x[0] != x[-1] for x in parts):
            return False        # (would be closed)
        if s.shapeType == 31:
            w.poly(parts, 31, list(s.partTypes))
        else:
            w.poly(parts, s.shapeType)
        return True


def slurp_files(p):
    out = []
    for ext in (".shp", ".shx", ".dbf"):
        with open(p + ext, "rb") as f:
            out.append(f.read())
    return out
