"""Frames, and the whole way from a shapefile to a printed map."""
import contextlib
import io
import math
import os
from fractions import Fraction as Fr

from vf import esri, ps, sphere
from vf.core import Check, Violation, Skip, Gen, expect, close, short, litter
from vf.props import maps, lines
from coral import frame, bbox, coord, pf, proj, shapefile, table, tqdm, vector, gradient, stats

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


@contextlib.contextmanager
def quiet():
    """Progress goes to the standard error: look at nothing of it."""
    with contextlib.redirect_stderr(io.StringIO()):
        yield


def draw_box(r, R):
    u = r.random()
    if u < 0.1:
        return (0, 0, 0, 0)
    if u < 0.3:
        x, y = r.randint(-3, 3), r.randint(-3, 3)
        return (x, y, x + r.randint(0, 5), y + r.randint(0, 5))
    x, y = r.uniform(-3, 3) * R, r.uniform(-2, 2) * R
    s = 10 ** r.uniform(-3, 0.7) * R
    return (x, y, x + s * r.random(), y + s * r.random())


def draw_ring(r, n, spread=None):
    """A closed ring around some place well inside the map, as (lon, lat)."""
    s = spread or 10 ** r.uniform(-1, 1.2)
    lon, lat = r.uniform(-55, 55), r.uniform(-60, 60)
    pts = []
    for i in range(n):
        t = -2 * math.pi * i / n
        d = s * r.uniform(0.5, 1)
        pts.append((lon + d * math.cos(t), max(-80, min(80, lat + d * math.sin(t)))))
    return pts


class Frames(Check):
    id = "C40"
    files = ("coral/frame.py", "coral/proj.py", "coral/pf.py")
    quick, thorough = 20000, 500000
    rule = ("frames of every projection (sphere and ellipsoid, poles, standard parallels) and random boxes saved, loaded and "
            "saved again; points and outlines brought to the map's cells; P files of 0 to 20 entities around the border of "
            "the box searched for the visible ones; non-trivial: all")
    required = ("loaded", "ellipsoid", "parallels", "default centre", "polar aspect", "loaded twice", "place", "outline closed", "outline open",
                "visible", "hidden", "second polygon visible", "no entity", "same name", "no vertices")

    def gen(self, r):
        d = maps.draw_proj(r)
        R = maps.radius(d)
        b = draw_box(r, R)
        ents = []
        for i in range(r.choice((0, 1, 5, 20)) if r.chance(0.3) else 0):
            parts = []
            for _ in range(r.choice((1, 1, 2, 4)) if r.chance(0.94) else r.choice((0, 9, 17, 40))):
                u = r.random()
                p = [maps.place(r, d) for _ in range(r.choice((1, 2, 4)))] if u < 0.3 else \
                    draw_ring(r, r.choice((3, 5, 20)), r.choice((0.01, 1, 20)))
                if r.chance(0.03):
                    p = []
                parts.append([(max(-180, min(180, x)), max(-89, min(89, y))) for x, y in p])
            ents.append(("%s%d%s" % (r.text(r.size(8), LETTERS + " .-"), i, r.choice(("", "", "", " ", "\t", "  "))), parts))
        if len(ents) > 1 and r.chance(0.3):     # two of the same name
            i, j = r.sample(range(len(ents)), 2)
            ents[i] = (ents[j][0], ents[i][1])
        if ents and r.chance(0.2):      # one name with nothing to see in it
            i = r.randint(0, len(ents) - 1)
            ents[i] = (r.choice(("", " ", "\t")), ents[i][1])
        tight = r.chance(0.6)
        line = [maps.place(r, d) for _ in range(r.choice((0, 1, 2, 6)))] + draw_ring(r, r.choice((3, 9)))
        if r.chance(0.2):       # out and back again
            out = draw_ring(r, r.randint(2, 10))
            i = r.randint(1, len(line) - 1)
            line[i:i] = [line[i - 1]] + out + out[-2::-1] + [line[i - 1]]
        if r.chance(0.4):       # given with its first vertex again at its end
            line.append(line[0])
        return {"d": d, "box": b, "tight": tight, "edge": r.choice((0, 0, 1, -1)), "ents": ents, "pts": [maps.place(r, d) for _ in range(3)],
                "scale": r.choice((1, 2, 5000, 0.5, R / r.randint(1, 1000), r.uniform(1, 1e5))), "line": line,
                "closed": r.choice((None, True, False)), "company": r.chance(0.2), "size": r.choice((1, 2, 4))}

    larges = ("entities", "polygons", "vertices", "outline", "names")

    def large(self, what):
        r = Gen("frame of many " + what)
        c = self.gen(r)
        c["d"] = d = {"k": "Mercator", "radius": None, "origin": (3.0, 0.0), "pos": False}
        R = maps.radius(d)
        c["box"], c["tight"], c["company"], c["size"] = (-R / 2, -R / 2, R / 2, R / 2), False, False, 2
        n, m, k = {"entities": (1500, 1, 1), "polygons": (6, 700, 3), "vertices": (4, 1, 5000), "names": (60, 1, 4)}.get(what, (0, 0, 0))
        c["ents"] = [("%s%d" % (r.text(3000 if what == "names" else 6, LETTERS), i),
                      [[(r.uniform(-179, 179), r.uniform(-80, 80))] * (k < 3) + draw_ring(r, k, 0.5) for _ in range(m)]) for i in range(n)]
        if what == "vertices":
            # all but the first or the last few are out of the box
            far = [(-170 + i / 100, 40 + i % 30) for i in range(9000)]
            c["ents"] += [("last", [far + [(0, 10), (1, 11), (2, 9)]]), ("first", [[(0, 10), (1, 11), (2, 9)] + far]), ("out", [far])]
        if what == "outline":
            c["line"] = [(x / 40 - 60, r.uniform(-60, 60)) for x in range(5000)]
            c["scale"], c["closed"] = R / 100, None
        return c

    def safe(self, d, p):
        return maps.singular_distance(d, *p) > 1e-2

    def check(self, c, mon):
        d = c["d"]
        R = maps.radius(d)
        p = maps.build(d)
        x0, y0, x1, y1 = c["box"]
        f = frame.Frame(p, bbox.BBox((x0, y0), (x1, y1)))
        folder = mon.dir()
        path = os.path.join(folder, "f.json")
        litter(path, os.path.join(folder, "visible.names"))
        if c["company"]:
            # What was at the path before does not matter, whatever its size.
            e = frame.Frame(p, bbox.BBox((y0, x0), (y1, x1)))
            e.save(path)
            b = frame.load(path).bounding
            expect((b.x0, b.y0, b.x1, b.y1) == (y0, x0, y1, x1), "the box {} comes back as {}", (y0, x0, y1, x1), b)
        f.save(path)
        g = frame.load(path)
        self.same(d, R, f, g, c, mon)
        mon.ev("loaded")
        mon.ev("ellipsoid", d["k"] == "EMercator")
        mon.ev("parallels", d["k"] == "ConicEqualArea")
        mon.ev("default centre", d["origin"] is None)
        mon.ev("polar aspect", d["k"] in maps.AZIMUTHAL and abs(maps.origin(d)[1]) == 90)
        g.save(path)
        self.same(d, R, f, frame.load(path), c, mon)
        mon.ev("loaded twice")
        s = c["scale"]
        for q in filter(lambda q: self.safe(d, q), c["pts"]):
            x, y = p.geo2rect(*q)
            u, v = f.point(s, q)
            for a, b in ((x, u), (y, v)):
                expect(b == math.floor(b) and b * s <= a + 1e-9 * R and a < (b + 1) * s + 1e-9 * R,
                       "{} at {} is in cell {} of {}", q, (x, y), (u, v), s)
            mon.ev("place")
        pts = [q for q in c["line"] if self.safe(d, q)]
        closed = c["closed"]
        cell = max(s, R / 1e5)
        other = f.planify(cell, iter(pts[::-1])) if c["company"] else iter(())
        next(other, None)
        got = []
        for v in f.planify(cell, iter(pts)) if closed is None else f.planify(cell, pts, closed=closed):
            got.append(v)
            next(other, None)
        want = list(coord.simplify((p.geo2rect(*q) for q in pts), cell, closed=closed is not False))
        expect(got == want, "the outline {} becomes {} instead of {}", short(pts), short(got), short(want))
        mon.ev("outline open" if closed is False else "outline closed")
        if c["ents"] or not c["pts"]:
            self.visible(c, d, p, folder, mon)
        elif c["size"] == 1:
            self.visible(c, d, p, folder, mon)

    def same(self, d, R, f, g, c, mon):
        p, q = f.projection, g.projection
        expect(type(q).__name__ == d["k"], "a {} comes back as {}", d["k"], type(q).__name__)
        b, a = f.bounding, g.bounding
        expect((a.x0, a.y0, a.x1, a.y1) == (b.x0, b.y0, b.x1, b.y1) == tuple(c["box"]), "box {} comes back as {}", b, a)
        for pt in filter(lambda q: self.safe(d, q), c["pts"] + [(10, 20), (-33.5, -41.25)]):
            x, y = p.geo2rect(*pt)
            u, v = q.geo2rect(*pt)
            dx, dy = (x - u) / R, (y - v) / R
            # on the edge of the map a last digit decides for the left or the right
            if d["k"] in ("Mercator", "EMercator", "EckertIV") and abs(abs(sphere.turn(pt[0], maps.origin(d)[0])) - 180) < 1e-6:
                dx = (abs(x) - abs(u)) / R
            if d["k"] == "ObliqMercator":
                dx = math.remainder(dx, 2 * math.pi)
            if d["k"] == "TransMercator":
                dy = math.remainder(dy, 2 * math.pi)
            tol = 1e-6 if d["k"] == "EckertIV" else 1e-9
            expect(math.hypot(dx, dy) <= tol * max(1, math.hypot(x, y) / R), "{}: {} went to {}, and to {} after loading", d, pt, (x, y), (u, v))
            if d["k"] in maps.AZIMUTHAL and math.hypot(x, y) < 3 * R:
                e = q.rect2geo(x, y)
                expect(sphere.sep(e[0], e[1], *pt) < 1e-6, "{}: after loading {} comes from {} instead of {}", d, (x, y), e, pt)

    def visible(self, c, d, p, folder, mon):
        path = os.path.join(folder, "x.p")
        w = pf.Writer(path, c["size"])
        for name, parts in c["ents"]:
            parts = [[q for q in part if self.safe(d, q)] for part in parts]
            w.write(name, parts)
        w.close()
        rd = pf.Reader(path)
        ents = []
        for i, name in enumerate(rd.names):
            boxes = []
            for part in rd.read(i):
                if not all(self.safe(d, q) for q in part):
                    raise Skip
                mon.ev("no vertices", not part)
                if not part:
                    continue
                xs, ys = zip(*(p.geo2rect(*q) for q in part))
                boxes.append((min(xs), min(ys), max(xs), max(ys)))
            ents.append((name, boxes))
        box = tuple(c["box"])
        if c["tight"] and any(bb for _, bb in ents):
            # a box that touches, just misses or just meets some polygon
            bs = [b for _, bb in ents for b in bb]
            b = bs[len(bs) // 2]
            e = c["edge"] * 1e-9 * maps.radius(d)
            w, h = abs(box[2] - box[0]) or 1.0, abs(box[3] - box[1]) or 1.0
            box = (b[2] + e, b[1], b[2] + e + w, b[1] + h) if len(bs) % 2 else (b[0] - w - e, b[1], b[0] - e, b[1] + h)
        want = []
        for name, boxes in ents:
            hits = [self.meets(box, b) for b in boxes]
            if any(hits):
                want.append(name)
                mon.ev("visible")
                mon.ev("second polygon visible", not hits[0])
            else:
                mon.ev("hidden")
        mon.ev("no entity", not ents)
        mon.ev("same name", len({name for name, _ in ents}) < len(ents))
        f = frame.Frame(p, bbox.BBox(box[:2], box[2:]))
        key = os.path.join(folder, "visible")
        with quiet():
            n = f.cachenames(key, rd)
            expect(n == len(want), "{} entities are reported visible, {} are", n, len(want))
            got = f.loadnames(key)
            expect(got == want, "{} are visible instead of {} (box {})", short(got), short(want), box)
            f.cachenames(key, rd)
            expect(f.loadnames(key) == want, "the names written a second time are {}", short(f.loadnames(key)))
        rd.close()

    @staticmethod
    def meets(a, b):
        """Half-open ranges that share a place; a range of no width is a place."""
        return all(a[k] <= b[k] < a[k + 2] or b[k] <= a[k] < b[k + 2] for k in (0, 1))


LANDS = ((0.4, 0.9, 0.2), (0.9, 0.4, 0.2), (0.2, 0.9, 0.4), (0.4, 0.9, 0.21), (0.5, 0.8, 0.9), (1, 1, 1), (0, 0, 0), 0.5, 0, 1)
CONTINENTS = ("Africa", "Europe", "Asia", "Oceania")


class Pipeline(Check):
    id = "C41"
    files = ("coral/shapefile.py", "coral/proj.py", "coral/coord.py", "coral/vector.py", "coral/pf.py", "coral/table.py")
    quick, thorough = 1200, 40000
    rule = ("worlds of 1 to 12 countries with 1 to 5 rings each, written as shapefiles by an independent encoder, taken "
            "through the documented programs (project, simplify, draw; with background, colours and kept boxes; by way of a P "
            "file, a table and a gradient); the polygons a PostScript interpreter paints against the projected "
            "outlines by definition; non-trivial: one country drawn or more")
    required = ("simple map", "coloured map", "by P file and table", "ring", "ring as by definition", "country left out", "small ring left out", "box kept apart",
                "accented name", "missing from the table")

    def gen(self, r):
        countries = []
        for i in range(r.choice((1, 3, 12))):
            rings = [draw_ring(r, r.choice((12, 49, 50, 60, 100))) for _ in range(r.choice((1, 1, 2, 5)))]
            rings = [[(round(x, 6), round(y, 6)) for x, y in g] for g in rings]
            rings = [g + [g[0]] for g in rings]
            name = r.text(r.randint(1, 12), LETTERS + " áéíñçü")
            countries.append((name, r.choice(CONTINENTS[:2] if r.chance(0.9) else CONTINENTS), "c%02d" % i, rings))
        return {"how": r.choice(("simple", "colour", "table")), "countries": countries, "continent": r.choice(CONTINENTS[:2]),
                "pixsz": r.choice((5000, 5000, 20000, 1234.5, 1e5, 100.0, 1, 0.001)), "k": r.randint(1, 5), "size": r.choice((2, 4, 8)),
                "origin": r.choice((None, (r.uniform(-20, 20), r.uniform(-20, 20)))),
                "lands": [r.choice(LANDS) for _ in countries] if r.chance(0.5) else LANDS[:1],
                "border": r.choice(((1, 1, 1), None)),
                "values": [r.choice((0, 1, 0.5, 0.25, r.random())) for _ in countries], "absent": r.randrange(20),
                "region": (r.uniform(-40, 0), r.uniform(-60, 20), r.uniform(5, 60), r.uniform(25, 70)),
                "proj": r.choice(("Mercator", "TransMercator", "EMercator", "Stereographic", "EckertIV"))}

    larges = tuple((how, what) for how in ("simple", "colour", "table") for what in ("countries", "rings", "vertices"))

    def large(self, what):
        how, what = what
        r = Gen("world of many %s %s" % (how, what))
        c = self.gen(r)
        n, m, k = {"countries": (300, 1, 50), "rings": (2, 300, 52), "vertices": (2, 1, 9000)}[what]
        c["how"], c["size"], c["pixsz"], c["proj"], c["region"] = how, 4, 20000, "Mercator", (-30, -20, 50, 60)
        c["countries"] = []
        for i in range(n):
            rings = [[(round(x, 6), round(y, 6)) for x, y in draw_ring(r, k)] for _ in range(m)]
            c["countries"].append((r.text(r.randint(1, 12), LETTERS), CONTINENTS[i % 2] if n > 2 else c["continent"], "c%03d" % i, [g + [g[0]] for g in rings]))
        c["values"] = [r.random() for _ in range(n)]
        return c

    def nontrivial(self, c):
        return any(k == c["continent"] for _, k, _, _ in c["countries"])

    def world(self, c, folder):
        """ESRI files with a few columns around the two that matter."""
        path = os.path.join(folder, "world")
        shapes, rows = [], []
        for name, cont, id_, rings in c["countries"]:
            parts, pts = [], []
            for g in rings:
                parts.append(len(pts))
                pts += g
            shapes.append({"points": pts, "parts": parts, "z": [], "m": None})
            rows.append([b"1"] * c["k"] + [cont.encode("latin1"), name.encode("latin1"), id_.encode("latin1")])
        shp, shx = esri.build_shp(5, shapes)
        fields = [(b"F%d" % i, "N", 3, 0) for i in range(c["k"])] + [(b"CONTINENT", "C", 12, 0), (b"NAME", "C", 30, 0), (b"ID", "C", 5, 0)]
        for ext, data in ((".shp", shp), (".shx", shx), (".dbf", esri.build_dbf(fields, rows))):
            with open(path + ext, "wb") as f:
                f.write(data)
        return path

    def check(self, c, mon):
        folder = mon.dir()
        path = self.world(c, folder)
        with quiet():
            getattr(self, c["how"])(c, path, folder, mon)

    # Each program draws and says what it drew: (how, box or not, ring, inks).

    def simple(self, c, path, folder, mon):
        k, pixsz = c["k"], c["pixsz"]
        prj = proj.TransMercator()
        sf = shapefile.Reader(path, encoding='latin1')
        cvs = vector.Canvas()
        for sr in tqdm.tqdm(sf.shapeRecords()):
            if sr.record[k] != c["continent"]:
                continue
            points = sr.shape.points
            offsets = list(sr.shape.parts) + [len(points)]
            for a, b in zip(offsets[:-1], offsets[1:]):
                if b - a < 50:
                    continue
                polygon = (prj.geo2rect(lon, lat) for lon, lat in points[a:b])
                polygon = coord.simplify(polygon, pixsz)
                cvs.addpolygon(polygon, stroke=0)
        out = os.path.join(folder, "map.eps")
        cvs.save(out)
        want = []
        for name, cont, id_, rings in c["countries"]:
            if cont != c["continent"]:
                mon.ev("country left out")
                continue
            for g in rings:
                if len(g) < 50:
                    mon.ev("small ring left out")
                    continue
                want.append((g, True, ("stroke", (0.0, 0.0, 0.0))))
        self.judge(out, want, {"k": "TransMercator", "radius": None, "origin": None}, prj, c, False, None, 0, mon)
        mon.ev("simple map")

    def colour(self, c, path, folder, mon):
        k, pixsz = c["k"], c["pixsz"]
        lon0, lat0, lon1, lat1 = c["region"]
        latos = (lat1 - lat0) / 6
        parallels = lat0 + latos, lat1 - latos
        if abs(math.sin(math.radians(parallels[0])) + math.sin(math.radians(parallels[1]))) / 2 < 0.05:
            raise Skip
        prj = proj.ConicEqualArea(parallels)
        border, ocean = c["border"], (0.5, 0.8, 0.9)
        sf = shapefile.Reader(path, encoding='latin1')
        cvs = vector.Canvas(ocean)
        names = []
        for sr in tqdm.tqdm(sf.shapeRecords()):
            if sr.record[k] != c["continent"]:
                continue
            land = c["lands"][len(names) % len(c["lands"])]
            names.append(sr.record[k + 1])
            points = sr.shape.points
            offsets = list(sr.shape.parts) + [len(points)]
            for a, b in zip(offsets[:-1], offsets[1:]):
                lon, lat = points[a]
                outside = not lon0 < lon < lon1 or not lat0 < lat < lat1
                if outside:
                    bb = cvs.bbox
                polygon = (prj.geo2rect(lon, lat) for lon, lat in points[a:b])
                polygon = coord.simplify(polygon, pixsz)
                cvs.addpolygon(polygon, fill=land, stroke=border)
                if outside:
                    cvs.bbox = bb
        out = os.path.join(folder, "map.eps")
        cvs.save(out)
        want = []
        mine = [q for q in c["countries"] if q[1] == c["continent"]]
        expect(names == [q[0].rstrip() if q[0].strip() else q[0].strip() for q in mine] or names == [q[0].strip() for q in mine],
               "countries {} instead of {}", names, [q[0] for q in mine])
        mon.ev("accented name", any(not n.isascii() for n in names))
        for n, (name, cont, id_, rings) in enumerate(mine):
            land = c["lands"][n % len(c["lands"])]
            land = tuple(map(float, land)) if isinstance(land, tuple) else (float(land),) * 3
            for g in rings:
                inside = lon0 < g[0][0] < lon1 and lat0 < g[0][1] < lat1
                mon.ev("box kept apart", not inside)
                want.append((g, inside, ("fill", land), *([("stroke", (1.0, 1.0, 1.0))] if c["border"] else [])))
        self.judge(out, want, {"k": "ConicEqualArea", "radius": None, "origin": parallels}, prj, c, False, (0.5, 0.8, 0.9), 0, mon)
        mon.ev("coloured map")

    def table(self, c, path, folder, mon):
        k, pixsz = c["k"], c["pixsz"]
        d = {"k": c["proj"], "radius": None, "origin": c["origin"], "ell": None, "pos": False}
        prj = maps.build(d)
        # The table of values, without one of the countries.
        csv = os.path.join(folder, "values.csv")
        known = [(q[2], v) for i, (q, v) in enumerate(zip(c["countries"], c["values"])) if i != c["absent"]]
        mon.ev("missing from the table", len(known) < len(c["countries"]))
        with open(csv, "w", encoding="utf-8") as f:
            f.write("# values\nid,value\n" + "".join("%s,%r\n" % kv for kv in reversed(known)))
        rows = table.readfile(csv)
        # To P format.
        ppath = os.path.join(folder, "world.p")
        pff = pf.Writer(ppath, c["size"])
        sf = shapefile.Reader(path, encoding='latin1')
        kept = []
        for sr in sf.shapeRecords():
            row = table.getone(rows, "id", sr.record[k + 2])
            if row is None:
                continue
            points = sr.shape.points
            offsets = list(sr.shape.parts) + [len(points)]
            parts = [points[a:b] for a, b in zip(offsets[:-1], offsets[1:])]
            pff.write(row.id, parts)
            kept.append((row.id, parts))
        errs = tuple(pff.close())
        if errs:
            expect(stats.avg(errs) <= stats.max(errs), "average error {} above the largest, {}", stats.avg(errs), stats.max(errs))
        expect([i for i, _ in kept] == [q[2] for q in c["countries"] if q[2] in dict(known)], "countries {} taken", [i for i, _ in kept])
        # And to the page.
        pff = pf.Reader(ppath)
        cvs = vector.Canvas()
        ramp = gradient.heat
        for row in tqdm.tqdm(rows):
            for poly in pff.get(row.id):
                poly = [prj.geo2rect(lon, lat) for lon, lat in poly]
                poly = list(coord.simplify(iter(poly), pixsz))
                if len(poly) < 3:
                    continue
                cvs.addpolygon(poly, fill=ramp.get(float(row.value)), stroke=0)
        out = os.path.join(folder, "map.eps")
        cvs.save(out, margin=5)
        given = {q[2]: q[3] for q in c["countries"]}
        value = dict(known)
        want = []
        worst = max(errs, default=0) + 0.01
        for id_, v in reversed(known):
            rings = pff.read(pff.names.index(id_))
            expect(len(rings) == len(given[id_]), "{} rings of {} come back as {}", len(given[id_]), id_, len(rings))
            for g, q in zip(given[id_], rings):
                expect(len(q) == len(g) - 1, "a ring of {} vertices comes back with {}", len(g) - 1, len(q))
                for a, b in zip(g, q):
                    expect(sphere.sep(a[0], a[1], b[0], b[1]) * 6350000 <= worst, "{} comes back as {}, beyond the largest error {}", a, b, worst)
                want.append((q, True, ("fill", self.heat(v)), ("stroke", (0.0, 0.0, 0.0))))
        pff.close()
        self.judge(out, want, d, prj, c, True, None, 5, mon)
        mon.ev("by P file and table")

    @staticmethod
    def heat(v):
        stops = [(0, (0, 0, 1)), (0.25, (0, 1, 1)), (0.5, (0, 1, 0)), (0.75, (1, 1, 0)), (1, (1, 0, 0))]
        for (a, p), (b, q) in zip(stops, stops[1:]):
            if a <= v <= b:
                t = (v - a) / (b - a)
                return tuple(float(x + (y - x) * t) for x, y in zip(p, q))

    def snap(self, d, prj, ring, pixsz):
        out = []
        for lon, lat in ring:
            q = prj.geo2rect(lon, lat)
            ref = maps.reference(d, lon, lat)
            tol = 50.0 if d["k"] == "EckertIV" else 0.01
            expect(math.hypot(q[0] - ref[0], q[1] - ref[1]) <= tol, "{} is at {} on the map, not at {}", (lon, lat), ref, q)
            v = []
            for a, b in zip(q, ref):
                cell = Fr(b) / Fr(pixsz)
                low = cell.numerator // cell.denominator
                f = float(cell - low)
                if abs(f - 0.5) <= tol / pixsz + 1e-9:
                    v.append(int(a / pixsz + math.copysign(0.5, a)))
                else:
                    v.append(low + (f > 0.5))
            out.append(tuple(v))
        return out

    def judge(self, out, want, d, prj, c, short_ones_skipped, bg, margin, mon):
        with open(out, encoding="utf-8") as f:
            try:
                events, box = ps.run(f.read())
            except ps.PSError as e:
                raise Violation("a PostScript interpreter fails on the map: %s" % e)
        if bg is not None:
            e = events.pop(0)
            expect(e["op"] == "fill" and e["ink"] == bg, "background {}", e["ink"])
        pos = 0
        lim = None
        for ring, counts, *ops in want:
            s = self.snap(d, prj, ring, c["pixsz"])
            if short_ones_skipped:
                # drawn unless fewer than three corners are left
                w = lines.canon_ring(s)
                if lines.area2(s) == 0:
                    if len(set(s)) < 3:
                        continue
                    raise Skip
            seen = None
            for op, ink in ops:
                expect(pos < len(events), "only {} paint operations", len(events))
                e = events[pos]
                pos += 1
                expect(e["op"] == op and all(abs(a - b) < 1e-9 for a, b in zip(e["ink"], ink)), "{} {} instead of {} {}", e["op"], e["ink"], op, ink)
                path = e["path"]
                expect(path[0][0] == "M" and path[-1] == ("Z",) and all(q[0] == "L" for q in path[1:-1]), "path {}", short(path))
                pts = [q[1] for q in path[:-1]]
                expect(seen is None or pts == seen, "filled and stroked outlines differ")
                seen = pts
            self.outline(s, seen, d, ring, mon)
            if counts:
                xs, ys = zip(*seen)
                b = (min(xs), min(ys), max(xs), max(ys))
                if b == (0, 0, 0, 0):
                    raise Skip
                lim = b if lim is None else (min(lim[0], b[0]), min(lim[1], b[1]), max(lim[2], b[2]), max(lim[3], b[3]))
            mon.ev("ring")
        expect(pos == len(events), "{} paint operations instead of {}", len(events), pos)
        lim = lim or (0, 0, 0, 0)
        wantbox = (lim[0] - margin, lim[1] - margin, lim[2] + margin, lim[3] + margin)
        expect(all(abs(a - b) < 1e-9 for a, b in zip(wantbox, box)), "the map has box {} instead of {}", box, wantbox)

    def outline(self, s, pts, d, ring, mon):
        """What README calls for is an open line; it may keep a closing vertex."""
        expect(set(pts) <= set((float(x), float(y)) for x, y in s) or set(pts) <= set(s), "vertices {} that are not of the outline {}", short(sorted(set(pts) - set(s))), short(s))
        pts = [tuple(map(int, q)) for q in pts]     # (the products need all digits)
        expect(lines.area2(pts) == lines.area2(s), "the area turns from {} into {}", lines.area2(s), lines.area2(pts))
        rr = lines.dedup(s)
        while len(rr) > 1 and rr[0] == rr[-1]:
            rr.pop()
        if len(rr) > 2 and not lines.doubles_back(rr + rr[:2]) and lines.area2(s) != 0:
            a, b = lines.canon_ring(s), lines.canon_ring(pts)
            expect(any(a[i:] + a[:i] == b for i in range(len(a))), "outline {} drawn as {}", short(a), short(b))
            mon.ev("ring as by definition")
