"""Files cut short, and conversion from one format to the other."""
import io
import os
import shutil

from vf import esri
from vf.core import Check, Violation, Gen, expect, raises, short, litter
from vf.props import formats as F
from vf.props import shapes as S
from vf.props import access as A
from coral import grid, rg, pf, shapefile


class Truncated(Check):
    id = "C18"
    files = ("coral/rg.py", "coral/pf.py", "coral/shapefile.py")
    level = "fault_enumeration"
    quick, thorough = 1600, 60000
    rule = ("small RangeGrid, P and shapefile data sets; one file of each is cut at every byte (at most 300 "
            "places, all the boundaries among them), or the writer is abandoned before closing; what a "
            "reader then gives is compared with the whole data set; non-trivial: the file was not empty")
    required = ("rg cut", "md cut", "pf cut", "shp cut", "shx cut", "dbf cut", "refused", "read all the same",
                "writer abandoned", "geometry alone", "not such a file")

    def gen(self, r):
        kind = r.choice(("rg", "rg", "md", "pf", "pf", "shp", "shx", "dbf", "abandon"))
        c = {"kind": kind, "step": r.randint(0, 10**6)}
        if kind in ("rg", "md", "abandon"):
            fs = [F.draw_field(r, "c%d" % i, True) for i in range(r.randint(1, 3))]
            c["fields"] = fs
            c["ents"] = [("id%d" % i, [[[F.draw_value(r, f) for f in fs] for _ in range(r.choice((0, 1, 2, 5)))]
                                       for _ in range(r.choice((0, 1, 1, 2, 3)))])
                         for i in range(r.randint(1, 4))]
            if kind == "abandon":
                c["old"] = [("id%d" % i, [[[F.draw_value(r, f) for f in fs] for _ in range(r.choice((1, 2)))]])
                            for i in range(r.randint(1, 3))] if r.chance(0.7) else None
        elif kind == "pf":
            c["size"] = r.choice((1, 2, 4, 8))
            c["ents"] = [("n%d" % i, [[(r.lon(), r.lat()) for _ in range(r.randint(1, 4))] for _ in range(r.randint(1, 2))])
                         for i in range(r.randint(0, 3))]
        else:
            while True:
                f = A.foreign_file(r)
                if len(f["shapes"]) <= 5:
                    break
            f["wrong"] = 0
            c["file"] = f
        return c

    larges = tuple((kind, what) for kind in ("rg", "md", "pf", "abandon") for what in ("entities", "rows"))

    def large(self, what):
        kind, what = what
        r = Gen("cut %s %s" % (kind, what))
        c = {"kind": kind, "step": r.randint(0, 10**6)}
        n, m = {"entities": (250, 4), "rows": (3, 3000)}[what]
        if kind == "pf":
            c["size"] = 2
            c["ents"] = [("n%d" % i, [[(r.lon(), r.lat()) for _ in range(m)]]) for i in range(n)]
        else:
            c["fields"] = fs = [("I", "a", 0, 250, True), ("S", "b", 30, False)]
            c["ents"] = [("id%d" % i, [[[F.draw_value(r, f) for f in fs] for _ in range(m)]]) for i in range(n)][:40 if kind == "abandon" else n]
            c["old"] = c["ents"][:2]
        return c

    def cuts(self, n, step):
        if n > 5000:
            return sorted({(step + i * (n // 50 + 1)) % n for i in range(50)} | set(range(3)) | set(range(n - 3, n)))
        if n <= 300:
            return range(n)
        return sorted({(step + i * (n // 300 + 1)) % n for i in range(280)} | set(range(10)) | set(range(n - 10, n)))

    def check(self, c, mon):
        k = c["kind"]
        if k in ("rg", "md"):
            self.rangegrid(c, mon)
        elif k == "abandon":
            self.abandoned(c, mon)
        elif k == "pf":
            self.pfile(c, mon)
        else:
            self.shapefile(c, mon)

    def rangegrid(self, c, mon):
        d = mon.dir()
        path = os.path.join(d, "x")
        w = rg.Writer(path, grid.GRow(*map(F.make_field, c["fields"])))
        for id_, segs in c["ents"]:
            w.write(segs, id_)
        w.close()
        whole = {}
        rd = rg.Reader(path)
        for id_, _ in c["ents"]:
            whole[id_] = repr(rd.read(id_))
        rd.close()
        if c["kind"] == "rg":
            self.foreign(path + ".rg", lambda: rg.Reader(path), c["step"], mon)
        cut = os.path.join(d, "x." + c["kind"])
        with open(cut, "rb") as f:
            data = f.read()
        for n in self.cuts(len(data), c["step"]):
            with open(cut, "wb") as f:
                f.write(data[:n])
            mon.ev(c["kind"] + " cut")
            try:
                rd = rg.Reader(path)
            except Exception:
                mon.ev("refused")
                continue
            for id_ in whole:
                try:
                    got = repr(rd.read(id_))
                except Exception:
                    mon.ev("refused")
                    continue
                expect(got == whole[id_], "{} cut at {} of {}: entity {} reads {} instead of {}", c["kind"], n,
                       len(data), id_, short(got), short(whole[id_]))
                mon.ev("read all the same")
            # in order as well: a reader of the whole file gets all the entities
            rd.close()
            rd = rg.Reader(path)
            got = []
            try:
                for id_ in whole:
                    got.append(repr(rd.read()))
            except Exception:
                mon.ev("refused")
            expect(got == list(whole.values())[:len(got)], "{} cut at {}: entities in order read {}", c["kind"], n, short(got))
            rd.close()

    def foreign(self, path, reader, step, mon):
        """Files of another kind, or of another version of the format."""
        with open(path, "rb") as f:
            data = f.read()
        for i in range(3):
            for x in {1, 255, 32, step % 255 + 1}:
                with open(path, "wb") as f:
                    f.write(data[:i] + bytes((data[i] ^ x,)) + data[i + 1:])
                raises(Exception, reader)
                mon.ev("not such a file")
        with open(path, "wb") as f:
            f.write(data)
        reader().close()

    def abandoned(self, c, mon):
        """The process ends before close(): what is on the disk at that point."""
        d = mon.dir()
        path = os.path.join(d, "x")
        row = lambda: grid.GRow(*map(F.make_field, c["fields"]))
        old = None
        if c["old"] is not None:
            w = rg.Writer(path, row())
            for id_, segs in c["old"]:
                w.write(segs, id_)
            w.close()
            rd = rg.Reader(path)
            old = {id_: repr(rd.read(id_)) for id_, _ in c["old"]}
            rd.close()
        w = rg.Writer(path, row())
        for k in range(len(c["ents"]) + 1):
            for e in ("rg", "md"):
                if os.path.exists(path + "." + e):
                    shutil.copy(path + "." + e, os.path.join(d, "y." + e))
            mon.ev("writer abandoned")
            self.judge(os.path.join(d, "y"), old, mon)
            if k < len(c["ents"]):
                id_, segs = c["ents"][k]
                w.write(segs, id_)
        w.close()

    def judge(self, path, old, mon):
        try:
            rd = rg.Reader(path)
        except Exception:
            mon.ev("refused")
            return
        # Only the data set that was there before may come out.
        for id_ in ("id0", "id1", "id2", "id3"):
            try:
                got = repr(rd.read(id_))
            except Exception:
                mon.ev("refused")
                continue
            expect(old is not None and got == old.get(id_), "an abandoned data set reads {}", short(got))
        rd.close()

    def pfile(self, c, mon):
        path = os.path.join(mon.dir(), "x.p")
        w = pf.Writer(path, c["size"])
        for name, parts in c["ents"]:
            w.write(name, parts)
        w.close()
        rd = pf.Reader(path)
        names = list(rd.names)
        whole = [rd.read(i) for i in range(len(names))]
        rd.close()
        self.foreign(path, lambda: pf.Reader(path), c["step"], mon)
        with open(path, "rb") as f:
            data = f.read()
        for n in self.cuts(len(data), c["step"]):
            with open(path, "wb") as f:
                f.write(data[:n])
            mon.ev("pf cut")
            try:
                rd = pf.Reader(path)
            except Exception:
                mon.ev("refused")
                continue
            expect(list(rd.names) == names, "cut at {}: names {} instead of {}", n, short(list(rd.names)), short(names))
            for i, x in enumerate(whole):
                for get in (lambda: rd.read(i), lambda: rd.get(names[i])):
                    try:
                        got = get()
                    except Exception:
                        mon.ev("refused")
                        continue
                    expect(got == x, "P file cut at {} of {}: entity {} reads {} instead of {}", n, len(data), i,
                           short(got), short(x))
                    mon.ev("read all the same")
            rd.close()

    def shapefile(self, c, mon):
        f = c["file"]
        blobs = dict(zip(("shp", "shx", "dbf"), A.foreign_blobs(f)))
        shapes, rows = A.foreign_meaning(f)
        alive = [x for x in rows if x is not None]
        k = c["kind"]
        n = len(shapes)
        for cut in self.cuts(len(blobs[k]), c["step"]):
            mon.ev(k + " cut")
            b = dict(blobs)
            b[k] = blobs[k][:cut]
            try:
                rd = shapefile.Reader(**{x: io.BytesIO(y) for x, y in b.items()})
            except Exception:
                mon.ev("refused")
                continue
            where = "%s cut at %d of %d" % (k, cut, len(blobs[k]))
            if k != "dbf":
                self.geometry(b, shapes, where, c["step"] + cut, mon)
            for i in range(n):
                try:
                    g = rd.shape(i)
                except Exception:
                    mon.ev("refused")
                else:
                    S.compare_read(g, shapes[i], "%s: shape(%d)" % (where, i))
                    mon.ev("read all the same")
                try:
                    g = rd.record(i)
                except Exception:
                    mon.ev("refused")
                else:
                    A.same_row(g, rows[i], "%s: record(%d)" % (where, i))
            try:
                got = rd.records()
            except Exception:
                mon.ev("refused")
            else:
                A.same_rows(got, alive, where + ": records()")
            try:
                got = rd.shapes()
            except Exception:
                mon.ev("refused")
            else:
                # The length in the header is not trusted: whole shapes, maybe
                # not all of them.
                expect(k == "shp" and len(got) <= n or len(got) == n, "{}: {} shapes of {}", where, len(got), n)
                for g, x in zip(got, shapes):
                    S.compare_read(g, x, where + ": shapes()")
            got = []
            it = rd.iterShapes()
            try:
                for g in it:
                    got.append(g)
            except Exception:
                mon.ev("refused")
            for g, x in zip(got, shapes):
                S.compare_read(g, x, where + ": iterShapes()")
            try:
                got = rd.shapeRecords()
            except Exception:
                mon.ev("refused")
            else:
                want = [i for i in range(n) if rows[i] is not None]
                expect(len(got) <= len(want), "{}: too many pairs", where)
                for i, g in zip(want, got):
                    S.compare_read(g.shape, shapes[i], where + ": shapeRecords()")
                    A.same_row(g.record, rows[i], where + ": shapeRecords()")


    def geometry(self, b, shapes, where, seed, mon):
        """Geometry and index alone, in some order, from either end, again after a failure."""
        try:
            rd = shapefile.Reader(shp=io.BytesIO(b["shp"]), shx=io.BytesIO(b["shx"]))
        except Exception:
            mon.ev("refused")
            return
        n = len(shapes)
        order = [(seed * (j + 3) // 7) % (2 * n) - n for j in range(6)] if n else []
        for i in order:
            try:
                g = rd.shape(i)
            except Exception:
                mon.ev("refused")
            else:
                S.compare_read(g, shapes[i], "%s: shape(%d), geometry alone, in the order %s" % (where, i, order))
                mon.ev("geometry alone")


class Convert(Check):
    id = "C19"
    files = ("coral/pf.py", "coral/shapefile.py")
    quick, thorough = 6000, 200000
    rule = ("shapefiles of lines and polygons in all variants (1 to 12 entities of 1 to 6 parts, Z and M values, "
            "null shapes, deleted records, padded records, whole-world to tiny) converted to P files with each coordinate size; "
            "non-trivial: more than one entity or part")
    required = ("entity", "several parts", "deleted record skipped", "size 1", "size 2", "size 4", "size 8",
                "default size", "error", "null shape") + tuple("type %d" % t for t in (3, 5, 13, 15, 23, 25))

    def gen(self, r):
        t = r.choice((3, 5, 5, 13, 15, 23, 25))
        n = r.randint(1, 12)
        ents, shapes = [], []
        for _ in range(n):
            if r.chance(0.06):
                shapes.append(None)
                ents.append([])
                continue
            parts = [[(float(F.wrap(x)), float(y)) for x, y in p] for p in F.draw_entity(r) for p in [p[:60]]]
            pts, starts = [], []
            for p in parts:
                starts.append(len(pts))
                pts += p
            k = len(pts)
            shapes.append({"points": pts, "parts": starts, "z": [5.0] * k if t in esri.HAS_Z else None,
                           "m": [7.0] * k if t in esri.HAS_M and r.chance(0.6) else None, "partTypes": None})
            ents.append(parts)
        deleted = sorted(r.sample(range(n), r.randint(0, n - 1))) if r.chance(0.3) else []
        return {"t": t, "shapes": shapes, "ents": ents, "size": r.choice((1, 2, 4, 8)), "default": r.chance(0.2),
                "deleted": deleted, "dup": r.chance(0.2), "ext": r.choice(("", ".shp")),
                "ends": r.choice((("", ""), ("", ""), (" ", ""), ("", " "), ("\t", "\n"), ("A", "-z"), ("long " * 60, "."), ("", "z" * 90)))}

    larges = ("entities", "parts", "vertices", "deleted")

    def large(self, what):
        r = Gen("conversion of many " + what)
        n, m, k = {"entities": (3000, 1, 3), "parts": (3, 1000, 4), "vertices": (2, 1, 70000), "deleted": (2000, 1, 3)}[what]
        t = {"entities": 5, "parts": 15, "vertices": 3, "deleted": 25}[what]
        ents, shapes = [], []
        for i in range(n):
            parts = [[(r.lon(), r.lat()) for _ in range(k)] for _ in range(m)]
            pts = [q for p in parts for q in p]
            shapes.append({"points": pts, "parts": list(range(0, len(pts), k)), "z": [5.0] * len(pts) if t in esri.HAS_Z else None,
                           "m": [7.0] * len(pts) if t in esri.HAS_M else None, "partTypes": None})
            ents.append(parts)
        return {"t": t, "shapes": shapes, "ents": ents, "size": {"entities": 1, "parts": 8}.get(what, 4), "default": False,
                "deleted": sorted(r.sample(range(n), n // 2)) if what == "deleted" else [], "dup": False, "ext": "", "ends": ("", "")}

    def nontrivial(self, c):
        return len(c["ents"]) > 1 or len(c["ents"][0]) > 1

    def check(self, c, mon):
        d = mon.dir()
        mon.ev("null shape", c["shapes"].count(None))
        shp, shx = esri.build_shp(c["t"], c["shapes"])
        names = ["same" if c["dup"] and i else "name %d" % i for i in range(len(c["ents"]))]
        called = [c["ends"][0] + n + c["ends"][1] for n in names]
        dbf = esri.build_dbf([(b"ID", "N", 5, 0), (b"NAME", "C", 12, 0)],
                             [[b"%d" % (i * 7), nm.encode()] for i, nm in enumerate(names)], c["deleted"])
        for e, b in zip(("shp", "shx", "dbf"), (shp, shx, dbf)):
            with open(os.path.join(d, "src." + e), "wb") as f:
                f.write(b)
        out = os.path.join(d, "out.p")
        litter(out)
        seen = []

        def getname(rec):
            seen.append(list(rec))
            return c["ends"][0] + rec[1] + c["ends"][1]
        size = 4 if c["default"] else c["size"]
        args = () if c["default"] else (size,)
        errs = pf.sf2pf(os.path.join(d, "src" + c["ext"]), out, getname, *args)
        mon.ev("default size", c["default"])
        keep = [i for i in range(len(c["ents"])) if i not in c["deleted"]]
        mon.ev("deleted record skipped", len(c["deleted"]))
        expect(seen == [[i * 7, names[i]] for i in keep], "names were asked for {}", short(seen))
        rd = pf.Reader(out)
        expect(list(rd.names) == [called[i] for i in keep], "names {} instead of {}", short(list(rd.names)),
               short([called[i] for i in keep]))
        judge = F.PFile()
        total = 0
        for k, i in enumerate(keep):
            parts = F.stored(c["ents"][i])
            judge.compare(parts, rd.read(k), size, names[i], mon)
            total += sum(map(len, parts))
            mon.ev("entity")
            mon.ev("type %d" % c["t"])
            mon.ev("several parts", len(parts) > 1)
        expect(len(errs) == total, "{} errors for {} points", len(errs), total)
        mon.ev("error", total)
        rd.close()
