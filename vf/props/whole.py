"""What holds for the package as a whole: results that depend on nothing but
the arguments, and files that are whole and let go when a call returns."""
import contextlib
import decimal
import errno
import gc
import io
import json
import locale
import math
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import threading
import warnings

from vf import esri
from vf.core import Check, Gen, Near, Monitor, Violation, Hang, expect, short, HERE, REPO
from vf.props import access as A, formats as F, lines as L, maps as M, pages as P, rasters as R, shapes as S, tables as T, words as W, world
from coral import bbox, coord, frame, gradient, grid, names, pf, proj, raster, rg, shapefile, stats, table, tqdm, vector


def steady(seed):
    """A PRNG that draws the same in every process."""
    base, *twist = str(seed).split("~")
    r = Near(base, twist[1], map(int, twist[0].split(","))) if twist else Gen(base)
    r.dic_int = r.dic_float = r.dic_str = ()
    return r


def pure(fn, *args, **kw):
    """Call fn; what it was given must be the same afterwards."""
    before = repr((args, kw))
    res = attempt(fn, *args, **kw)
    if repr((args, kw)) != before:
        raise Violation("%s changed its arguments from %s to %s" % (
            getattr(fn, "__name__", fn), short(before), short((args, kw))))
    return res


def attempt(fn, *args, **kw):
    """What comes of the call: a result or the kind of the refusal."""
    try:
        return fn(*args, **kw)
    except (Violation, Hang):
        raise
    except Exception as e:
        return type(e).__name__


def slurp(d, mask=True):
    """Every file below d: {name: bytes}."""
    out = {}
    for top, _, files in os.walk(d or "."):
        for f in files:
            p = os.path.join(top, f)
            with open(p, "rb") as h:
                b = h.read()
            if mask and f.endswith(".dbf"):
                b = b[:1] + b"..." + b[4:]      # the day it was written
            out[os.path.relpath(p, d or ".")] = b
    return out


def number(v):
    return v + 0.0 if isinstance(v, (int, float)) else v


# -- workloads: (r, directory) -> anything that can be written down ----------

def w_bbox(r, d):
    pts = P.draw_points(r)
    b = pure(bbox.BBox, pts)
    o = bbox.BBox(P.draw_points(r))
    x, y = r.randint(-9, 9), r.uniform(-9, 9)
    return [b, b | o, b & o, b < o, b == o, bool(b), b.center(), b.width(), b.height(), b.area(), b.hypot(), b.has_point((x, y)),
            b.has_bbox(o), b.collide(o), b.translate(x, y), b.scale(y), b * 2, b / 2, b + (x, y), b - (x, y), (x, y) in b, b.copy(), b, o]


def w_sphere(r, d):
    a, b, c, e = r.lon(), r.lat(), r.lon(), r.lat()
    br, ds = r.uniform(-360, 720), r.uniform(0, 3e7)
    return [coord.haversine(a, b, c, e), coord.haversine(a, b, c, e, 1), coord.bearing(a, b, c, e), attempt(coord.midpoint, a, b, c, e),
            coord.destination(a, b, br, ds), coord.destination(a, b, br, 1, 2), coord.bearing2cardinal(br), coord.bearing2hours(br),
            coord.radiusat(b), coord.radiusat(b, proj.GRS80), proj.corangle(br)]


def w_centroid(r, d):
    ring = world.draw_ring(r, r.randint(3, 12), r.uniform(0.1, 20))
    region = [ring, [(x / 2, y / 2) for x, y in ring]][:r.randint(1, 2)]
    return [pure(coord.geocentroid, region), pure(coord.geocentroid, region, epsilon=1e-6)]


def w_simplify(r, d):
    p = L.walk(r, r.size(80, 1), r.choice(("stairs", "line", "forward", "free")))
    q = L.walk(r, r.size(30, 1), "forward")
    s = r.choice((1, 2, 0.5, 7.3))
    a, b = coord.simplify(iter(q), 1, closed=True, k=2), []
    for v in coord.simplify(iter(p), s):
        b.append(v)
        next(a, None)
    # (a ring is gone over more than once, and given as a list)
    return [b, list(a), pure(lambda x: list(coord.simplify(x, s, k=4)), p), pure(lambda x: list(coord.simplify(x, s, closed=True)), p)]


def w_buffer(r, d):
    b = coord.Buffer(r.choice((1, 2, 4, 8)))
    out = []
    for i in range(40):
        f = r.choice((b.push, b.push, b.push, b.pop, b.peek, b.shift))
        out.append(attempt(f, i) if f == b.push else attempt(f))
        out.append((b.isempty(), b.isfull(), str(b), repr(b)))
    return out


def w_proj(r, d):
    q = M.draw_proj(r)
    p = M.create(q)
    out = []
    for _ in range(4):
        pt = M.place(r, q)
        xy = attempt(p.geo2rect, *pt)
        out += [xy, attempt(p.scale, *pt)]
        if not isinstance(xy, str):
            out.append(attempt(p.rect2geo, *xy))
    # Others that are made without arguments share nothing with it.
    out.append([attempt(x.geo2rect, 12, 34) for x in (type(p)(), proj.Mercator(), proj.Stereographic(), proj.EMercator())
                if not isinstance(x, proj.CProj)] if not isinstance(p, proj.CProj) else None)
    return out


def w_fields(r, d):
    fs = [F.draw_field(r, "f%d" % i, False) for i in range(1 + r.size(6))]
    os_ = [F.make_field(f) for f in fs]
    row = [F.draw_value(r, f) for f in fs]
    g = grid.GRow(*os_)
    b = pure(g.encode, *row)
    return [[str(o) + repr(o) for o in os_], b, g.decode(b) if isinstance(b, bytes) else None, len(g), g.size,
            [attempt(o.encode, F.bad_value(r, f)) for o, f in zip(os_, fs)]]


def w_rangegrid(r, d):
    fs = [F.draw_field(r, "c%d" % i, True) for i in range(r.choice((1, 2, 5)))]
    w = rg.Writer(os.path.join(d, "x"), grid.GRow(*[F.make_field(f) for f in fs]))
    ents = [(r.choice((None, "id %d" % i, "São %d" % i, i)), [F.draw_rows(r, fs, r.size(9)) for _ in range(r.size(3))])
            for i in range(r.size(6))]
    for id_, segs in ents:
        pure(w.write, segs) if id_ is None else pure(w.write, segs, id_)
    w.close()
    rd = rg.Reader(os.path.join(d, "x"))
    got = [rd.read() for _ in ents]
    got += [rd.read(ents[0][0])] if ents and ents[0][0] is not None else []
    out = [got, rd.index, [str(f) for f in rd.row.fields]]
    rd.close()
    return out


def w_pfile(r, d):
    ents = [("e%d" % r.randint(0, 9), F.draw_entity(r)) for _ in range(r.size(5))]
    w = pf.Writer(os.path.join(d, "x.p"), r.choice((1, 2, 4, 8)))
    for name, parts in ents:
        if sum(map(len, parts)) < 1500:
            pure(w.write, name, parts)
    errs = w.close()
    rd = pf.Reader(os.path.join(d, "x.p"))
    out = [errs, rd.names, len(rd), [rd.read(i) for i in range(len(rd))], [rd.get(n) for n in rd.names], rd.bboxes]
    rd.close()
    return out


def told(s):
    """All that a shape says."""
    return [s.shapeType, [tuple(p) for p in s.points], list(getattr(s, "parts", ())), list(getattr(s, "bbox", ())), list(getattr(s, "z", ())),
            list(getattr(s, "m", ()) or ()), list(getattr(s, "partTypes", ()))]


def read_out(rd):
    n = rd.numRecords
    out = [[told(s) for s in rd.shapes()], rd.records(), rd.fields, rd.numRecords, [told(s) for s in rd.iterShapes()],
           [(told(x.shape), x.record) for x in rd.shapeRecords()], list(rd.iterRecords())]
    out += [(attempt(rd.record, i), attempt(lambda: told(rd.shape(i)))) for i in (0, n - 1, -1, n)]
    out += [attempt(lambda: s.__geo_interface__) for s in rd.shapes()]
    return out


def w_shapefile(r, d):
    while True:
        c = S.draw_file(r)
        if c["how"] != "unnamed" and "many" not in c:       # (its name is random)
            break
    w = S.writer_of(c)
    out = [list(w.bbox()), list(w.zbox()), list(w.mbox())]
    opened = S.save(w, c["how"], d)[1](encoding=c["enc"])
    out.append(read_out(opened))
    for f in (opened.shp, opened.shx, opened.dbf):
        f.close()
    return out


def w_foreign(r, d):
    b = A.foreign_blobs(A.foreign_file(r))
    for e, x in zip((".shp", ".shx", ".dbf"), b):
        with open(os.path.join(d, "y" + e), "wb") as f:
            f.write(x)
    rd = shapefile.Reader(os.path.join(d, "y"))
    out = read_out(rd)
    for f in (rd.shp, rd.shx, rd.dbf):
        f.close()
    return out


def w_editor(r, d):
    c = A.Editing().gen(r)
    if len(c["shapes"]) > 100:
        return None
    A.Editing().check(c, Folder(d))
    return True


class Folder:
    """Stands in for the monitor of another check."""

    def __init__(self, d):
        self.d = d

    def dir(self):
        return self.d

    def ev(self, *a):
        pass


def w_convert(r, d):
    rings = [A.rings_of(r, r.randint(1, 3)) for _ in range(r.randint(1, 5))]
    w = shapefile.Writer(5)
    w.field("NAME", "C", 10)
    for i, parts in enumerate(rings):
        w.poly(parts=[[list(p) for p in part] for part in parts])
        w.record("n%d" % i)
    w.save(os.path.join(d, "s"))
    errs = pf.sf2pf(os.path.join(d, "s"), os.path.join(d, "s.p"), lambda rec: rec[0], r.choice((1, 2, 4, 8)))
    rd = pf.Reader(os.path.join(d, "s.p"))
    out = [errs, rd.names, [rd.read(i) for i in range(len(rd))]]
    rd.close()
    return out


def w_frame(r, d):
    q = M.draw_proj(r)
    x0, y0, x1, y1 = world.draw_box(r, M.radius(q))
    f = frame.Frame(M.create(q), bbox.BBox((x0, y0), (x1, y1)))
    path = os.path.join(d, "f.json")
    f.save(path)
    g = frame.load(path)
    ring = world.draw_ring(r, r.randint(3, 30))
    w = pf.Writer(os.path.join(d, "x.p"), 2)
    for i in range(r.size(8)):
        w.write("n%d" % i, [world.draw_ring(r, 4) for _ in range(r.randint(1, 3))])
    w.close()
    rd = pf.Reader(os.path.join(d, "x.p"))
    out = [g.bounding, pure(f.point, 7, (10, 20)), g.point(1000, (10, 20)),
           pure(lambda p: attempt(lambda: list(g.planify(5000, p))), ring),
           pure(lambda p: attempt(lambda: list(g.planify(5000, p, closed=False))), ring),
           attempt(f.cachenames, os.path.join(d, "k"), rd)]
    out.append(attempt(f.loadnames, os.path.join(d, "k")))
    rd.close()
    return out


def w_page(r, d):
    bg = r.choice((None, 0.5, (0.1, 0.2, 0.3)))
    a, b = vector.Canvas(bg) if bg is not None else vector.Canvas(), vector.Canvas()
    for _ in range(r.size(20)):
        c = P.draw_call(r)
        for cv in (a, b) if r.chance(0.3) else (a,):
            P.do(cv, c)
    if r.chance(0.3):
        a.addtext((1, 2), "S\u00e3o \u6f22", 10, anchor=r.choice(P.ANCHORS))
    k = a.copy()
    P.do(k, P.draw_call(r))
    out = [a.bbox, b.bbox, k.bbox]
    for i, (cv, kw) in enumerate(((a, {}), (b, {}), (k, {"margin": 3}), (a, {"size": 100, "margin": 5}))):
        out.append(attempt(cv.save, os.path.join(d, "%d.ps" % i), **kw))
    return out


def w_raster(r, d):
    kind = r.choice(R.KINDS)
    w, h = r.randint(1, 40), r.randint(1, 40)
    cv = R.make(kind, w, h, None if r.chance(0.3) else R.draw_plain(r, kind))
    pt = lambda: (r.randrange(w), r.randrange(h))
    for _ in range(r.size(8)):
        col = R.draw_plain(r, kind)
        k = r.choice(("set", "line", "aaline", "outline", "fill"))
        if k == "set":
            cv[pt()] = col
        elif k == "line":
            cv.line(pt(), pt(), col)
        elif k == "aaline" and kind != "bw":
            cv.aaline(pt(), pt(), col)
        elif k == "outline":
            pure(lambda p: cv.strokepolygon(p, col), [pt() for _ in range(4)])
        else:
            sc = pure(lambda p: cv.scanpolygon(p), [pt() for _ in range(5)])
            cv.fillpolygons(cv.scanpolygon([pt() for _ in range(3)], sc), col)
    cv.save(os.path.join(d, "x.pnm"))
    return list(cv.data)


def w_table(r, d):
    cols, rows = T.draw_table(r)
    t = T.made(cols, rows)
    c2 = r.sample(T.NAMES, 3)
    u = T.made(c2, [[T.draw_value(r, ",", "#") for _ in c2] for _ in range(4)])
    if r.chance(0.6):       # one column in common at least
        c2[0] = cols[0]
        u = T.made(list(dict.fromkeys(c2)), [[r.choice(rows)[0]] + ["v%d" % i] * (len(set(c2)) - 1) for i in range(4)])
    out = [pure(table.join, t, u), pure(table.join, u, t), pure(table.getone, t, cols[0], rows[0][0]),
           list(table.getall(t, cols[0], rows[0][0])), pure(table.indexby, t, cols[-1]),
           pure(lambda x: list(table.addkey(x, "new", lambda row: row[0] + "!")), t),
           pure(lambda x: list(table.delkeys(x, [cols[0], "none"])), t)]
    if len(rows) < 200:
        pure(table.writefile, os.path.join(d, "t.csv"), t)
        out += [attempt(table.readfile, os.path.join(d, "t.csv")), attempt(table.readfile, os.path.join(d, "t.csv"), cols[:1])]
    return out


def w_print(r, d):
    cols, rows = T.draw_table(r, rows=5)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        table.pprint(T.made(cols, rows))
        table.pprint(T.made(cols, rows), cols[:1])
    return text.getvalue()


def w_words(r, d):
    a = W.draw_word(r)
    b = W.mutate(r, a)
    return [f(x, y) for f in (names.damlev, names.strerr, names.jaro, names.jaro_winkler) for x, y in ((a, b), (b, a), (a, a))] + [names.ascii(a)]


def w_matching(r, d):
    c = W.Matching().gen(r)
    ns = list(dict.fromkeys(c["names"]))[:8]
    return [pure(names.mapping, c["keys"], c["values"]), pure(names.abbreviations, ns, c["length"], c["extras"]),
            pure(names.abbreviations, ns, 3)]


def w_stats(r, d):
    n = r.randint(2, 12)
    a = tuple(r.choice((r.randint(1, 9), r.uniform(0, 100))) for _ in range(n))
    if r.chance(0.4):       # of many with the same sum
        k = r.randint(0, 4)
        a = (1, 2, 6 + k, 4, 8 - k)
    b = tuple(r.uniform(0, 10) for _ in range(n))
    return [number(attempt(f, a)) for f in (stats.avg, stats.var, stats.std_dev, stats.gini_kakwani, stats.gini_deaton, stats.sum, stats.max,
                                            stats.min, stats.len)] + [number(attempt(f, a, b)) for f in (stats.covar, stats.corr)]


def w_gradient(r, d):
    g = r.choice((gradient.gray, gradient.bwr, gradient.heat, gradient.height,
                  gradient.Gradient([(0, (0, 0, 0)), (r.random(), (1, 0.5, 0.25)), (1, (1, 1, 1))])))
    return [(g.get(x), g.get_hex(x)) for x in (0, 1, 0.5, r.random(), r.random())]


def w_progress(r, d):
    f = io.StringIO()
    n = r.randint(0, 30)
    return [list(tqdm.tqdm([i * i for i in range(n)], file=f, leave=r.chance(0.5))), list(tqdm.trange(n, file=f)),
            [tqdm.format_meter(r.randint(0, 9), r.choice((None, 5, 100)), r.choice((0, 1, 3661.5))) for _ in range(4)],
            tqdm.format_interval(r.randint(0, 10 ** 5))]


WORK = {f.__name__[2:]: f for f in (
    w_bbox, w_sphere, w_centroid, w_simplify, w_buffer, w_proj, w_fields, w_rangegrid, w_pfile, w_shapefile, w_foreign, w_editor, w_convert,
    w_frame, w_page, w_raster, w_table, w_print, w_words, w_matching, w_stats, w_gradient, w_progress)}
ALONE = ("print",)       # standard output is one for all threads


def run_jobs(jobs, top, order=None, relative=False):
    """Run the jobs, each in a directory of its own; what came of each."""
    out = {}
    for i in order or range(len(jobs)):
        kind, seed = jobs[i]
        d = os.path.join(top, "j%d" % i)
        os.mkdir(d)
        if relative:
            os.chdir(d)
        try:
            res = WORK[kind](steady(seed), "" if relative else d)
            text = repr(res) + "\n" + repr(sorted(slurp(d).items()))
        except Violation as e:
            text = "VIOLATION " + str(e)
        except Hang:
            raise
        except Exception as e:
            text = "EXCEPTION %s: %s" % (type(e).__name__, e)
        finally:
            if relative:
                os.chdir(top)
        out[str(i)] = text
        shutil.rmtree(d)
    return out


def circumstances():
    """The state of the process that is nobody's but the program's."""
    mask = os.umask(0)
    os.umask(mask)
    return {
        "working directory": os.getcwd(), "environment": dict(os.environ), "random numbers": hash(random.getstate()),
        "recursion limit": sys.getrecursionlimit(), "module path": list(sys.path), "arguments": list(sys.argv), "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGXFSZ, signal.SIGCHLD)],
        "umask": mask, "decimal context": repr(decimal.getcontext()), "warning filters": list(warnings.filters), "threads": threading.active_count(),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "switch interval": sys.getswitchinterval(),
        "collector": (gc.isenabled(), gc.get_threshold()), "hooks": (id(sys.excepthook), id(sys.displayhook)),
    }


@contextlib.contextmanager
def own_ways():
    """The process is set up in a way that nobody would choose for it."""
    sigs = {s: signal.getsignal(s) for s in (signal.SIGTERM, signal.SIGXFSZ, signal.SIGCHLD)}
    old = os.umask(0o057), sys.getrecursionlimit(), sys.getswitchinterval(), decimal.getcontext(), gc.get_threshold()
    try:
        sys.setrecursionlimit(1777)
        sys.setswitchinterval(0.003)
        decimal.setcontext(decimal.Context(prec=11))
        gc.set_threshold(555)
        for s in sigs:
            signal.signal(s, lambda *a: None)
        yield
    finally:
        os.umask(old[0])
        sys.setrecursionlimit(old[1])
        sys.setswitchinterval(old[2])
        decimal.setcontext(old[3])
        gc.set_threshold(*old[4])
        for s, h in sigs.items():
            signal.signal(s, h)


def child_main():
    """In a fresh process: the jobs come on the standard input."""
    spec = json.load(sys.stdin)
    top, jobs, how = spec["top"], spec["jobs"], spec["how"]
    out = {}
    if how == "threads":
        sys.setswitchinterval(1e-6)
        tops = [os.path.join(top, "t%d" % k) for k in range(4)]
        jobs_ = list(enumerate(jobs))
        res, trouble = [None] * 4, []

        def go(k):
            try:
                os.mkdir(tops[k])
                n = len(jobs)
                order = [(i * (1, 1, -1, 1)[k] + k * n // 4) % n for i in range(n)] if k != 3 else list(range(n))
                res[k] = run_jobs(jobs, tops[k], order)
            except BaseException as e:
                trouble.append("%s: %s" % (type(e).__name__, e))
        ts = [threading.Thread(target=go, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if trouble:
            raise SystemExit("; ".join(trouble))
        for k, one in enumerate(res):
            out["thread %d" % k] = one
    else:
        os.chdir(spec["cwd"])
        order = list(range(len(jobs)))
        if how != "same order":
            random.Random(spec["shuffle"]).shuffle(order)
        os.mkdir(os.path.join(top, "a"))
        if how == "relative":
            os.chdir(os.path.join(top, "a"))
        out[how] = run_jobs(jobs, os.path.join(top, "a"), order, how == "relative")
    with open(spec["out"], "w", encoding="utf-8", errors="surrogatepass") as f:
        json.dump(out, f)


MODES = {
    # another hash seed, place and time zone
    "elsewhere": (["-X", "utf8=1"], {"LC_ALL": "C.UTF-8", "TZ": "XYZ-13:45"}),
    # a locale without other letters
    "plain locale": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}),
    # names of files without a directory
    "relative": (["-X", "utf8=1"], {"LC_ALL": "C.UTF-8"}),
    "threads": (["-X", "utf8=1"], {"LC_ALL": "C.UTF-8"}),
}


# -- things that end up in files ----------------------------------------------
# Each draws what is to be stored and gives a function that stores it below a
# directory, from the start, and returns the objects that did it.

FINAL = []      # the call that ends the storing, if it can be made again


def final(call):
    try:
        call()
    except Exception:
        FINAL[:] = [call]
        raise


def p_shapefile(r):
    while True:
        c = S.draw_file(r)
        if "many" not in c:
            break
    how = r.choice(("save", "save", "parts", "by part", "dotted", "nested"))

    def store(d):
        w = S.writer_of(c)
        p = os.path.join(d, "x")
        if how == "parts":
            final(lambda: (w.saveShp(p), w.saveShx(p), w.saveDbf(p)))
        elif how == "by part":
            final(lambda: w.save(shp=p + ".shp", shx=p + ".shx", dbf=p + ".dbf"))
        else:
            to = {"save": p, "dotted": os.path.join(d, "x.y.shp"), "nested": os.path.join(d, "new", "one", "x")}[how]
            final(lambda: w.save(to))
        return w
    return store


def p_edited(r):
    rows = [(r.randint(0, 999), r.text(r.size(8), "abc")) for _ in range(r.size(40))]

    def store(d):
        w = shapefile.Writer(1)
        w.field("N", "N", 4)
        w.field("S", "C", 9)
        for n, s in rows:
            w.point(n, -n)
            w.record(n, s)
        w.save(os.path.join(d, "x"))
        e = shapefile.Editor(os.path.join(d, "x"))
        e.point(1, 2)
        e.record(1, "new")
        final(lambda: e.save(os.path.join(d, "x")))
        return w, e
    return store


def p_raster(r):
    kind, w, h = r.choice(R.KINDS), r.choice((3, 40, 300)), r.choice((1, 30, 200))
    col = R.draw_plain(r, kind)

    def store(d):
        cv = R.make(kind, w, h, None)
        cv.line((0, 0), (w - 1, h - 1), col)
        final(lambda: cv.save(os.path.join(d, "x.pnm")))
        return cv
    return store


def p_page(r):
    calls = [P.draw_call(r) for _ in range(1 + r.size(40))]
    bg = r.choice((None, 0.25, (1, 0.5, 0)))

    def store(d):
        cv = vector.Canvas(bg)
        for c in calls:
            P.do(cv, c)
        final(lambda: cv.save(os.path.join(d, "x.ps")))
        return cv
    return store


def p_frame(r):
    q = M.draw_proj(r)

    def store(d):
        f = frame.Frame(M.create(q), bbox.BBox((0, 0), (5, 5)))
        final(lambda: f.save(os.path.join(d, "f.json")))
        return f
    return store


def p_names(r):
    n = 1 + r.size(60)
    stem = r.text(r.choice((1, 5, 300)), "abc")

    def store(d):
        w = pf.Writer(os.path.join(d, "x.p"), 1)
        for i in range(n):
            w.write(stem + str(i), [[(1, 1), (2, 2), (3, 1)]])
        w.close()
        rd = pf.Reader(os.path.join(d, "x.p"))
        f = frame.Frame(proj.Mercator(), bbox.BBox((-1e8, -1e8), (1e8, 1e8)))
        final(lambda: f.cachenames(os.path.join(d, "k"), rd))
        rd.close()
        return w, rd, f
    return store


def p_table(r):
    cols, rows = T.draw_table(r)

    def store(d):
        t = T.made(cols, rows)
        final(lambda: table.writefile(os.path.join(d, "t.csv"), t))
        return t
    return store


def p_pfile(r):
    ents = [("e%d" % i, [p[:300] for p in F.draw_entity(r)]) for i in range(r.size(9))]
    size = r.choice((1, 2, 4, 8))

    def store(d):
        w = pf.Writer(os.path.join(d, "x.p"), size)
        for e in ents:
            w.write(*e)
        final(w.close)
        return w
    return store


def p_rangegrid(r):
    fs = [F.draw_field(r, "c%d" % i, True) for i in range(r.choice((1, 2, 5)))]
    ents = [[F.draw_rows(r, fs, r.size(200)) for _ in range(r.size(4))] for i in range(r.size(9))]

    def store(d):
        w = rg.Writer(os.path.join(d, "x"), grid.GRow(*[F.make_field(f) for f in fs]))
        for e in ents:
            w.write(e)
        w.close()
        return w
    return store


def p_convert(r):
    rings = [A.rings_of(r, r.randint(1, 3)) for _ in range(r.randint(1, 30))]

    def store(d):
        w = shapefile.Writer(5)
        w.field("NAME", "C", 10)
        for i, parts in enumerate(rings):
            w.poly(parts=[[list(p) for p in part] for part in parts])
            w.record("n%d" % i)
        w.save(os.path.join(d, "s"))
        pf.sf2pf(os.path.join(d, "s"), os.path.join(d, "s.p"), lambda rec: rec[0])
        return w
    return store


STORE = {f.__name__[2:]: f for f in (p_shapefile, p_edited, p_raster, p_page, p_frame, p_names, p_table, p_pfile, p_rangegrid, p_convert)}


def read_all(d, mon, close):
    """Read every file below d by its reader, closing it or letting it go."""
    n = 0
    for f in sorted(slurp(d)):
        p = os.path.join(d, f)
        stem, ext = os.path.splitext(p)
        if ext == ".shp":
            rd = shapefile.Reader(stem + ".shp", encoding="latin1")
            rd.shapeRecords()
        elif ext == ".p":
            rd = pf.Reader(p)
            for i in range(len(rd)):
                rd.read(i)
            if close:
                rd.close()
        elif ext == ".rg":
            rd = rg.Reader(stem)
            for _ in rd.index:
                rd.read()
            if close:
                rd.close()
        elif ext == ".json":
            frame.load(p)
        elif ext == ".names":
            frame.Frame(None, None).loadnames(stem)
        elif ext == ".csv":
            attempt(table.readfile, p)
        else:
            continue
        n += 1
        if close and ext != ".shp":     # (that one has no close())
            held = holding(d)
            expect(not held, "after reading {}, still open: {}", f, held)
        rd = None
        gc.collect()
        held = holding(d)
        expect(not held, "nothing refers to the reader of {}, still open: {}", f, held)
    return n


def holding(d):
    """Open files below d."""
    out = []
    d = os.path.realpath(d) + os.sep
    for n in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if p.startswith(d):
            out.append(p[len(d):])
    return sorted(out)


@contextlib.contextmanager
def full_disk(limit):
    """No file can grow beyond so many bytes."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    null, err = os.open(os.devnull, os.O_WRONLY), os.dup(2)
    os.dup2(null, 2)        # progress meters go where there is room
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
        try:
            yield
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(null)


class Stored(Check):
    id = "C44"
    files = tuple("coral/%s.py" % m for m in "frame pf raster rg shapefile table vector".split())
    level = "fault_enumeration"
    quick, thorough = 4500, 200000
    rule = ("everything the package stores (shapefiles by every way of saving, edited ones, rasters, pages, frames, name lists, tables, P files, "
            "RangeGrid data sets, conversions), small to some 100 KB, looked at when the call returns and when the writer is gone; stored again with room for all but "
            "0, 1, some or all bytes of the largest file, with one file on a full device, and in places that cannot be written; "
            "non-trivial: all")
    required = tuple("stored: " + k for k in STORE) + tuple("refused: " + k for k in STORE) + tuple("full device: " + k for k in STORE) + (
        "let go", "as much room as it takes", "one byte too few", "stored after all", "no place", "read and let go", "not changed by reading") + tuple("the same call again: " + k for k in STORE if k not in ("rangegrid", "convert", "names"))

    def gen(self, r):
        return {"kind": r.choice(sorted(STORE)), "seed": r.getrandbits(40), "cut": r.random(), "which": r.randrange(100), "place": r.choice(("folder", "no folder"))}

    larges = tuple(sorted(STORE))

    def large(self, what):
        """The same, some hundred times."""
        return {"kind": what, "seed": 1, "cut": 0.5, "which": 0, "place": "folder", "many": 150}

    def check(self, c, mon):
        k = c["kind"]
        store = STORE[k](steady(c["seed"]))
        d = mon.dir()
        keep = [store(d)]
        whole = slurp(d)
        held = holding(d)
        expect(not held, "{}: when the call returns, {} are still open", k, held)
        expect(whole, "{}: nothing was stored", k)
        mon.ev("let go", len(whole))
        del keep
        gc.collect()
        self.same(whole, slurp(d), k + ": when the writer is gone")
        mon.ev("stored: " + k)
        n = read_all(d, mon, True) + read_all(d, mon, False)
        self.same(whole, slurp(d), k + ": after reading")
        mon.ev("read and let go", n)
        mon.ev("not changed by reading", n)
        if c.get("many"):
            # As many writers as there may be open files.
            old = resource.getrlimit(resource.RLIMIT_NOFILE)
            resource.setrlimit(resource.RLIMIT_NOFILE, (64, old[1]))
            try:
                d = mon.dir()
                keep = []
                for i in range(c["many"]):
                    os.mkdir(os.path.join(d, str(i)))
                    try:
                        keep.append(store(os.path.join(d, str(i))))
                    except OSError as e:
                        raise Violation("%s: the %dth writer fails: %r" % (k, i, e))
            finally:
                resource.setrlimit(resource.RLIMIT_NOFILE, old)
        # Less room than it takes.
        size = max(map(len, whole.values()))
        for room in sorted({0, 1, int(c["cut"] * size), size - 1, size}):
            if room > size:
                continue
            d = mon.dir()
            os.mkdir(os.path.join(d, "e"))
            e = attempt_os(store, os.path.join(d, "e"), room)
            if room == size:
                expect(e is None, "{}: with room for all {} bytes, {!r}", k, size, e)
                self.same(whole, slurp(os.path.join(d, "e")), k + ": with just enough room")
                mon.ev("as much room as it takes")
            else:
                expect(e is not None, "{}: with room for {} of {} bytes, no error is reported", k, room, size)
                mon.ev("refused: " + k)
                mon.ev("one byte too few", room == size - 1)
                if FINAL:
                    # The same call again, now that there is room.
                    FINAL.pop()()
                    self.same(whole, slurp(os.path.join(d, "e")), k + ": stored again by the same call after an error")
                    mon.ev("the same call again: " + k)
                # The next time there is room.
                gc.collect()
                shutil.rmtree(os.path.join(d, "e"))
                os.mkdir(os.path.join(d, "e"))
                store(os.path.join(d, "e"))
                self.same(whole, slurp(os.path.join(d, "e")), k + ": stored after an error")
                mon.ev("stored after all")
        # One file on a device that is full.
        name = sorted(whole)[c["which"] % len(whole)]
        if whole[name]:
            d = mon.dir()
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            os.symlink("/dev/full", os.path.join(d, name))
            e = attempt_os(store, d, None)
            expect(e is not None, "{}: {} is on a full device, and no error is reported", k, name)
            mon.ev("full device: " + k)
        # A place that cannot be written.
        d = mon.dir()
        if c["place"] == "folder":
            os.makedirs(os.path.join(d, name))
            e = attempt_os(store, d, None)
            expect(e is not None, "{}: {} is a folder, and no error is reported", k, name)
            mon.ev("no place")
        elif k not in ("shapefile", "edited", "convert"):       # (they make folders)
            e = attempt_os(store, os.path.join(d, "none"), None)
            expect(e is not None, "{}: the folder does not exist, and no error is reported", k)
            expect(not os.path.exists(os.path.join(d, "none")), "{}: a folder appears", k)
            mon.ev("no place")

    @staticmethod
    def same(a, b, what):
        for f in sorted(set(a) | set(b)):
            x, y = a.get(f), b.get(f)
            if x != y:
                raise Violation("%s, %s has %s instead of %s" % (what, f, "gone" if y is None else short(y), short(x)))


def attempt_os(store, d, room):
    """The error reported when something is stored, or None."""
    FINAL.clear()
    try:
        if room is None:
            store(d)
        else:
            with full_disk(room):
                store(d)
    except (OSError, shapefile.ShapefileException) as e:
        e.__traceback__ = None
        return e
    return None


class Alone(Check):
    id = "C43"
    files = tuple("coral/%s.py" % m for m in "bbox coord frame gradient grid names pf proj raster rg shapefile stats table tqdm vector".split())
    quick, thorough = 120, 3000
    wall = {"quick": 150.0, "thorough": 3000.0}
    cpu = 120.0
    rule = ("batches of 40 random jobs over every module (23 kinds), run twice in one process in different orders, in fresh processes with "
            "other hash seeds, time zones, working directories, a plain C locale, bare file names, and in four threads at once; results and files compared "
            "byte by byte; arguments and the state of the process looked at before and after; non-trivial: all")
    twins = 0
    required = tuple("job: " + k for k in WORK) + tuple("way: " + k for k in MODES) + ("again in the same process", "process state kept")

    def gen(self, r):
        ks = sorted(WORK)
        jobs = [(k, "%s/%d" % (k, r.getrandbits(40))) for k in ks]
        # Some are much like another one.
        jobs += [(k, "%s~%s~%d" % (s, ",".join("%d" % 2 ** r.uniform(0, 6) for _ in range(r.choice((1, 2)))), i))
                 for i, (k, s) in enumerate(r.sample(jobs, 12))]
        jobs += [(k, "%s/%d" % (k, r.getrandbits(40))) for k in (r.choice(ks) for _ in range(5))]
        r.shuffle(jobs)
        return {"jobs": jobs, "hash": r.randrange(1 << 32), "shuffle": r.getrandbits(30)}

    def check(self, c, mon):
        top = os.path.join(mon.base, "whole")
        shutil.rmtree(top, ignore_errors=True)
        os.mkdir(top)
        try:
            self.compare(c, top, mon)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def compare(self, c, top, mon):
        jobs = c["jobs"]
        Monitor.littered = False        # the files there are those of the job
        children = [self.start(c, how, top) for how in MODES]
        ordinary = circumstances()
        ways = contextlib.ExitStack()
        try:
            ways.enter_context(own_ways())
            first = circumstances()
            for k in ("umask", "recursion limit", "switch interval", "decimal context", "signal handlers", "collector"):
                assert first[k] != ordinary[k], k
            here = os.path.join(top, "here")
            os.mkdir(here)
            base = run_jobs(jobs, here)
            self.look(jobs, base, base, "at first")
            now = circumstances()
            for k in first:
                expect(first[k] == now[k], "the {} changed from {} to {}", k, short(first[k]), short(now[k]))
            mon.ev("process state kept", len(first))
            order = list(range(len(jobs)))
            random.Random(c["shuffle"] + 1).shuffle(order)
            self.look(jobs, base, run_jobs(jobs, here, order), "again in the same process")
            mon.ev("again in the same process", len(jobs))
            for k, _ in jobs:
                mon.ev("job: " + k)
            for how, p, out in children:
                err = p.communicate(timeout=300)[1]
                expect(p.returncode == 0, "a process ({}) ended with {}: {}", how, p.returncode, err[-1500:])
                with open(out, encoding="utf-8", errors="surrogatepass") as f:
                    got = json.load(f)
                for way, res in got.items():
                    self.look(jobs, base, res, "%s (%s)" % (how, way))
                    mon.ev("way: " + how, len(res))
        finally:
            ways.close()
            for _, p, _ in children:
                if p.poll() is None:
                    p.kill()
                    p.communicate()

    def start(self, c, how, top):
        mine = os.path.join(top, how.replace(" ", "_"))
        os.mkdir(mine)
        opts, more = MODES[how]
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str((c["hash"] + len(how) * 7919) % (1 << 32)), "PYTHONPATH": HERE,
               "VF_REPO": REPO, "PYTHONDONTWRITEBYTECODE": "1", **more}
        out = mine + ".json"
        jobs = c["jobs"] if how != "threads" else [j if j[0] not in ALONE else ("words", j[1]) for j in c["jobs"]]
        spec = {"top": mine, "cwd": "/" if how != "relative" else mine, "jobs": jobs, "how": how, "shuffle": c["shuffle"], "out": out}
        p = subprocess.Popen([sys.executable] + opts + ["-c", "from vf import core; core.import_coral(); from vf.props import whole; whole.child_main()"],
                             env=env, cwd=mine, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                             encoding="utf-8", errors="replace")
        p.stdin.write(json.dumps(spec))
        p.stdin.close()
        p.stdin = None
        return how, p, out

    @staticmethod
    def look(jobs, base, got, how):
        for i, (kind, seed) in enumerate(jobs):
            g, b = got[str(i)], base[str(i)]
            if kind in ALONE and how.startswith("threads"):
                continue
            expect(not g.startswith("VIOLATION "), "{} {} ({}): {}", kind, seed, how, g[10:])
            if g != b:
                k = next((k for k, (x, y) in enumerate(zip(g, b)) if x != y), min(len(g), len(b)))
                raise Violation("{} {}: the result differs {}: ...{}... instead of ...{}...".format(
                    kind, seed, how, g[max(0, k - 60):k + 100], b[max(0, k - 60):k + 100]))
