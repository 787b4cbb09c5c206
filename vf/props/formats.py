"""Compact data formats: field codecs, RangeGrid data sets, P files."""
import keyword
import math
import os

from vf import compact, sphere
from vf.core import Check, Gen, Violation, Skip, expect, close, raises, short, litter
from coral import grid, rg, pf

SPAN = {1: 1 << 8, 2: 1 << 16, 4: 1 << 32, 8: 1 << 64}
LETTERS = "abcdefghijklmnopqrstuvwxyz"
TEXT = "abcXYZ 019-_.,éçãßñ漢字🙂\u0301'\"\\"


def draw_field(r, name, rgsafe):
    """A field as literal data."""
    k = r.choice("IIFFS")
    nul = r.chance(0.4)
    if k == "I":
        size = r.choice((1, 1, 2, 4, 8))
        lo = r.choice((0, 1, -1, -128, -1000, 5, r.integer(-10**6, 10**6), -(1 << 40), -(1 << 62)))
        if r.chance(0.5):
            # the widest range of this size, give or take
            d = SPAN[size] - 1 - nul + r.choice((0, 0, -1, 1, 2))
            if d >= SPAN[8] - nul:
                d = SPAN[8] - nul - 1
        else:
            d = r.randint(1, SPAN[size] - 2)
        return ("I", name, lo, lo + d, nul)
    if k == "F":
        size = r.choice((1, 2, 4, 8))
        if rgsafe or r.chance(0.5):
            lo = r.choice((-180, -90, 0, 1, -1, r.integer(-10**6, 10**6)))
            hi = lo + r.choice((1, 180, 360, 359, r.randint(1, 10**6)))
        else:
            lo = r.uniform(-1000, 1000)
            hi = lo + 10 ** r.uniform(-3, 4)
        return ("F", name, lo, hi, size, nul)
    return ("S", name, r.choice((1, 2, 3, 8, 8, 32, 127, 128, 129, r.randint(1, 300))), nul)


def make_field(f):
    if f[0] == "I":
        return grid.IVar(f[1], f[2], f[3], f[4]) if f[4] else grid.IVar(f[1], f[2], f[3])
    if f[0] == "F":
        return grid.FVar(f[1], f[2], f[3], f[4], f[5])
    return grid.SVar(f[1], f[2], nullable=f[3])


def nullable(f):
    return f[-1]


def width(f):
    if f[0] == "I":
        d = f[3] - f[2] + 1 + f[4]
        return next(s for s in (1, 2, 4, 8) if d <= SPAN[s])
    return f[4] if f[0] == "F" else f[2]


def fit(s, size):
    """The longest prefix of s of at most size bytes."""
    while len(s.encode("utf-8")) > size:
        s = s[:-1]
    return s


def draw_value(r, f):
    if nullable(f) and r.chance(0.2):
        return None
    if f[0] == "I":
        return r.choice((f[2], f[3], f[2] + 1, f[3] - 1)) if r.chance(0.3) else r.randint(f[2], f[3])
    if f[0] == "F":
        lo, hi, n = f[2], f[3], SPAN[f[4]] - 1 - f[5]
        u = r.random()
        if u < 0.2:
            return r.choice((lo, hi))
        if u < 0.4:     # between two codes
            v = lo + (hi - lo) * (r.randint(0, min(n, 1 << 50) - 1) + r.choice((0.5, 0.49, 0.51, 0.0))) / n
            return min(max(v, lo), hi)
        if u < 0.5:
            return r.randint(math.ceil(lo), math.floor(hi)) if math.ceil(lo) <= math.floor(hi) else lo
        return r.uniform(lo, hi)
    size = f[2]
    u = r.random()
    if u < 0.1:
        return ""
    s = r.text(r.randint(0, min(size, 40)), TEXT if r.chance(0.6) else LETTERS)
    if u < 0.3:
        s = s * (size // max(1, len(s)) + 1)        # fills the field
    elif u < 0.4:       # what readers of text are tempted to take away
        odd = r.choice("\ufeff \t\n\r\x1a\u3000\xa0\u2028\x7f\x01")
        s = r.choice((odd + s, s + odd, odd, odd + s + odd))
    return fit(s, size)


def bad_value(r, f):
    """A value the field cannot hold, as (literal)."""
    if not nullable(f) and r.chance(0.3):
        return None
    if f[0] == "I":
        return r.choice((f[2] - 1, f[3] + 1, f[3] + SPAN[8], "x", f[2] + r.choice((0.5, 0.25))))
    if f[0] == "F":
        d = (f[3] - f[2])
        return r.choice((f[2] - d * 0.01, f[3] + d * 0.01, f[3] + 1000 * d, "x"))
    return r.choice(("x" * (f[2] + 1), "é" * (f[2] // 2 + 1), 7))


def quantum(f):
    return (f[3] - f[2]) / (SPAN[f[4]] - 1 - f[5])


def same(f, got, want):
    """Is `got` what field f may return for `want`?"""
    if want is None or got is None:
        return got is None and want is None
    if f[0] == "I":
        return got == want and not isinstance(got, float)
    if f[0] == "S":
        return got == want
    ulp = 4e-16 * max(abs(f[2]), abs(f[3]), abs(f[3] - f[2]))
    return abs(got - want) <= quantum(f) / 2 * (1 + 1e-9) + 2 * ulp


class Codec(Check):
    id = "C13"
    files = ("coral/grid.py",)
    quick, thorough = 60000, 1500000
    rule = ("integer, real and string fields of every width, ranges at and around the "
            "limits of each width, nullable or not; values at the ends, between two "
            "codes, null, full-width and non-ASCII text; rows of up to 12 fields; non-trivial: all")
    required = ("integer", "real", "string", "null", "row", "refused", "smallest width",
                "stable real", "order kept", "no such field", "described", "NUL within")

    def gen(self, r):
        fs = [draw_field(r, "f%d" % i, False) for i in range(1 + r.size(11))]
        rows = [[draw_value(r, f) for f in fs] for _ in range(2)]
        for f, v in zip(fs, rows[0]):
            if f[0] == "S" and v and r.chance(0.15):        # NUL characters before others
                i = r.randrange(len(v))
                rows[0][fs.index(f)] = v[:i] + "\0" + v[i + 1:-1] + "x" if i < len(v) - 1 else v
        lo = r.choice((0, -7, 10**6, r.integer(-10**6, 10**6)))
        nul = r.chance(0.5)
        no = r.choice((("I", "f", lo, lo, nul), ("I", "f", lo, lo - r.randint(1, 300), nul),
                       ("I", "f", lo, lo + SPAN[8] - nul, nul), ("I", "f", lo, lo + SPAN[8] + r.size(1000), nul),
                       ("F", "f", lo, lo, r.choice((1, 2, 4, 8)), nul), ("F", "f", lo, lo - r.randint(1, 300), 2, nul),
                       ("F", "f", lo, lo + 1, r.choice((0, 3, 5, 6, 7, 9, 16, -1)), nul)))
        return {"fields": fs, "rows": rows, "bad": [bad_value(r, f) for f in fs], "no": no}

    def fixed(self, tier):
        out = []
        for size in (1, 2, 4, 8):
            for nul in (False, True):
                for lo in (0, -5, 10**9):
                    d = SPAN[size] - 1 - nul
                    for e in (0, -1, 1):
                        if size == 8 and e > 0:
                            continue
                        f = ("I", "f", lo, lo + d + e, nul)
                        out.append({"fields": [f], "rows": [[lo], [lo + d + e]], "bad": [lo - 1]})
        return out

    larges = ("columns", "text", "row")

    def large(self, what):
        r = Gen("much " + what)
        fs = [draw_field(r, "f%d" % i, False) for i in range({"columns": 3000, "text": 3, "row": 254}[what])]
        if what != "columns":
            fs += [("S", "t%d" % i, n, i % 2 > 0) for i, n in enumerate((255, 256, 4095, 65535, 65536, 70000, 1 << 20))]
        return {"fields": fs, "rows": [[draw_value(r, f) for f in fs] for _ in range(2)], "bad": [bad_value(r, f) for f in fs]}

    def check(self, c, mon):
        fs = [make_field(f) for f in c["fields"]]
        if "no" in c:
            try:
                o = make_field(c["no"])
            except Exception:
                mon.ev("no such field")
            else:
                raise Violation("a field {} is made: {}".format(c["no"], o))
        for f, o in zip(c["fields"], fs):
            text = str(o)
            kind = {"I": "integer", "F": "real", "S": "string"}[f[0]]
            for x in (kind, f[1]) + ((str(f[2]), str(f[3])) if f[0] != "S" else (str(f[2]),)):
                expect(x in text, "{} is described as {!r}, without {!r}", f, text, x)
            expect(("null" in text) == bool(f[-1]), "{} is described as {!r}", f, text)
            mon.ev("described")
        for f, o, bad in zip(c["fields"], fs, c["bad"]):
            expect(o.size == width(f) if f[0] != "I" else o.size <= 8, "{}: width {}", f, o.size)
            if f[0] == "I":
                expect(o.size == width(f), "{}: width {} instead of {}", f, o.size, width(f))
                mon.ev("smallest width")
            try:
                data = o.encode(bad)
            except Exception:
                mon.ev("refused")
            else:
                raise Violation("{} encodes {!r} as {!r}".format(f, bad, data))
            raises(Exception, o.decode, b"\xff" * (o.size + 1)) if f[0] != "S" else None
        row = grid.GRow(*fs)
        expect(len(row) == len(fs) and row.size == sum(map(width, c["fields"])),
               "row of {}: {} fields, {} bytes", c["fields"], len(row), row.size)
        for vals in c["rows"]:
            data = row.encode(*vals)
            expect(isinstance(data, bytes) and len(data) == row.size, "{} as {}: {} bytes",
                   vals, c["fields"], len(data))
            back = row.decode(data)
            expect(len(back) == len(vals), "{} comes back as {}", vals, back)
            for f, o, g, w in zip(c["fields"], fs, back, vals):
                expect(same(f, g, w), "{}: {!r} comes back as {!r}", f, w, g)
                expect(o.decode(o.encode(w)) == g, "{}: alone, {!r} comes back differently", f, w)
                if f[0] == "S" and w and "\0" in w:
                    mon.ev("NUL within")
                mon.ev("null" if w is None else {"I": "integer", "F": "real", "S": "string"}[f[0]])
                if f[0] == "F" and w is not None:
                    if f[4] <= 4 and abs(f[2]) <= 1e5 * (f[3] - f[2]) and f[2] < g < f[3]:
                        expect(o.encode(g) == o.encode(w), "{}: {!r} reads back as {!r}, that is stored differently",
                               f, w, g)
                        mon.ev("stable real")
                    if w == f[2] or w == f[3]:
                        expect(close(g, w, 1e-15, 4e-16 * max(abs(f[2]), abs(f[3]))), "{}: the limit {!r} comes back as {!r}", f, w, g)
            mon.ev("row")
        for i, f in enumerate(c["fields"]):
            a, b = c["rows"][0][i], c["rows"][1][i]
            if f[0] in "IF" and a is not None and b is not None:
                a, b = min(a, b), max(a, b)
                expect(fs[i].decode(fs[i].encode(a)) <= fs[i].decode(fs[i].encode(b)),
                       "{}: {!r} <= {!r} is reversed by storage", f, a, b)
                expect(fs[i].encode(a) <= fs[i].encode(b), "{}: codes of {!r} <= {!r} are not ordered", f, a, b)
                mon.ev("order kept")


def draw_rows(r, fs, n):
    if n > 2000:
        pool = [[draw_value(r, f) for f in fs] for _ in range(50)]
        return {"pool": pool, "n": n}
    return [[draw_value(r, f) for f in fs] for _ in range(n)]


def rows_of(x):
    if isinstance(x, dict):
        p = x["pool"]
        return [p[(i * i + i // 7) % len(p)] for i in range(x["n"])]
    return x


class DataSet(Check):
    id = "C14"
    files = ("coral/rg.py", "coral/grid.py")
    quick, thorough = 4000, 150000
    rule = ("RangeGrid data sets with random columns (1 to 255), 0 to 40 entities of 0 to 6 "
            "segments with 0 to 300 rows (now and then 70000), given or default ids, read "
            "by two readers under a random schedule of next/by-id/failed reads; "
            "non-trivial: at least one row")
    required = ("next", "by id", "missing id", "past the end", "empty segment", "default id",
                "two readers", "many rows", "columns kept", "odd column name", "closed reader")

    def gen(self, r):
        ncol = r.choice((1, 2, 2, 3, 5)) if r.chance(0.95) else r.choice((12, 100, 127, 128, 255))
        fs = [draw_field(r, "c%d" % i if r.chance(0.9) else "col_%s_%d" % (r.text(20, LETTERS), i), True)
              for i in range(ncol)]
        if r.chance(0.15):      # names that no attribute can have, or have twice
            fs = [f[:1] + (r.choice(("class", "a b", "1x", "", "_x", "c0", "None", "x.y", "n~", f[1])),) + f[2:] for f in fs]
        ents = []
        if r.chance(0.01) and ncol <= 2:
            shape = [[r.choice((65536, 65535, 70000, 16384, 20000))]]
        else:
            shape = [[r.size(60 if r.chance(0.8) else 300) for _ in range(r.size(6))]
                     for _ in range(r.size(12 if r.chance(0.9) else 150))]
            if ncol > 20:
                shape = [[min(n, 3) for n in s] for s in shape[:10]]
        for i, segs in enumerate(shape):
            u = r.random()
            if u < 0.3:
                id_ = None
            elif u < 0.5:
                id_ = r.integer(-5, 3000)
            elif u < 0.9:
                id_ = "e" + r.text(r.randint(0, 8), LETTERS + "019 .-") + "x"
            else:
                id_ = r.choice(("a b", "a 1", "1 2", " a", "a ", "7 7 7", "São", "#x", ""))
            ents.append((id_, [draw_rows(r, fs, n) for n in segs]))
        if ents and r.chance(0.12):     # ids that are nearly the same
            stem = r.text(r.choice((0, 1, 7, 15, 30, 63, 100, 254, 400)), LETTERS + " 01")
            tails = ("", "0", "1", "00", "01", "a", "A", " ", " 0", "0 ", "x0", "x1", "1.0", "é", "e\u0301", "é ")
            ents = [((r.choice((stem, stem, stem.upper())) + r.choice(tails)), e[1]) for e in ents]
            ents = [(i.replace("\n", "") or "0", e) for i, e in ents]
        ops = []
        for _ in range(r.choice((4, 12, 40)) if sum(map(sum, shape)) < 3000 else 3):
            u = r.random()
            w = r.randint(0, 1)
            if u < 0.45:
                ops.append((w, "next"))
            elif u < 0.85:
                ops.append((w, "id", r.randrange(len(ents)) if ents else 0))
            else:
                ops.append((w, "missing", "no such id"))
        return {"fields": fs, "ents": ents, "ops": ops, "gen": r.chance(0.3)}

    larges = ("entities", "segments", "columns", "text", "rows", "offsets")

    def large(self, what):
        r = Gen("much " + what)
        fs = [("I", "a", 0, 250, False), ("S", "b", 3, True), ("F", "c", -180, 180, 4, True)]
        if what == "columns":
            fs = [draw_field(r, "column_%d" % i, True) for i in range(255)]
        elif what == "text":
            fs += [("S", "t%d" % i, n, i % 2 > 0) for i, n in enumerate((127, 128, 4095, 16383, 16384, 70000))]
        shape = {"entities": [[1, 0, 2]] * 1500, "segments": [[1] * 1500, [3], [0] * 300 + [2]], "columns": [[40], [2, 2]],
                 "text": [[20, 3], [1]], "rows": [[40000, 3], [70000], [1]], "offsets": [[300]] * 300}[what]
        ents = [(None if i % 3 else "e%d" % i, [draw_rows(r, fs, n) for n in segs]) for i, segs in enumerate(shape)]
        ids = [0, len(ents) - 1, len(ents) // 2, 1, len(ents) - 2]
        return {"fields": fs, "ents": ents, "gen": False,
                "ops": [x for i in ids for x in ((0, "id", i), (1, "next"), (0, "missing", "no"), (0, "next"))]}

    def nontrivial(self, c):
        return any(c["ents"])

    def check(self, c, mon):
        path = os.path.join(mon.dir(), "data set")
        litter(path + ".rg", path + ".md")
        fs = c["fields"]
        w = rg.Writer(path, grid.GRow(*map(make_field, fs)))
        want = []
        for i, (id_, segs) in enumerate(c["ents"]):
            segs = [rows_of(s) for s in segs]
            given = ((row for row in s) for s in segs) if c["gen"] else segs
            if id_ is None:
                w.write(given)
                mon.ev("default id")
                id_ = i
            else:
                w.write(given, id_)
            want.append((str(id_), segs))
            if sum(map(len, segs)) > 10000:
                mon.ev("many rows")
        w.close()
        rs = [rg.Reader(path), rg.Reader(path)]
        for rd in rs:
            got = rd.row.fields
            expect(len(got) == len(fs), "{} columns come back as {}", len(fs), len(got))
            for f, g in zip(fs, got):
                cls = {"I": grid.IVar, "F": grid.FVar, "S": grid.SVar}[f[0]]
                expect(isinstance(g, cls) and g.name == f[1] and bool(g.nullable) == f[-1]
                       and g.size == width(f) and (f[0] == "S" or (g.minv, g.maxv) == (f[2], f[3])),
                       "column {} comes back as {!r} named {!r}", f, g, g.name)
            mon.ev("columns kept")
        pos = [0, 0]
        mon.ev("two readers")
        names = [f[1] for f in fs]
        for op in c["ops"] + [(0, "next"), (1, "next")]:
            k = op[0]
            rd = rs[k]
            if op[1] == "missing" or (op[1] == "id" and not want):
                raises(KeyError, rd.read, "no such id")
                mon.ev("missing id")
                continue
            if op[1] == "id":
                id_ = want[op[2]][0]
                i = next(j for j, e in enumerate(want) if e[0] == id_)     # the first one of that id
                raw = c["ents"][op[2]][0]
                got = rd.read(id_ if raw is None else raw)
                mon.ev("by id")
            else:
                i = pos[k]
                if i >= len(want):
                    raises(IndexError, rd.read)
                    mon.ev("past the end")
                    continue
                got = rd.read()
                mon.ev("next")
            pos[k] = i + 1
            self.compare(fs, names, want[i], got, mon, op)
            meddle(got)
        # and once more, everything in order
        rd = rg.Reader(path)
        for k, e in enumerate(want):
            self.compare(fs, names, e, rd.read(), mon, "in order")
            if k == len(want) // 2:         # closing a reader is nothing to the others
                rs[0].close()
                if any(segs and any(segs) for _, segs in want[:1]):
                    raises(Exception, rs[0].read, want[0][0])
                    mon.ev("closed reader")
        for x in rs + [rd]:
            x.close()

    def compare(self, fs, names, e, got, mon, op):
        id_, segs = e
        expect([len(s) for s in got] == [len(s) for s in segs],
               "{}: entity {!r} has segments of {} rows instead of {}", op, id_,
               [len(s) for s in got][:9], [len(s) for s in segs][:9])
        for s, t in zip(segs, got):
            if not s:
                mon.ev("empty segment")
            for a, b in zip(s, t):
                for f, n, x, y in zip(fs, names, a, b):
                    if not same(f, y, x):
                        raise Violation("{}: entity {!r}: {} {!r} comes back as {!r}".format(op, id_, f, x, y))
            for j in {0, len(names) - 1}:
                n = names[j]
                if n.isidentifier() and not keyword.iskeyword(n) and n[0] != "_" and names.count(n) == 1:
                    if t:
                        expect(getattr(t[0], n) == t[0][j] and len(t[0]) == len(fs),
                               "row {} does not carry its column names", short(t[0]))
                else:
                    mon.ev("odd column name")


class Boom(Exception):
    pass


class Rejected(Check):
    id = "C15"
    files = ("coral/rg.py", "coral/pf.py", "coral/grid.py")
    level = "fault_enumeration"
    quick, thorough = 6000, 200000
    rule = ("RangeGrid and P data sets written with faults injected at a chosen row of a chosen "
            "segment of some entities (value out of range, wrong type, missing column, "
            "NaN, a name or id that the file cannot hold, the caller's own iterator failing); the files must be the "
            "same bytes as if only the accepted entities had been offered; non-trivial: "
            "an entity was rejected after part of it had been taken")
    required = ("rejected (RangeGrid)", "rejected (P)", "identical files", "accepted after a rejection",
                "errors of accepted points only", "numbered after a rejection")

    def gen(self, r):
        kind = r.choice(("rg", "pf"))
        n = r.randint(2, 7)
        ents = []
        if kind == "rg":
            fs = [draw_field(r, "c%d" % i, True) for i in range(r.randint(1, 4))]
            for i in range(n):
                segs = [[[draw_value(r, f) for f in fs] for _ in range(r.randint(0, 6))]
                        for _ in range(r.randint(1, 3))]
                fault = None
                if r.chance(0.5):
                    s = r.randrange(len(segs))
                    j = r.randint(0, len(segs[s]))
                    what = r.choice(("value", "value", "short", "iterator", "id"))
                    col = r.randrange(len(fs))
                    row = [draw_value(r, f) for f in fs]
                    if what == "value":
                        row[col] = bad_value(r, fs[col])
                    elif what == "short":
                        row = row[:-1]
                    elif what == "id":
                        row = r.choice(("\n", "\r", "\n2 1", "a\r\nb 1"))
                    fault = (s, j, what, row)
                ents.append(("e%d" % i if r.chance(0.6) else None, segs, fault))
            return {"kind": kind, "fields": fs, "ents": ents}
        size = r.choice((1, 2, 4, 8))
        for i in range(n):
            parts = [[(r.lon(), r.lat()) for _ in range(r.randint(2, 7))] for _ in range(r.randint(1, 3))]
            fault = None
            if r.chance(0.5):
                s = r.randrange(len(parts))
                j = r.randint(0, len(parts[s]))
                what = r.choice(("nan", "inf", "-inf", "text", "none", "short", "name", "nul", "iterator"))
                if what == "iterator":
                    j = min(j, len(parts[s]) - 1)
                fault = (s, j, what, r.randint(0, 1))
            ents.append(("n%d" % i, parts, fault))
        return {"kind": kind, "size": size, "ents": ents}

    larges = ("rg", "pf")

    def large(self, kind):
        """The fault comes late, when a lot has been taken."""
        r = Gen("late " + kind)
        c, n = self.gen(r), 20000
        while c["kind"] != kind:
            c = self.gen(r)
        if kind == "rg":
            fs = c["fields"]
            segs = lambda: [rows_of(draw_rows(r, fs, n)), [[draw_value(r, f) for f in fs]]]
            row = [draw_value(r, f) for f in fs]
            bad = row[:-1] + [bad_value(r, fs[-1])]
            c["ents"] = [("a", segs(), None), ("b", segs(), (0, n - 1, "value", bad)), ("c", segs(), (1, 1, "short", row[:-1])),
                         ("d", segs(), (0, n, "iterator", row)), ("e", segs()[1:], None)]
        else:
            parts = lambda: [[(r.lon(), r.lat()) for _ in range(m)] for m in (n, 3)]
            c["ents"] = [("a", parts(), None), ("b", parts(), (0, n, "nan", 1)), ("c", parts(), (1, 3, "none", 0)),
                         ("d", parts(), (0, n - 1, "iterator", 0)), ("e", parts()[1:], None)]
        return c

    def nontrivial(self, c):
        return any(e[2] for e in c["ents"])

    def check(self, c, mon):
        d = mon.dir()
        (self.rangegrid if c["kind"] == "rg" else self.pfile)(c, mon, d)

    def offer(self, fn, mon, what):
        try:
            fn()
        except Boom:
            mon.ev(what)
            return False
        except Exception:
            mon.ev(what)
            return False
        return True

    def rangegrid(self, c, mon, d):
        row = lambda: grid.GRow(*map(make_field, c["fields"]))
        a = rg.Writer(os.path.join(d, "a"), row())
        good, after, bad = [], False, False
        for id_, segs, fault in c["ents"]:
            if fault is None:
                a.write(segs, *[id_][:id_ is not None])
                good.append((id_, segs))
                mon.ev("numbered after a rejection", bad and id_ is None)
                if bad:
                    mon.ev("accepted after a rejection")
                continue
            s, j, what, extra = fault

            def rows(seg):
                for i, x in enumerate(seg):
                    if i == j:
                        if what == "iterator":
                            raise Boom
                        yield extra
                    yield x
                if j == len(seg):
                    if what == "iterator":
                        raise Boom
                    yield extra
            if what == "id":
                id_ = "x" + extra
                offered = segs
            elif what == "iterator":
                offered = [rows(seg) if i == s else list(seg) for i, seg in enumerate(segs)]
            else:
                offered = [list(rows(seg)) if i == s else seg for i, seg in enumerate(segs)]
            if self.offer(lambda: a.write(offered, id_), mon, "rejected (RangeGrid)"):
                raise Violation("RangeGrid accepted the row {!r} ({}) for {}".format(extra, what, c["fields"]))
            bad = True
        a.close()
        b = rg.Writer(os.path.join(d, "b"), row())
        for id_, segs in good:
            b.write(segs, *[id_][:id_ is not None])
        b.close()
        for x in (".rg", ".md"):
            with open(os.path.join(d, "a" + x), "rb") as f, open(os.path.join(d, "b" + x), "rb") as g:
                expect(f.read() == g.read(), "a rejected entity left a trace in the {} file", x)
        rd = rg.Reader(os.path.join(d, "a"))
        for k, (id_, segs) in enumerate(good):
            got = rd.read(k if id_ is None else id_)
            expect([len(s) for s in got] == [len(s) for s in segs], "entity {} is damaged", id_)
        rd.close()
        mon.ev("identical files")

    def pfile(self, c, mon, d):
        a = pf.Writer(os.path.join(d, "a.p"), c["size"])
        good, bad = [], False
        for name, parts, fault in c["ents"]:
            if fault is None:
                a.write(name, parts)
                good.append((name, parts))
                if bad:
                    mon.ev("accepted after a rejection")
                continue
            s, j, what, ax = fault
            p = [list(x) for x in parts]
            if what == "name":
                name = name + "é"
            elif what == "nul":
                name = name[:ax] + "\0" + name[ax:]
            elif what == "iterator":
                class Part(list):
                    def __iter__(self):
                        for i, x in enumerate(list.__iter__(self)):
                            if i == j:
                                raise Boom
                            yield x
                p[s] = Part(p[s])
            else:
                v = {"nan": float("nan"), "inf": float("inf"), "-inf": -float("inf"), "text": "x", "none": None, "short": None}[what]
                pt = (12.5, 7.5)
                pt = (v, pt[1]) if ax else (pt[0], v)
                if what == "short":
                    pt = (1.0,)
                p[s].insert(j, pt)
            if self.offer(lambda: a.write(name, p), mon, "rejected (P)"):
                raise Violation("the P writer accepted {!r}".format(short(p)))
            bad = True
        errs = a.close()
        b = pf.Writer(os.path.join(d, "b.p"), c["size"])
        for name, parts in good:
            b.write(name, parts)
        errs2 = b.close()
        with open(os.path.join(d, "a.p"), "rb") as f, open(os.path.join(d, "b.p"), "rb") as g:
            expect(f.read() == g.read(), "a rejected entity left a trace in the P file")
        expect(tuple(errs) == tuple(errs2), "errors reported for rejected points: {} instead of {}",
               len(errs), len(errs2))
        mon.ev("errors of accepted points only")
        mon.ev("identical files")


GRID = 65535


def wrap(lon):
    while lon < -180:
        lon += 360
    while lon > 180:
        lon -= 360
    return lon


def stored(parts):
    """What a P file holds of these polygons: no repeated closing vertex."""
    out = []
    for p in parts:
        q = [(wrap(x), y) for x, y in p]
        if len(q) > 1 and q[0] == q[-1]:
            q = q[:-1]
        out.append(q)
    return out


def steps(lo, hi, first, span):
    """Width in degrees of the entity's box on the grid of 65535 steps: the
    least that covers [lo, hi]; one step more where a limit sits on a line."""
    a, b = (lo - first) * GRID / span, (hi - first) * GRID / span
    fa, cb = math.floor(a + 1e-7), math.ceil(b - 1e-7)
    n = cb - fa
    near = (abs(a - round(a)) < 1e-6) + (abs(b - round(b)) < 1e-6)
    return (max(1, n) + near) * span / GRID


def meddle(got):
    """The caller does what it likes with the lists it got."""
    for part in got:
        if isinstance(part, list):
            part.reverse()
            part.append((0, 0))
    if isinstance(got, list):
        got.append([])


def draw_entity(r):
    u = r.random()
    if u < 0.2:
        span = (360, 180)
    else:
        s = 10 ** r.uniform(-6, 1.5)
        span = (s * 2, s)
    cx, cy = r.lon(), r.lat()
    if r.chance(0.15):
        cx, cy = float(round(cx)), float(round(cy))
    np_ = r.choice((1, 1, 1, 2, 3, 8)) if r.chance(0.985) else r.choice((127, 128, 129, 255, 256, 300))
    parts = []
    for _ in range(np_):
        n = 1 + r.size(4) if np_ > 100 else r.choice((1, 2, 3, 4)) if r.chance(0.3) else 1 + r.size(200)
        p = [(max(-180, min(180, cx + r.uniform(-.5, .5) * span[0])),
              max(-90, min(90, cy + r.uniform(-.5, .5) * span[1]))) for _ in range(n)]
        v = r.random()
        if v < 0.3:
            p.append(p[0])
        elif v < 0.36:
            p = [(p[0][0], y) for x, y in p]        # on one meridian
        elif v < 0.42:
            p = [(x, p[0][1]) for x, y in p]
        elif v < 0.46:
            p = [(round(x * GRID / 360) * 360 / GRID, round(y * GRID / 180) * 180 / GRID) for x, y in p]
            p = [(max(-180, min(180, x)), max(-90, min(90, y))) for x, y in p]
        elif v < 0.5:
            p[0] = r.choice(((0, 0), (180, 90), (-180, -90), (-180.0, 90.0), (0, 90)))
        if r.chance(0.05):
            t = r.choice((360, -360)) * r.choice((1, 1, 2, 7, 1000))
            p = [(x + t, y) for x, y in p]
        parts.append(p)
    if r.chance(0.03):
        parts.insert(0, [(0, 0)])
    return parts


class PFile(Check):
    id = "C16"
    files = ("coral/pf.py",)
    quick, thorough = 10000, 300000
    rule = ("P files of 0 to 12 entities (now and then 200, or 16500) with polygons of 1 to 300 vertices (or 70000): whole world, tiny, "
            "degenerate, on grid lines, single points, without vertices, closed or not, a turn away; all "
            "coordinate sizes; read by index and by name in random order; non-trivial: one entity or more")
    required = ("point", "size 1", "size 2", "size 4", "size 8", "closing vertex dropped",
                "by name", "by index", "single point", "box kept", "many polygons", "no vertices",
                "no such size", "closed reader", "big")

    def gen(self, r):
        n = r.size(12) if r.chance(0.97) else r.choice((127, 128, 129, 200))
        ents = []
        for i in range(n):
            name = r.choice(("e%d" % i, "e%d" % i, r.text(r.size(200), LETTERS + " -.0123"), "dup"))
            ents.append((name, draw_entity(r) if n < 20 else [[(i, i / 3), (i + 1, 1), (2, 2)]]))
            if r.chance(0.03):      # nothing at all, or polygons without vertices
                ents[-1] = (name, r.choice(([], [[]], [[], []], [[]] + ents[-1][1] + [[]])))
        order = [r.randrange(n) for _ in range(r.choice((3, 10)))] if n else []
        return {"nosize": r.choice((0, 3, 5, 6, 7, 9, 16, -1, r.randint(10, 300))), "size": r.choice((1, 2, 4, 4, 8)), "default": r.chance(0.2), "ents": ents, "order": order}

    def fixed(self, tier):
        return [{"big": b, "size": z} for b, z in zip((
            ("vertices", 16383), ("vertices", 16384), ("vertices", 20000), ("polygons", 16400), ("entities", 16500),
            ("vertices", 2100000) if tier != "quick" else ("vertices", 70000)), (1, 2, 4, 8, 1, 1))]

    def nontrivial(self, c):
        return bool(c.get("ents") or "big" in c)

    def expand(self, c):
        """A case of many vertices, polygons or entities, kept short in writing."""
        if "big" not in c:
            return c
        k, n = c["big"]
        pt = lambda i: (i % 359 / 2 - 90, i % 1009 / 12 - 45)
        last = ("last", [[(1, 1), (2, 2), (3, 1)]])
        if k == "vertices":
            ents = [("a", [[pt(i) for i in range(n)], [(0, 0), (1, 1)]])]
        elif k == "polygons":
            ents = [("a", [[pt(i)] * (i % 2 + 1) for i in range(n)])]
        else:
            ents = [("e%d" % i, [[pt(i), pt(i + 1)]]) for i in range(n)]
        return {"size": c["size"], "default": False, "ents": ents + [last], "order": [len(ents), 0]}

    def check(self, c, mon):
        c = self.expand(c)
        mon.ev("big", len(c["ents"]) > 1000 or len(c["ents"]) == 2 and c["ents"][1][0] == "last")
        path = os.path.join(mon.dir(), "x.p")
        litter(path)
        size = 4 if c["default"] else c["size"]
        w = pf.Writer(path) if c["default"] else pf.Writer(path, size)
        for name, parts in c["ents"]:
            w.write(name, parts)
        errs = w.close()
        rd = pf.Reader(path)
        expect(len(rd) == len(c["ents"]), "{} entities come back as {}", len(c["ents"]), len(rd))
        names = [e[0] for e in c["ents"]]
        expect(list(rd.names) == names, "names {} come back as {}", short(names), short(list(rd.names)))
        ents = [stored(e[1]) for e in c["ents"]]
        for i in list(range(0, len(ents), 1 if len(ents) < 1000 else 97)) + c["order"]:
            got = rd.read(i)
            self.compare(ents[i], got, size, names[i], mon)
            meddle(got)
            mon.ev("by index")
        for i in c["order"]:
            j = names.index(names[i])
            got = rd.get(names[i])
            self.compare(ents[j], got, size, names[i], mon)
            meddle(got)
            mon.ev("by name")
        for (name, parts), q in zip(c["ents"], ents):
            for a, b in zip(parts, q):
                if len(b) < len(a):
                    mon.ev("closing vertex dropped")
                if len(b) == 1:
                    mon.ev("single point")
        expect(len(errs) == sum(len(p) for e in ents for p in e), "{} errors for {} points",
               len(errs), sum(len(p) for e in ents for p in e))
        rd.close()
        if c["ents"] and any(ents[0]):
            raises(Exception, rd.read, 0)
            mon.ev("closed reader")
        if "nosize" in c:
            raises(Exception, pf.Writer, path + "2", c["nosize"])
            mon.ev("no such size")

    def compare(self, parts, got, size, name, mon):
        expect([len(p) for p in got] == [len(p) for p in parts],
               "entity {!r}: polygons of {} vertices come back with {}", name,
               [len(p) for p in parts][:9], [len(p) for p in got][:9])
        xs = [x for p in parts for x, y in p]
        ys = [y for p in parts for x, y in p]
        if not xs:
            mon.ev("no vertices")
            return
        qx = steps(min(xs), max(xs), -180, 360) / (SPAN[size] - 1)
        qy = steps(min(ys), max(ys), -90, 180) / (SPAN[size] - 1)
        for p, q in zip(parts, got):
            for (x, y), (u, v) in zip(p, q):
                if abs(x - u) > qx * 0.5 * (1 + 1e-6) + 2e-13 or abs(y - v) > qy * 0.5 * (1 + 1e-6) + 2e-13:
                    raise Violation("entity {!r}, size {}: {} comes back as {}, more than half a step ({}, {}) away".format(
                        name, size, (x, y), (u, v), qx / 2, qy / 2))
        mon.ev("point", len(xs))
        if len(parts) > 127:
            mon.ev("many polygons")
        mon.ev("size %d" % size)
        mon.ev("box kept")


class PErrors(Check):
    id = "C17"
    files = ("coral/pf.py", "coral/coord.py")
    quick, thorough = 6000, 200000
    rule = ("as for P files; the errors returned at the end of writing against the "
            "distance between each given vertex and the one a reader gets, in order; non-trivial: one point or more")
    required = ("error", "error of a metre or more", "tiny error")

    def gen(self, r):
        n = r.size(5, 1)
        return {"size": r.choice((1, 2, 4, 8)),
                "ents": [("e%d" % i, draw_entity(r) if r.chance(0.97) else r.choice(([], [[]]))) for i in range(n)]}

    larges = (("vertices", 4), ("polygons", 2), ("entities", 1), ("vertices", 8))

    def large(self, what):
        r = Gen("errors %s %d" % what)
        k, size = what
        n, m, e = {"vertices": (20000, 1, 2), "polygons": (3, 3000, 2), "entities": (4, 1, 3000)}[k]
        return {"size": size, "ents": [("e%d" % i, [[(r.lon(), r.lat()) for _ in range(n)] for _ in range(m)]) for i in range(e)]}

    def check(self, c, mon):
        path = os.path.join(mon.dir(), "x.p")
        litter(path)
        w = pf.Writer(path, c["size"])
        for name, parts in c["ents"]:
            w.write(name, parts)
        errs = w.close()
        rd = pf.Reader(path)
        k = 0
        for i, (name, parts) in enumerate(c["ents"]):
            for p, q in zip(stored(parts), rd.read(i)):
                for a, b in zip(p, q):
                    expect(k < len(errs), "only {} errors are reported", len(errs))
                    r = sphere.georadius(6378137.0, 6356752.314245179, (a[1] + b[1]) / 2)
                    want = r * sphere.sep(a[0], a[1], b[0], b[1])
                    expect(close(errs[k], want, 1e-11, 3e-8), "vertex {} stored as {}: reported error {} m, real {} m",
                           a, b, errs[k], want)
                    k += 1
                    mon.ev("error")
                    mon.ev("error of a metre or more" if want >= 1 else "tiny error")
        expect(k == len(errs), "{} errors for {} vertices", len(errs), k)
        rd.close()


class Layout(Check):
    id = "C42"
    files = ("coral/rg.py", "coral/pf.py", "coral/grid.py")
    quick, thorough = 6000, 200000
    rule = ("RangeGrid and P files written by the library and taken apart by an independent decoder (every announced count, "
            "every code against the value given), and files put together by an independent encoder from random codes and read "
            "by the library; all column kinds and coordinate sizes; non-trivial: one row or vertex or more")
    required = ("P file taken apart", "P file put together", "RangeGrid taken apart", "RangeGrid put together",
                "code of the end of a range", "null code", "empty polygon", "whole globe", "thin box")

    def gen(self, r):
        kind = r.choice(("rg out", "rg in", "pf out", "pf in"))
        if kind[:2] == "pf":
            n = r.size(8) if r.chance(0.97) else r.choice((130, 300))
            size = r.choice((1, 2, 4, 8))
            names = [r.choice(("e%d" % i, r.text(r.size(300), LETTERS + " -.0123"))) for i in range(n)]
            if kind == "pf out":
                return {"kind": kind, "size": size, "ents": [
                    (i, (draw_entity(r) if n < 20 else [[(1, 2), (3, 4)]]) + [[]] * (r.random() < 0.04)) for i in names]}
            ents = []
            for i in names:
                box = []
                for _ in range(2):
                    a = r.choice((0, r.randint(0, 65534), r.randint(0, 65534)))
                    box += [a, r.choice((a + 1, r.randint(a + 1, 65535), 65535))]
                top = 256 ** size - 1
                code = lambda: r.choice((0, top, r.randint(0, top), r.randint(0, top), r.randint(0, top) & 0xff, top >> 1))
                parts = [[(code(), code()) for _ in range(r.size(20 if r.chance(0.97) else 400))]
                         for _ in range(r.size(4) if r.chance(0.97) else 200)]
                ents.append((i, tuple(box), parts))
            return {"kind": kind, "size": size, "ents": ents}
        fs = [draw_field(r, "c%d" % i, True) for i in range(1 + r.size(5))]
        if r.chance(0.1):
            fs = [f[:1] + (r.choice(("", "a b", f[1] * 60, "class", "x" * 127, "x" * 128)),) + f[2:] for f in fs]
        ents = []
        for i in range(r.size(8) if r.chance(0.97) else 150):
            segs = [[self.code(r, f) if kind == "rg in" else draw_value(r, f) for f in fs]
                    for _ in range(r.size(9) if r.chance(0.9) else 130)]
            lens = [len(segs)]
            while r.chance(0.4):
                k = r.randint(0, lens[-1])
                lens[-1:] = [k, lens[-1] - k]
            ents.append((r.choice(("e%d" % i, str(i), "an id %d" % i)), lens, segs))
        return {"kind": kind, "fields": fs, "ents": ents}

    larges = (("rg out", 70000), ("rg in", 70000), ("pf out", 70000), ("pf in", 70000), ("pf in", 66000), ("pf out", 20000), ("rg out", 17000),
              ("rg in", 17000))

    def large(self, what):
        # 70000: in one piece; else: of many pieces
        r = Gen("layout of %s %d" % what)
        kind, n = what
        one = n == 70000
        c = {"kind": kind, "size": 2 if one else 1}
        if kind == "pf out":
            c["ents"] = [("e", [[(r.lon(), r.lat()) for _ in range(n)]])] if one else [("e", [[(i / 400, 3), (4, i / 300)] for i in range(n)])]
        elif kind == "pf in":
            top = 256 ** c["size"] - 1
            vertex = lambda: (r.randint(0, top), r.randint(0, top))
            parts = [[vertex() for _ in range(n)]] if one else [[vertex()] * (i % 9 < 1) for i in range(n)]
            c["ents"] = [("e", (3, 60000, 7, 9), parts), ("last", (0, 65535, 0, 65535), [[vertex()]])]
        else:
            fs = c["fields"] = [("I", "a", 0, 250, False), ("S", "b", 3, True)]
            segs = [[self.code(r, f) if kind == "rg in" else draw_value(r, f) for f in fs] for _ in range(n)]
            c["ents"] = [("e", [n] if one else [1] * n, segs), ("last", [1], segs[:1])]
        return c

    def code(self, r, f):
        n = compact.width(f)
        if f[-1] and r.chance(0.15):
            return b"\xff" * n
        if f[0] == "S":
            return draw_value(r, f[:3] + (False,)).encode("utf-8").ljust(n, b"\0")
        top = f[3] - f[2] if f[0] == "I" else 256 ** n - 1 - bool(f[-1])
        return r.choice((0, top, r.randint(0, top), r.randint(0, top), min(top, r.randint(0, 255)))).to_bytes(n, "big")

    def nontrivial(self, c):
        return any(c["ents"])

    def check(self, c, mon):
        path = os.path.join(mon.dir(), "x.p")
        litter(path)
        getattr(self, c["kind"].replace(" ", "_"))(c, path, mon)

    def parse(self, fn, data):
        try:
            return fn(data)
        except (compact.Bad, ValueError, IndexError) as e:
            raise Violation("the file breaks the format: %s" % e)

    def pf_out(self, c, path, mon):
        w = pf.Writer(path, c["size"])
        for name, parts in c["ents"]:
            w.write(name, parts)
        w.close()
        with open(path, "rb") as f:
            size, ents = self.parse(compact.read_p, f.read())
        expect(size == c["size"] and len(ents) == len(c["ents"]), "size {} and {} entities instead of {} and {}",
               size, len(ents), c["size"], len(c["ents"]))
        for (name, parts), (n2, box, codes) in zip(c["ents"], ents):
            parts = stored(parts)
            expect(n2 == name, "{!r} is named {!r}", name, n2)
            expect([len(p) for p in codes] == [len(p) for p in parts], "{!r}: {} vertices instead of {}",
                   name, [len(p) for p in codes][:9], [len(p) for p in parts][:9])
            expect(box[0] < box[1] and box[2] < box[3], "{!r}: the box is {}", name, box)
            if any(parts):
                for k, span in ((0, 360), (1, 180)):
                    vs = [v[k] for p in parts for v in p]
                    a, b = (float(x) for x in compact.axis(box[2 * k], box[2 * k + 1], span))
                    q = span / 65535
                    expect(a <= min(vs) + 1e-12 and max(vs) <= b + 1e-12, "{!r}: box {} for {} to {}", name, (a, b), min(vs), max(vs))
                    # (a limit on a line may take one more step)
                    expect(min(vs) - a <= q * (1 + 1e-6) and b - max(vs) <= q * (1 + 1e-6), "{!r}: box {} for {} to {}",
                           name, (a, b), min(vs), max(vs))
                    step = (b - a) / (256 ** size - 1)
                    for p, u in zip(parts, compact.places(size, box, codes)):
                        for v, x in zip(p, u):
                            expect(abs(v[k] - float(x[k])) <= step * 0.5 * (1 + 1e-6) + 2e-13,
                                   "{!r}, size {}: {} is stored as {}", name, size, v, tuple(map(float, x)))
                mon.ev("whole globe", box == (0, 65535, 0, 65535))
                mon.ev("thin box", box[1] - box[0] == 1 or box[3] - box[2] == 1)
            mon.ev("empty polygon", not all(parts))
        mon.ev("P file taken apart")

    def pf_in(self, c, path, mon):
        with open(path, "wb") as f:
            f.write(compact.write_p(c["size"], c["ents"]))
        rd = pf.Reader(path)
        expect(len(rd) == len(c["ents"]) and list(rd.names) == [e[0] for e in c["ents"]], "entities {} are read as {}",
               [e[0] for e in c["ents"]][:9], short(list(rd.names)))
        top = 256 ** c["size"] - 1
        for i in reversed(range(len(rd))):
            name, box, codes = c["ents"][i]
            got = rd.read(i)
            expect([len(p) for p in got] == [len(p) for p in codes], "{!r}: {} vertices instead of {}",
                   name, [len(p) for p in got][:9], [len(p) for p in codes][:9])
            for p, q, u in zip(got, compact.places(c["size"], box, codes), codes):
                for v, x, w in zip(p, q, u):
                    expect(len(v) == 2 and abs(v[0] - x[0]) <= 2e-13 and abs(v[1] - x[1]) <= 2e-13,
                           "code {} of the box {} is read as {} instead of {}", w, box, v, tuple(map(float, x)))
                    mon.ev("code of the end of a range", 0 in w or top in w)
            mon.ev("whole globe", box == (0, 65535, 0, 65535))
            mon.ev("empty polygon", not all(codes))
        rd.close()
        mon.ev("P file put together")

    def rg_out(self, c, path, mon):
        fs = c["fields"]
        w = rg.Writer(path, grid.GRow(*map(make_field, fs)))
        for id_, lens, rows in c["ents"]:
            it = iter(rows)
            w.write([[next(it) for _ in range(n)] for n in lens], id_)
        w.close()
        with open(path + ".rg", "rb") as f, open(path + ".md") as g:
            fields, rows = self.parse(compact.read_rg, f.read())
            index = self.parse(compact.read_md, g.read())
        expect(fields == [f[:-1] + (bool(f[-1]),) for f in fs], "columns {} are stored as {}", fs, fields)
        expect(index == [(e[0], e[1]) for e in c["ents"]], "the index is {}", short(index))
        want = [row for e in c["ents"] for row in e[2]]
        expect(len(rows) == len(want), "{} rows are stored as {}", len(want), len(rows))
        for a, b in zip(want, rows):
            for f, x, code in zip(fs, a, b):
                y = compact.meaning(f, code)
                expect(same(f, y if y is None or f[0] != "F" else float(y), x), "{}: {!r} is stored as {!r}, that is {}", f, x, code, y)
                mon.ev("null code", x is None)
        mon.ev("RangeGrid taken apart")

    def rg_in(self, c, path, mon):
        fs = c["fields"]
        with open(path + ".rg", "wb") as f, open(path + ".md", "w") as g:
            f.write(compact.write_rg(fs, [row for e in c["ents"] for row in e[2]]))
            g.write(compact.write_md([(e[0], e[1]) for e in c["ents"]]))
        rd = rg.Reader(path)
        expect([g.name for g in rd.row.fields] == [f[1] for f in fs], "columns {} are read as {}", fs, rd.row.fields)
        for id_, lens, rows in c["ents"]:
            got = rd.read()
            expect([len(s) for s in got] == lens, "{!r}: segments of {} rows instead of {}", id_, [len(s) for s in got], lens)
            for a, b in zip(rows, [row for s in got for row in s]):
                for f, code, x in zip(fs, a, b):
                    y = compact.meaning(f, code)
                    if f[0] != "F" or y is None or x is None:
                        ok = x == y and type(x) is type(y)
                    else:
                        ok = abs(x - float(y)) <= 4e-16 * (abs(f[2]) + abs(f[3]) + f[3] - f[2])
                    expect(ok, "{}: the code {!r} is read as {!r} instead of {}", f, code, x, y)
                    mon.ev("null code", y is None)
                    if f[0] != "S":
                        mon.ev("code of the end of a range", not any(code) or y == f[3])
        rd.close()
        mon.ev("RangeGrid put together")
