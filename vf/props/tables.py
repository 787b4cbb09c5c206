"""Text tables."""
import collections
import contextlib
import io
import os

from vf.core import Check, Gen, Violation, expect, raises, short, litter
from coral import table

NAMES = ("id", "name", "uf_id", "x", "y", "pop", "Área", "codigo", "a1", "b_2", "KEY", "value", "label", "região", "z9", "population_in_2010", "municipality_code")
CHARS = "\x0b\x0c\x1c\x85\u2028abcXYZ0123 .:'\"\\éçã漢🙂-+*/()[]{}=<>?!@$%&_~^`|;\t"


def draw_value(r, sep, comm, unique=None):
    u = r.random()
    if u < 0.12:
        return ""
    if u < 0.3:
        return str(r.randint(-5, 5))
    if u < 0.36:
        s = r.magic_str()
    else:
        s = r.text(1 + r.size(12), CHARS)
    for c in sep + comm + "\n\r":
        s = s.replace(c, "")
    return s


def draw_table(r, cols=None, rows=None, sep=",", comm="#"):
    if cols is None:
        cols = r.sample(NAMES, r.choice((1, 2, 2, 3, 4, 8)))
    n = rows if rows is not None else r.choice((1, 2, 3, 5, 12)) if r.chance(0.97) else r.choice((127, 128, 500, 1500))
    few = r.chance(0.5)
    pool = [draw_value(r, sep, comm) for _ in range(4)]
    out = []
    for i in range(n):
        row = [r.choice(pool) if few else draw_value(r, sep, comm) for _ in cols]
        out.append(row)
    return cols, out


def made(cols, rows):
    Row = collections.namedtuple("Row", cols)
    return [Row(*x) for x in rows]


def plain(t):
    return [dict(zip(row._fields, row)) for row in t]


def edge(row, sep):
    """Rows whose outermost blanks a text file cannot keep."""
    line = sep.join(row)
    blank = "".join(c for c in " \t\r\n" if c not in sep)
    return line != line.strip(blank) or not line


class Files(Check):
    id = "C27"
    files = ("coral/table.py",)
    quick, thorough = 10000, 300000
    rule = ("tables of 1 to 8 columns and 1 to 1500 rows of arbitrary text (non-ASCII, quotes, empty values, digits), "
            "six separators and comment marks, columns chosen and reordered on writing and on reading, comments and "
            "blank lines sprinkled in by hand; non-trivial: two columns and a row or more")
    required = ("value", "empty value", "not ASCII", "columns chosen on reading", "columns chosen on writing",
                "comment line", "comment at the end of a line", "blank line", "no header refused", "unknown column refused",
                "tab separated", "no rows", "Windows line ends", "indented")

    def gen(self, r):
        sep = r.choice((",", ",", ";", "\t", "|", "::", " "))
        comm = r.choice(("#", "#", "//", "%"))
        cols, rows = draw_table(r, sep=sep, comm=comm)
        for row in rows:
            while edge(row, sep):
                i = r.randrange(len(row))
                row[0] = "v" + row[0].strip()
                row[-1] = row[-1].strip() + "v"
        k = list(cols)
        r.shuffle(k)
        wk = k[:r.randint(1, len(k))] if r.chance(0.4) else None
        rk = None
        if r.chance(0.4):
            rk = list(wk or cols)
            r.shuffle(rk)
            rk = rk[:r.randint(1, len(rk))]
        extra = [(r.randrange(len(rows) + 2), r.choice(("comment", "comment", "blank", "spaces")))
                 for _ in range(r.randint(0, 4))] if r.chance(0.4) else []
        return {"sep": sep, "comm": comm, "cols": cols, "rows": rows, "wkeys": wk, "rkeys": rk, "extra": extra,
                "tail": r.chance(0.2), "crlf": r.chance(0.15), "final": r.chance(0.8), "empty": r.chance(0.05),
                "indent": [r.choice(("", "", "  ", "\t", " \t")) for _ in range(5)] if r.chance(0.2) else [""]}

    larges = ("rows", "columns", "values", "all")

    def large(self, what):
        r = Gen("much " + what)
        nc = 300 if what in ("columns", "all") else 3
        cols = ["column_%d" % i for i in range(nc)]
        nr = 70000 if what == "rows" else 30
        rows = [["%d" % i] + [draw_value(r, ",", "#").strip() * (3000 if what in ("values", "all") and r.chance(0.1) else 1)
                              for _ in cols[2:]] + ["end"] for i in range(nr)]
        k = list(cols)
        r.shuffle(k)
        return {"sep": ",", "comm": "#", "cols": cols, "rows": rows, "wkeys": None, "rkeys": k if what != "rows" else None,
                "extra": [(nr, "comment"), (nr // 2, "blank")], "tail": False, "crlf": False, "final": True, "empty": False}

    def nontrivial(self, c):
        return len(c["cols"]) > 1

    def check(self, c, mon):
        path = os.path.join(mon.dir(), "t.csv")
        litter(path)
        sep, comm = c["sep"], c["comm"]
        t = made(c["cols"], c["rows"])
        kw = {} if sep == "," else {"sep": sep}
        wkeys = c["wkeys"] or c["cols"]
        chosen = [[row[c["cols"].index(k)] for k in wkeys] for row in c["rows"]]
        if any(edge(x, sep) for x in chosen):
            return
        if c["wkeys"] is None:
            table.writefile(path, t, **kw)
        else:
            table.writefile(path, t, list(wkeys), **kw)
            mon.ev("columns chosen on writing")
        with open(path, encoding="utf-8", newline="") as f:
            lines = f.read().split("\n")
        expect(lines == [sep.join(x) for x in [wkeys] + chosen] + [""], "the file reads {}", short(lines))
        lines.pop()
        if c["empty"]:
            # A file without a header is refused.
            with open(path, "w", encoding="utf-8") as f:
                f.write("\n  \n" + comm + " only comments\n")
            raises(ValueError, table.readfile, path, comm=comm)
            mon.ev("no header refused")
            return
        for at, what in c["extra"]:
            if what == "spaces" and sep == " ":
                continue        # that is a row of empty values
            lines.insert(min(at, len(lines)), {"comment": comm + "a" + sep + "b", "blank": "", "spaces": "  "}[what])
            mon.ev("comment line" if what == "comment" else "blank line")
        if c["tail"]:
            lines = [x + comm + " note" + sep if x and not x.startswith(comm) else x for x in lines]
            mon.ev("comment at the end of a line")
        # (Blanks before and after a line are not part of it, unless they separate values.)
        ind = [x for x in c.get("indent", [""]) if not any(y in sep for y in x)] or [""]
        lines = [ind[i % len(ind)] + x + ind[(i + 2) % len(ind)] for i, x in enumerate(lines)]
        mon.ev("indented", any(ind))
        end = "\r\n" if c["crlf"] else "\n"
        mon.ev("Windows line ends", c["crlf"])
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(end.join(lines) + (end if c["final"] else ""))
        kw["comm"] = comm
        if c["rkeys"] is not None:
            mon.ev("columns chosen on reading")
            got = table.readfile(path, list(c["rkeys"]), **kw)
        else:
            got = table.readfile(path, **kw)
        rkeys = c["rkeys"] or wkeys
        want = [[row[wkeys.index(k)] for k in rkeys] for row in chosen]
        expect(len(got) == len(want), "{} rows come back as {}", len(want), len(got))
        for i, (g, x) in enumerate(zip(got, want)):
            expect(list(g._fields) == list(rkeys), "columns {} instead of {}", g._fields, rkeys)
            expect(list(g) == x, "row {}: {} instead of {}", i, short(tuple(g)), short(x))
            for v in x:
                mon.ev("empty value" if v == "" else "value")
                if not v.isascii():
                    mon.ev("not ASCII")
        mon.ev("tab separated", sep == "\t")
        raises(ValueError, table.readfile, path, ["no_such_column"], **kw)
        mon.ev("unknown column refused")
        with open(path, "w", encoding="utf-8") as f:
            f.write(sep.join(wkeys))
        expect(table.readfile(path, **kw) == [], "a header alone gives rows")
        mon.ev("no rows")


class Queries(Check):
    id = "C28"
    files = ("coral/table.py",)
    quick, thorough = 10000, 300000
    rule = ("pairs of tables sharing some columns or none, repeated and missing pivot values, chosen pivots and result "
            "columns; index, search, added and deleted columns; the printed form; against a plain reimplementation, "
            "inputs compared before and after; non-trivial: two rows or more")
    required = ("join: matched", "join: unmatched", "join: several candidates", "join: clash of values",
                "join: chosen columns", "join: chosen pivots", "getone", "getone: none", "getall", "indexby",
                "indexby: repeated", "addkey", "delkeys", "printed", "inputs untouched",
                "computed column")

    def gen(self, r):
        cols1, rows1 = draw_table(r)
        shared = [k for k in cols1 if r.chance(0.5)]
        rest = [k for k in NAMES if k not in cols1]
        cols2 = shared + r.sample(rest, r.randint(0 if shared else 1, 3))
        r.shuffle(cols2)
        _, rows2 = draw_table(r, cols2, r.choice((1, 2, 5, 20)))
        for row in rows2:       # make some rows meet
            if r.chance(0.7):
                src = r.choice(rows1)
                for k in cols2:
                    if k in cols1 and r.chance(0.85):
                        row[cols2.index(k)] = src[cols1.index(k)]
        both = [k for k in cols1 if k in cols2]
        piv = r.sample(both, r.randint(1, len(both))) if both and r.chance(0.5) else None
        if r.chance(0.05):
            piv = []            # no pivots at all: every row will do
        allk = list(dict.fromkeys(cols1 + cols2))
        keys = r.sample(allk, r.randint(1, len(allk))) if r.chance(0.4) else None
        return {"cols1": cols1, "rows1": rows1[:60], "cols2": cols2, "rows2": rows2, "pivots": piv, "keys": keys,
                "key": r.choice(cols1), "query": r.choice(rows1)[0] if r.chance(0.7) else "nowhere",
                "del": r.sample(cols1, r.randint(0, len(cols1) - 1)),
                "falsy": [r.choice(("", 0, 0.0, None, False, (), True, 1, "0"))],
                "kinds": [r.choice((0, 1, 2, "0", "1", "2", "", " 1", 1.5, "1.5", None, "None", -1,
                                    1.5 + 1e-12, 0.1 + 0.2, 0.3, 10**20, 10**20 + 1, 1.0, "a ", "a", "A", "e\u0301", "\u00e9")) for _ in range(30)]}

    larges = ("rows", "columns", "values")

    def large(self, what):
        r = Gen("much " + what)
        c = self.gen(r)
        if what == "columns":
            c["cols1"] = ["c%d" % i for i in range(520)]
            c["cols2"] = ["c%d" % i for i in range(510, 800)]
        else:
            c["cols1"], c["cols2"] = ["a", "b", "c"], ["c", "a", "d"]
        n = {"rows": 600, "columns": 8}.get(what, 20)
        for k, m in (("1", n), ("2", 2 * n // 3)):
            c["rows" + k] = [[str(r.randint(0, m)) if r.chance(0.7) else draw_value(r, ",", "#") * (300 if what == "values" else 1)
                              for _ in c["cols" + k]] for _ in range(m)]
        c.update(pivots=["c"] if what == "rows" else None, keys=None, key=c["cols1"][-1], query=c["rows1"][n // 2][-1],
                 **{"del": c["cols1"][1::2]})
        return c

    def nontrivial(self, c):
        return len(c["rows1"]) > 1

    def check(self, c, mon):
        t1, t2 = made(c["cols1"], c["rows1"]), made(c["cols2"], c["rows2"])
        s1, s2 = list(t1), list(t2)
        d1, d2 = plain(t1), plain(t2)
        both = [k for k in c["cols1"] if k in c["cols2"]]
        piv = both if c["pivots"] is None else c["pivots"]
        keys = c["keys"] or list(dict.fromkeys(c["cols1"] + c["cols2"]))
        kw = {}
        if c["pivots"] is not None:
            kw["pivots"] = list(c["pivots"])
            mon.ev("join: chosen pivots")
        if c["keys"] is not None:
            kw["keys"] = list(c["keys"])
            mon.ev("join: chosen columns")
        got = table.join(t1, t2, **kw)
        expect(len(got) == len(t1), "join gives {} rows for {}", len(got), len(t1))
        for a, g in zip(d1, got):
            hits = [b for b in d2 if all(a[k] == b[k] for k in piv)]
            want = dict(a)
            if hits:
                mon.ev("join: matched")
                want.update(hits[0])
                if any(a[k] != hits[0][k] for k in both):
                    mon.ev("join: clash of values")
            else:
                mon.ev("join: unmatched")
            if len(hits) > 1:
                mon.ev("join: several candidates")
            want = {k: want.get(k, "") for k in keys}
            g = dict(zip(g._fields, g))
            expect(g == want, "join gives {} instead of {}", short(g), short(want))
        if c["keys"] is not None:
            expect(all(list(g._fields) == c["keys"] for g in got), "columns not in the order asked for")
        # search
        key, q = c["key"], c["query"]
        hits = [row for row in s1 if getattr(row, key) == q]
        one = table.getone(t1, key, q)
        expect(one == (hits[0] if hits else None), "getone gives {}", short(one))
        mon.ev("getone" if hits else "getone: none")
        got = list(table.getall(t1, key, q))
        expect(got == hits, "getall gives {} rows instead of {}", len(got), len(hits))
        mon.ev("getall")
        # index
        if len(c["cols1"]) > 1:
            got = table.indexby(t1, key)
            want = {}
            for d in d1:
                if d[key] in want:
                    mon.ev("indexby: repeated")
                want[d[key]] = {k: v for k, v in d.items() if k != key}
            expect({k: dict(zip(v._fields, v)) for k, v in got.items()} == want, "indexby gives {}", short(got))
            mon.ev("indexby")
        # columns
        calls = []

        def func(row):
            calls.append(row)
            return "%d:%s" % (len(calls), row[0])
        got = list(table.addkey(t1, "added", func))
        expect(calls == s1, "addkey called its function {} times, or out of order", len(calls))
        expect([tuple(g) for g in got] == [tuple(row) + ("%d:%s" % (i + 1, row[0]),) for i, row in enumerate(s1)],
               "addkey gives {}", short(got))
        expect(got[0]._fields == tuple(c["cols1"]) + ("added",), "addkey columns {}", got[0]._fields)
        mon.ev("addkey")
        for v in c["falsy"]:
            got = list(table.addkey(t1, "added", lambda row: v))
            expect(all(g.added is v or type(g.added) is type(v) and g.added == v for g in got) and len(got) == len(s1),
                   "addkey gives {} for {!r}", short([g.added for g in got]), v)
        got = list(table.delkeys(t1, list(c["del"])))
        left = [k for k in c["cols1"] if k not in c["del"]]
        expect(all(list(g._fields) == left for g in got), "delkeys columns {}", got and got[0]._fields)
        expect([tuple(g) for g in got] == [tuple(d[k] for k in left) for d in d1], "delkeys gives {}", short(got))
        mon.ev("delkeys")
        # a computed column of any kind: a number is not its text
        kinds = c["kinds"]
        t3 = list(table.addkey(t1, "kind", lambda row: kinds[s1.index(row) % len(kinds)]))
        for q in kinds[:6]:
            hits = [row for row in t3 if row.kind == q]
            one = table.getone(t3, "kind", q)
            expect(one == (hits[0] if hits else None), "getone {!r} in a computed column gives {}", q, short(one))
            got = list(table.getall(t3, "kind", q))
            expect(got == hits, "getall {!r} in a computed column gives {} rows instead of {}", q, len(got), len(hits))
            mon.ev("computed column")
        want = {row.kind: tuple(row[:-1]) for row in t3}
        expect({k: tuple(v) for k, v in table.indexby(t3, "kind").items()} == want, "indexby a computed column")
        t4 = list(table.addkey(made(["other"], [["a%d" % i] for i in range(4)]), "kind", lambda row: kinds[int(row[0][1:])]))
        got = table.join(t3, t4)
        for a, g in zip(t3, got):
            hit = next((b.other for b in t4 if b.kind == a.kind), "")
            expect(g.other == hit and g.kind == a.kind, "join by a computed column: {!r} gives {!r} instead of {!r}",
                   a.kind, g.other, hit)
        # printed
        pk = c["keys"] and [k for k in c["keys"] if k in c["cols1"]] or None
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            table.pprint(t1, pk) if pk else table.pprint(t1)
        pk = pk or c["cols1"]
        w = [max(len(k), max(len(d[k]) for d in d1)) for k in pk]
        want = [" | ".join(v.ljust(n) for v, n in zip(row, w)) for row in [pk] + [[d[k] for k in pk] for d in d1]]
        want.insert(1, "-+-".join("-" * n for n in w))
        expect(out.getvalue() == "\n".join(want) + "\n", "printed {} instead of {}", short(out.getvalue()), short("\n".join(want)))
        mon.ev("printed")
        expect(t1 == s1 and t2 == s2 and plain(t1) == d1, "the tables changed")
        mon.ev("inputs untouched")
