"""Statistics, gradients, progress meter."""
import io
import math
import re
import threading
from fractions import Fraction as Fr

from vf.core import Check, Gen, Violation, expect, raises, close, short
from coral import stats, gradient
from coral import tqdm as meter


def draw_numbers(r, n, kind):
    if kind == "int":
        return tuple(r.integer(-1000, 1000) for _ in range(n))
    if kind == "income":
        return tuple(round(r.expovariate(1 / 1000.0), 2) for _ in range(n))
    if kind == "big mean":
        m = r.choice((1e6, 1e9, -1e7))
        return tuple(m + r.uniform(-1, 1) for _ in range(n))
    if kind == "scales":
        return tuple(r.choice((-1, 1)) * 10 ** r.uniform(-8, 8) for _ in range(n))
    if kind == "extreme":
        e = r.choice((-85, -70, -30, 30, 60, 70))
        return tuple(r.uniform(-10, 10) * 10.0 ** e for _ in range(n))
    if kind == "same":
        return (r.choice((0, 1, 0.1, -3.7, 1e5)),) * n
    return tuple(r.uniform(-10, 10) for _ in range(n))


class Exact:
    """The textbook definitions over rationals."""

    @staticmethod
    def avg(s):
        return sum(map(Fr, s)) / len(s)

    @classmethod
    def covar(cls, a, b):
        u, v = cls.avg(a), cls.avg(b)
        return sum((Fr(x) - u) * (Fr(y) - v) for x, y in zip(a, b)) / len(a)

    @classmethod
    def gini(cls, s):
        n = len(s)
        t = sorted(map(Fr, s))
        # sum of |x - y| over all pairs
        tot = sum(x * (2 * i - n + 1) for i, x in enumerate(t))
        return tot / (n * (n - 1) * cls.avg(s))


KINDS = ("int", "income", "big mean", "scales", "same", "plain", "plain", "extreme")


class Stats(Check):
    id = "C31"
    files = ("coral/stats.py",)
    quick, thorough = 6000, 200000
    rule = ("sequences of 1 to 400 numbers (integers, incomes, large offsets, sixteen orders of magnitude, constant), "
            "asked for in a random order of calls with repetitions, cache clearing, more sequences than the caches hold and "
            "four threads at once; against exact rational arithmetic; non-trivial: sequences of two numbers or more")
    required = ("avg", "var", "std_dev", "covar", "corr", "gini", "sum", "max", "min", "len", "cache cleared",
                "cache hit", "eviction", "threads", "caches reported")

    def gen(self, r):
        seqs = []
        for _ in range(r.choice((1, 2, 4)) if r.chance(0.97) else 150):
            n = r.choice((1, 2, 2, 3, 5, 10, 40)) if r.chance(0.98) else 400
            kind = r.choice(KINDS)
            seqs.append((draw_numbers(r, n, kind), draw_numbers(r, n, r.choice((kind, kind, r.choice(KINDS))))))
        for _ in range(r.choice((0, 0, 1, 3))):
            # One that has much in common with another one.
            a, b = map(list, r.choice(seqs))
            how = r.choice(("shuffled", "reversed", "one", "transfer", "second", "same"))
            i, j = r.randrange(len(a)), r.randrange(len(a))
            if how == "shuffled":
                r.shuffle(a)
            elif how == "reversed":
                a.reverse()
            elif how == "one":
                a[i] = a[j]
            elif how == "same":
                seqs.append((tuple(a),) * 2)
                continue
            elif how == "transfer" and i != j:
                q = (a[i] - a[j]) / 4 if isinstance(a[i] + a[j], float) else (a[i] - a[j]) // 4
                a[i], a[j] = a[i] - q, a[j] + q
            else:
                r.shuffle(b)
            seqs.append((tuple(a), tuple(b)))
        if len(seqs) > 20:
            seqs = [(a[:5], b[:5]) for a, b in seqs]
        ops = [(r.choice(("avg", "var", "std_dev", "covar", "corr", "gini", "gini", "sum", "max", "min", "len", "clear")),
                r.randrange(len(seqs)), r.randint(0, 1)) for _ in range(r.choice((5, 30)))]
        if len(seqs) > 20:
            ops += [(r.choice(("avg", "var", "max", "covar")), i, 0) for i in range(len(seqs))] * 2
        return {"seqs": seqs, "ops": ops, "threads": r.chance(0.1)}

    larges = tuple((n, k) for n in (700, 3000) for k in ("int", "income", "plain", "big mean")) + ((20000, "int"),)

    def large(self, what):
        n, kind = what
        r = Gen("numbers %d %s" % what)
        ks = ["avg", "var", "std_dev", "covar", "corr", "sum", "max", "min", "len"] + ["gini"] * (n < 3000)
        ups = sorted(draw_numbers(r, n, kind))
        one = draw_numbers(r, n, kind)
        return {"seqs": [(one, draw_numbers(r, n, kind)), (tuple(ups), tuple(ups[::-1])), (one, one)],
                "ops": [(k, i, w) for k in ks for i in (0, 1) for w in (0, 1)] + [("covar", 2, 0), ("corr", 2, 0)], "threads": False, "large": True}

    def nontrivial(self, c):
        return any(len(a) > 1 for a, b in c["seqs"])

    def check(self, c, mon):
        stats.cache_clear()
        self.play(c, c["ops"], mon)
        info = stats.cache_info()
        fs = [getattr(stats, k) for k in ("max", "min", "sum", "len", "avg", "var", "std_dev", "covar", "corr",
                                          "gini_kakwani", "gini_deaton")]
        got = [f.cache_info() for f in fs]
        for k in ("hits", "misses", "currsize"):
            expect(getattr(info, k) == sum(getattr(x, k) for x in got), "cache_info().{} is {}, not the sum over {}",
                   k, getattr(info, k), got)
        mon.ev("caches reported")
        mon.ev("cache hit", info.hits)
        mon.ev("eviction", len(c["seqs"]) > 130)
        if c["threads"]:
            errs = []

            def go():
                try:
                    self.play(c, c["ops"], None)
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=go) for _ in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            mon.ev("threads")
            if errs:
                raise errs[0]
        stats.cache_clear()
        expect(all(f.cache_info().currsize == 0 for f in fs) and stats.cache_info()[0] == 0,
               "something is left in the caches: {}", [f.cache_info() for f in fs])
        mon.ev("cache cleared")

    def play(self, c, ops, mon):
        for k, i, w in ops:
            s, s2 = c["seqs"][i]
            if w:
                s, s2 = s2, s
            n = len(s)
            if mon and k != "clear":
                mon.ev(k)
            scale = max(map(abs, s)) or 1.0
            scale2 = max(map(abs, s2)) or 1.0
            if k == "clear":
                stats.cache_clear()
            elif k == "sum":
                self.near(stats.sum(s), sum(map(Fr, s)), 1e-12, n * scale * 1e-15, k, s)
            elif k == "len":
                expect(stats.len(s) == n, "len is {}", stats.len(s))
            elif k == "max":
                expect(stats.max(s) == sorted(s)[-1], "max of {} is {}", short(s), stats.max(s))
            elif k == "min":
                expect(stats.min(s) == sorted(s)[0], "min of {} is {}", short(s), stats.min(s))
            elif k == "avg":
                self.near(stats.avg(s), Exact.avg(s), 1e-12, scale * 1e-15, k, s)
            elif k == "var":
                self.near(stats.var(s), Exact.covar(s, s), 1e-12, scale ** 2 * 1e-14, k, s)
            elif k == "std_dev":
                got = stats.std_dev(s)
                self.near(got * got, Exact.covar(s, s), 1e-12, scale ** 2 * 1e-14, k, s)
                expect(got >= 0, "std_dev is {}", got)
            elif k == "covar":
                self.near(stats.covar(s, s2), Exact.covar(s, s2), 1e-12, scale * scale2 * 1e-14, k, (s, s2))
            elif k == "corr":
                v, v2 = Exact.covar(s, s), Exact.covar(s2, s2)
                if v < 1e-8 * scale ** 2 or v2 < 1e-8 * scale2 ** 2:
                    continue        # no correlation to speak of
                want = float(Exact.covar(s, s2)) / math.sqrt(v) / math.sqrt(v2)
                got = stats.corr(s, s2)
                tol = 1e-12 + 1e-14 * (scale ** 2 / float(v) + scale2 ** 2 / float(v2))
                expect(abs(got - want) <= tol and abs(got) <= 1 + 1e-7, "corr of {} and {} is {} instead of {}",
                       short(s), short(s2), got, want)
            else:
                if n < 2 or n > 60 and "large" not in c or abs(Exact.avg(s)) < scale * 1e-3:
                    continue
                want = Exact.gini(s)
                self.near(stats.gini_kakwani(s), want, 1e-11, 1e-11, k, s)
                self.near(stats.gini_deaton(s), want, 1e-11, 1e-11, k, s)

    @staticmethod
    def near(got, want, rel, abs_, what, s):
        d = abs(Fr(got) - want)
        expect(d <= max(Fr(rel) * abs(want), Fr(abs_)), "{} of {} is {} instead of {}", what, short(s), got, float(want))


def mix(pts, x):
    """Colors a gradient may give at x, exactly: [low, high] for each channel
    (at a hard step both sides are right)."""
    pts = sorted(((Fr(p), c) for p, c in pts), key=lambda p: p[0])
    x = Fr(x)
    at = [c for p, c in pts if p == x]
    if at:
        return [(min(Fr(c[k]) for c in at), max(Fr(c[k]) for c in at)) for k in range(3)]
    below = [(p, c) for p, c in pts if p < x]
    above = [(p, c) for p, c in pts if p > x]
    if not below:
        return [(Fr(v), Fr(v)) for v in above[0][1]]
    if not above:
        return [(Fr(v), Fr(v)) for v in below[-1][1]]
    (a, ca), (b, cb) = below[-1], above[0]
    f = (x - a) / (b - a)
    return [(Fr(u) + (Fr(v) - Fr(u)) * f,) * 2 for u, v in zip(ca, cb)]


class Gradients(Check):
    id = "C32"
    files = ("coral/gradient.py",)
    quick, thorough = 16000, 500000
    rule = ("gradients of 1 to 10 points in any order (ends given or not, hard steps, points very close together) and "
            "the four that come with the package, sampled at stops, next to them and anywhere in [0, 1]; against exact "
            "linear interpolation, also as hexadecimal colors; non-trivial: two points or more")
    required = ("at a stop", "between stops", "before the first stop", "after the last stop", "hard step", "hex",
                "points given out of order", "built-in")

    def gen(self, r):
        u = r.random()
        if u < 0.15:
            return {"name": r.choice(("gray", "bwr", "heat", "height")), "pts": None, "xs": self.xs(r, [0.25, 0.5, 0.57])}
        n = r.choice((1, 2, 3, 4, 10))
        ps = []
        for _ in range(n):
            v = r.random()
            if v < 0.1 and ps:
                p = r.choice(ps)
            elif v < 0.15 and ps:
                p = min(1.0, r.choice(ps) + 1e-9)
            elif v < 0.4:
                p = r.choice((0, 0.0, 1, 1.0, 0.5, 0.25))
            else:
                p = r.random()
            ps.append(p)
        if r.chance(0.5):
            ps.sort()
        pts = [(p, tuple(r.choice((0, 1, 0.5, r.random())) for _ in range(3))) for p in ps]
        return {"name": None, "pts": pts, "xs": self.xs(r, ps)}

    larges = (17, 33, 100, 257, 3000)

    def large(self, n):
        r = Gen("stops %d" % n)
        ps = [r.random() for _ in range(n)]
        pts = [(p, tuple(r.choice((0, 1, 0.5, r.random())) for _ in range(3))) for p in ps]
        return {"name": None, "pts": pts, "xs": self.xs(r, ps) + self.xs(r, ps) + [(i + 0.5) / 40 for i in range(40)]}

    def xs(self, r, ps):
        out = [0, 1]
        for _ in range(12):
            u = r.random()
            if u < 0.3:
                x = r.choice(ps)
            elif u < 0.5:
                x = r.choice(ps) + r.choice((-1, 1)) * r.choice((1e-12, 1e-6, 1e-3))
            else:
                x = r.random()
            out.append(min(1.0, max(0.0, x)))
        return out

    def nontrivial(self, c):
        return c["name"] is not None or len(c["pts"]) > 1

    BUILTIN = {
        "gray": [(0, (0, 0, 0)), (1, (1, 1, 1))],
        "bwr": [(0, (0, 0, 1)), (0.5, (1, 1, 1)), (1, (1, 0, 0))],
        "heat": [(0, (0, 0, 1)), (0.25, (0, 1, 1)), (0.5, (0, 1, 0)), (0.75, (1, 1, 0)), (1, (1, 0, 0))],
        "height": [(0, (0.0, 0.36, 0.18)), (0.25, (0.84, 0.84, 0.39)), (0.57, (0.63, 0.39, 0.0)), (1, (1.0, 1.0, 1.0))],
    }

    def check(self, c, mon):
        if c["name"]:
            pts = self.BUILTIN[c["name"]]
            g = getattr(gradient, c["name"])
            mon.ev("built-in")
        else:
            pts = c["pts"]
            given = list(pts)
            g = gradient.Gradient(given)
            expect(given == pts, "the points given changed")
            ps = [p for p, _ in pts]
            mon.ev("points given out of order", ps != sorted(ps))
            mon.ev("hard step", len(set(ps)) < len(ps))
        ps = [p for p, _ in pts]
        for x in c["xs"]:
            want = mix(pts, x)
            got = g.get(x)
            expect(len(got) == 3, "color {} at {}", got, x)
            for v, (lo, hi) in zip(got, want):
                expect(lo - Fr(1e-13) <= Fr(v) <= hi + Fr(1e-13), "color {} at {} of {}, channel should be {}..{}", got, x,
                       short(pts), float(lo), float(hi))
            mon.ev("at a stop" if x in ps else "before the first stop" if x < min(ps) else
                   "after the last stop" if x > max(ps) else "between stops")
            h = g.get_hex(x)
            expect(len(h) == 4 and h[0] == "#", "color {!r} at {}", h, x)
            for ch, (lo, hi) in zip(h[1:], want):
                v = int(ch, 16)
                expect(math.floor((lo - Fr(1e-13)) * 15) <= v <= math.floor((hi + Fr(1e-13)) * 15),
                       "color {} at {}, channel should be {}..{} of 15", h, x, float(lo * 15), float(hi * 15))
            mon.ev("hex")


class Clock:
    """Time as the case tells it."""

    def __init__(self, steps):
        self.steps = steps
        self.now = 1e9
        self.k = 0

    def time(self):
        if self.steps:
            self.now += self.steps[self.k % len(self.steps)]
            self.k += 1
        return self.now

    monotonic = perf_counter = time


def screen(text):
    """What a terminal shows of a line rewritten with carriage returns."""
    lines, cur, col = [], [], 0
    for ch in text:
        if ch == "\r":
            col = 0
        elif ch == "\n":
            lines.append("".join(cur).rstrip())
            cur, col = [], 0
        else:
            if col < len(cur):
                cur[col] = ch
            else:
                cur.append(ch)
            col += 1
    lines.append("".join(cur).rstrip())
    return lines


class Fault(Exception):
    pass


class Progress(Check):
    id = "C39"
    files = ("coral/tqdm.py",)
    quick, thorough = 12000, 400000
    rule = ("iterables of 0 to 300 items of many kinds (sequences, generators, iterators, sized or not, failing half-way, "
            "wrong totals), meter options and a clock that stands, runs, leaps and goes backwards; what comes out, when "
            "items are taken from the source, and what a terminal shows; non-trivial: one item or more")
    required = ("all items", "failure passed on", "stopped early", "one at a time", "status shown", "line left",
                "line removed", "wrong total", "no total", "updated on the way", "trange", "timed", "longer than a day")

    def gen(self, r):
        n = r.size(12) if r.chance(0.9) else r.choice((100, 300))
        return {"n": n, "kind": r.choice(("list", "tuple", "range", "gen", "iter", "dict", "sized", "string")),
                "fail": r.randint(0, n) if r.chance(0.2) else None,
                "stop": r.randint(0, n) if r.chance(0.2) else None,
                "desc": r.choice(("", "", "map", "países", "a longer text to be shown: ")),
                "total": r.choice((None, None, None, 0, n, n + 5, max(0, n - 1), 1)),
                "leave": r.choice((None, True, False)),
                "mininterval": r.choice((None, 0, 0.1, 2)), "miniters": r.choice((None, 1, 3, 10)),
                "work": r.choice(([0.25], [1], [61.5], [0.5, 0, 0, 3], [3599, 1, 0.5], [40000, 86399.75], [1e6], [0, 0.5, 9e4]))
                if r.chance(0.5) else None,
                "clock": r.choice(([], [0.3], [0.05, 1.0], [3600.0], [1.0, -5.0, 2.0], [0.0], [0.001])),
                "trange": r.chance(0.1)}

    larges = tuple((n, s) for n in (1001, 20000) for s in (0, 1, 2))

    def large(self, what):
        n, s = what
        c = self.gen(Gen("items %d %d" % what))
        c.update(n=n, kind=("list", "gen", "sized")[s], fail=None, stop=None, total=(None, n, n - 1)[s], trange=False, leave=True,
                 mininterval=0 if n < 2000 else 2, miniters=None, clock=[], work=[61.5] if n < 2000 else [0.25])
        return c

    def nontrivial(self, c):
        return c["n"] > 0

    def check(self, c, mon):
        n = c["n"]
        items = [object() for _ in range(n)]
        taken = []

        def source():
            for i, x in enumerate(items):
                if c["fail"] == i:
                    raise Fault
                taken.append(i)
                yield x
            if c["fail"] == n:
                raise Fault
        kind = c["kind"]
        sized = True
        if c["fail"] is not None:
            src, sized = source(), False
        elif kind in ("list", "tuple"):
            src = (list if kind == "list" else tuple)(items)
        elif kind == "range":
            src = range(n)
            items = list(src)
        elif kind == "string":
            src = "x" * n
            items = list(src)
        elif kind == "dict":
            src = dict.fromkeys(items)
        elif kind == "sized":
            class Src:
                def __len__(self):
                    return n

                def __iter__(self):
                    return source()
            src = Src()
        elif kind == "gen":
            src, sized = source(), False
        else:
            src, sized = iter(items), False
        out = io.StringIO()
        kw = {k: c[k] for k in ("total", "leave", "mininterval", "miniters") if c[k] is not None}
        if c["desc"]:
            kw["desc"] = c["desc"]
        leave = c["leave"] is not False
        total = c["total"] if c["total"] is not None else n if sized else None
        real = meter.time
        clock = Clock([] if c["work"] else c["clock"])
        if hasattr(real, "time"):
            meter.time = clock
        try:
            if c["trange"] and c["fail"] is None:
                a = (n,) if n % 2 else (5, 5 + 2 * n, 2)
                items = list(range(*a))
                total = c["total"] if c["total"] is not None else n
                it = meter.trange(*a, file=out, **kw)
                lazy = False
                mon.ev("trange")
            else:
                it = meter.tqdm(src, file=out, **kw)
                lazy = c["fail"] is not None or kind in ("gen", "sized")
            it = iter(it)
            got, failed, prev = [], False, 0
            while True:
                if c["stop"] is not None and len(got) == c["stop"]:
                    if hasattr(it, "close"):
                        it.close()
                    break
                try:
                    x = next(it)
                except StopIteration:
                    break
                except Fault:
                    failed = True
                    break
                got.append(x)
                if c["work"]:
                    clock.now += c["work"][(len(got) - 1) % len(c["work"])]
                if lazy:
                    expect(len(taken) == len(got), "{} items were taken to give {}", len(taken), len(got))
                    mon.ev("one at a time")
                out.seek(prev)
                new = out.read()        # (to the end, where it is written on)
                expect("\n" not in new, "a line is ended on the way: {!r}", new)
                mon.ev("updated on the way", bool(new and len(got) > 1 and prev))
                prev += len(new)
        finally:
            meter.time = real
        k = min(n, c["stop"]) if c["stop"] is not None else n
        if c["fail"] is not None and (c["stop"] is None or c["stop"] > c["fail"]):
            k = c["fail"]
            expect(failed, "the failure of the source got lost")
            mon.ev("failure passed on")
        else:
            expect(not failed, "a failure out of nowhere")
        expect(len(got) == k and all(a is b or a == b for a, b in zip(got, items)), "{} items of {} came out", len(got), k)
        lines = screen(out.getvalue())
        if failed or c["stop"] is not None and c["stop"] <= n and not (c["fail"] is not None and failed):
            mon.ev("stopped early", not failed)
            return
        mon.ev("all items")
        if c["work"] and hasattr(real, "time"):
            self.timed(c, n, total, leave, out.getvalue(), mon)
        if leave:
            expect(len(lines) == 2 and lines[1] == "", "the screen shows {}", lines)
            mon.ev("line left")
            line = lines[0]
            expect(line.startswith(c["desc"]), "{!r} does not begin with {!r}", line, c["desc"])
            rest = line[len(c["desc"]):]
            if c["desc"]:
                expect(rest[:2] == ": ", "line {!r}", line)
                rest = rest[2:]
            if total and n <= total:
                # (rounding may lose a whole step)
                want = tuple("|%s%s| %d/%d %3d%% [elapsed: " % ("#" * b, "-" * (10 - b), n, total, q)
                             for b in self.floors(10 * n, total) for q in self.floors(100 * n, total))
            else:
                want = "%d [elapsed: " % n
                mon.ev("no total" if not total else "wrong total")
            expect(rest.startswith(want), "the meter shows {!r} instead of {!r}", rest, want)
            expect(rest.endswith("iters/sec]"), "the meter shows {!r}", rest)
            mon.ev("status shown")
        else:
            expect(lines == [""], "the screen still shows {}", lines)
            mon.ev("line removed")

    def timed(self, c, n, total, leave, text, mon):
        """With a clock that only goes on while an item is handled, which
        updates there are, and when they say they are, is known."""
        every = c["mininterval"] if c["mininterval"] is not None else 0.5
        least = c["miniters"] if c["miniters"] is not None else 1
        want, t, at, k = [(0, 0)], 0, 0, 0
        for i in range(1, n + 1):
            t += c["work"][(i - 1) % len(c["work"])]
            if i - k >= least and t - at >= every:
                want.append((i, t))
                k, at = i, t
        if leave and k < n:
            want.append((n, t))
        pat = re.compile(r"(\d+)(?:/\d+ +\d+%)? \[elapsed: ([\d:]+)(?: left: ([\d:?]+))?, +(\S+) iters/sec\]")
        shown = pat.findall(text)
        # (what is shown twice is shown)
        expect([int(x[0]) for x in shown] == [i for i, _ in want],
               "updates at {} instead of {} of {} items", [x[0] for x in shown], [i for i, _ in want], n)
        for (i, t), (_, el, left, rate) in zip(want, shown):
            expect(self.seconds(el) == int(t), "after {} seconds the meter says {}", t, el)
            expect(rate == "?" if not t else abs(float(rate) - i / t) <= 0.0051, "{} items in {} seconds are {} each", i, t, rate)
            if total and n <= total:
                expect(left == "?" if not i else abs(self.seconds(left) - t / i * (total - i)) <= 1.001,
                       "after {} of {} items in {} seconds there are {} left", i, total, t, left)
            if t >= 86400:
                mon.ev("longer than a day")
        mon.ev("timed")

    @staticmethod
    def seconds(text):
        expect(re.fullmatch(r"([1-9]\d*:)?[0-5]\d:[0-5]\d", text), "a time of {!r}", text)
        t = 0
        for x in text.split(":"):
            t = 60 * t + int(x)
        return t

    @staticmethod
    def floors(a, b):
        return (a // b, a // b - 1) if a % b == 0 and a else (a // b,)
