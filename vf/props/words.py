"""Names: distances, matching, folding, abbreviations."""
import unicodedata

from vf.core import Check, Gen, Violation, expect, raises, short
from coral import names


def osa(a, b):
    """Optimal string alignment distance, row by row."""
    n, m = len(a), len(b)
    rows = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        rows[i][0] = i
    for j in range(m + 1):
        rows[0][j] = j
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            best = rows[i - 1][j - 1] + (a[i - 1] != b[j - 1])
            best = min(best, rows[i - 1][j] + 1, rows[i][j - 1] + 1)
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                best = min(best, rows[i - 2][j - 2] + 1)
            rows[i][j] = best
    return rows[n][m]


def jaro(a, b):
    if not a or not b:
        return 0.0
    reach = max(max(len(a), len(b)) // 2 - 1, 0)
    free = list(range(len(b)))
    pairs = []
    for i, c in enumerate(a):
        for j in free:
            if abs(i - j) <= reach and b[j] == c:
                pairs.append((i, j))
                free.remove(j)
                break
    if not pairs:
        return 0.0
    m = len(pairs)
    js = sorted(j for i, j in pairs)
    t = sum(a[i] != b[j] for (i, _), j in zip(pairs, js)) / 2
    return (m / len(a) + m / len(b) + (m - t) / m) / 3


def winkler(a, b):
    n = 0
    while n < 4 and n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    j = jaro(a, b)
    return j + n * 0.1 * (1 - j)


def draw_word(r, big=False):
    u = r.random()
    n = r.size(12) if not big else r.randint(60, 140)
    if u < 0.4:
        return r.text(n, "ab")
    if u < 0.7:
        return r.text(n, "abcde ")
    if u < 0.76:
        return r.magic_str()
    if u < 0.82:        # much alike, but not the same
        return r.text(n, r.choice(("\t \u00a0\n", "e\u0301\u00e9E", "i\u0131I\u0130", "\0 a", "s\u00dfS")))
    return r.text(n, "abcdefghijklmnopqrstuvwxyzáéíóúçãõ -'.ABC漢🙂")


def mutate(r, s):
    """s after a few edits."""
    s = list(s)
    for _ in range(r.randint(0, 4)):
        k = r.choice(("ins", "del", "sub", "swap", "swap"))
        i = r.randint(0, len(s))
        if k == "ins":
            s.insert(i, r.choice("abcdé"))
        elif i < len(s) and k == "del":
            del s[i]
        elif i < len(s) and k == "sub":
            s[i] = r.choice("abcde")
        elif i + 1 < len(s) and k == "swap":
            s[i], s[i + 1] = s[i + 1], s[i]
    return "".join(s)


class Distances(Check):
    id = "C29"
    files = ("coral/names.py",)
    quick, thorough = 16000, 500000
    rule = ("pairs of words of 0 to 140 characters over small and large alphabets, one often an edited form of the other; "
            "against separately written edit-distance and Jaro references, plus identity, symmetry, bounds and "
            "triangle-type relations; non-trivial: both words have a character")
    required = ("equal words", "transposition", "empty word", "long words", "jaro below 1", "common prefix",
                "symmetric", "relative error")

    def gen(self, r):
        big = r.chance(0.01)
        a = draw_word(r, big)
        b = mutate(r, a) if r.chance(0.6) else draw_word(r)
        return {"a": a, "b": b}

    larges = tuple((n, k) for n in (257, 600) for k in (0, 1, 2))

    def large(self, what):
        n, k = what
        r = Gen("letters %d %d" % what)
        a = r.text(n, ("ab", "abcdefghij ", "abcdefghijklmnopqrstuvwxyzáéíóú")[k])
        i = n * 3 // 4
        return {"a": a, "b": (mutate(r, a), a[:i] + "x" + a[i:] + mutate(r, a[:9]), a[:i] + r.text(n // 3, "abcd"))[k]}

    def nontrivial(self, c):
        return bool(c["a"] and c["b"])

    def check(self, c, mon):
        a, b = c["a"], c["b"]
        want = osa(a, b)
        got = names.damlev(a, b)
        expect(got == want, "edit distance of {!r} and {!r}: {} instead of {}", a, b, got, want)
        expect(names.damlev(b, a) == want, "edit distance of {!r} and {!r} is not symmetric", a, b)
        mon.ev("symmetric")
        e = names.strerr(a, b)
        n = len(a) + len(b)
        expect(abs(e - (2 * want / n if n else 0)) < 1e-12, "relative error of {!r} and {!r}: {}", a, b, e)
        mon.ev("relative error")
        j = names.jaro(a, b)
        refs = (jaro(a, b), jaro(b, a))
        expect(min(abs(j - x) for x in refs) < 1e-12, "Jaro of {!r} and {!r}: {} instead of {}", a, b, j, refs[0])
        expect(-1e-12 <= j <= 1 + 1e-12, "Jaro of {!r} and {!r}: {}", a, b, j)
        w = names.jaro_winkler(a, b)
        refs = (winkler(a, b), winkler(b, a))
        expect(min(abs(w - x) for x in refs) < 1e-12, "Jaro-Winkler of {!r} and {!r}: {} instead of {}", a, b, w, refs[0])
        expect(w >= j - 1e-12 and w <= 1 + 1e-12, "Jaro-Winkler {} and Jaro {}", w, j)
        if a == b:
            mon.ev("equal words")
            expect(got == 0 and (not a or abs(j - 1) < 1e-12 and abs(w - 1) < 1e-12), "{!r} differs from itself", a)
        else:
            expect(got > 0 and j < 1, "{!r} and {!r} are told to be the same", a, b)
            mon.ev("jaro below 1")
        if sorted(a) == sorted(b) and 0 < want < sum(x != y for x, y in zip(a, b)):
            mon.ev("transposition")
        mon.ev("empty word", not a or not b)
        mon.ev("long words", len(a) > 50)
        mon.ev("common prefix", bool(a and b and a[0] == b[0]))


ACCENTED = "áàãâäéèẽêëíìĩîïóòõôöúùũûüç"
PLAIN = "aaaaaeeeeeiiiiiooooouuuuuc"


class Matching(Check):
    id = "C30"
    files = ("coral/names.py",)
    quick, thorough = 8000, 250000
    rule = ("best matches of 1 to 12 keys among 1 to 12 values; folding of accented text; abbreviations of up to 14 "
            "place names (accents, filler words, shared prefixes, near-duplicates) to 1 to 8 letters; non-trivial: "
            "two names or more")
    required = ("match", "exact match", "tie", "folded", "abbreviation kept whole", "abbreviated", "clash avoided",
                "filler dropped", "refused", "shorter than asked")

    WORDS = ("SAO", "São", "Rio", "Santa", "Santo", "Bom", "Jesus", "Monte", "Verde", "Nova", "Novo", "Campo", "Lagoa",
             "Grande", "Água", "Boa", "Vista", "Três", "Conceição", "Ipê", "ab", "ac", "X", "Y", "Z", "Uberlândia")

    def gen(self, r):
        n = r.randint(1, 12)
        keys = [self.name(r) for _ in range(n)]
        values = [mutate(r, r.choice(keys)) if r.chance(0.6) else self.name(r) for _ in range(r.randint(1, 12))]
        if r.chance(0.2):       # words that are each other's beginnings and ends
            few = r.choice(("a", "ab", "ab "))
            keys, values = ([r.text(r.randint(0, 6), few) for _ in range(r.randint(1, 12))] for _ in "kv")
        length = r.choice((1, 2, 3, 3, 4, 5, 8))
        k = r.randint(1, 14)
        ns = [self.name(r) for _ in range(k)]
        if r.chance(0.3):
            stem = self.name(r)
            ns += [stem + " " + x for x in "AB"] + [stem + x for x in ("a", "b", "c")]
        return {"keys": keys, "values": values, "names": ns, "length": length,
                "extras": r.choice(((), (), ("DE", "DA", "DO"), ("DO",))),
                "text": r.text(r.randint(0, 20), ACCENTED + ACCENTED.upper() + "abc XYZ-漢ñß" + PLAIN)}

    def name(self, r):
        w = [r.choice(self.WORDS) for _ in range(r.choice((1, 1, 2, 2, 3, 4)))]
        if len(w) > 1 and r.chance(0.4):
            for _ in range(r.choice((1, 1, 2, 3))):
                w.insert(r.randint(1, len(w) - 1), r.choice(("de", "da", "DO")))
        return " ".join(w)

    larges = ("keys", "values", "names", "longer names")

    def large(self, what):
        r = Gen("much " + what)
        c = self.gen(r)
        if what == "keys":
            c["keys"] = [self.name(r)[:12] + str(i) for i in range(300)]
        elif what == "values":
            c["values"] = ["v%d" % i for i in range(300)] + [k + "x" for k in c["keys"]]
        else:
            c.update(length=6, extras=("DE", "DA"), names=[
                "%s %d de %s%s" % (self.name(r), i, self.name(r), " e mais outra vila" * (what == "longer names"))
                for i in range(200 if what == "names" else 40)])
        c["text"] = ACCENTED * 200
        return c

    def nontrivial(self, c):
        return len(c["names"]) > 1

    def check(self, c, mon):
        self.matches(c, mon)
        s = c["text"]
        got = names.ascii(s)
        want = "".join(unicodedata.normalize("NFD", ch)[0] if ch.lower() in ACCENTED else ch for ch in s)
        expect(got == want, "{!r} folds to {!r} instead of {!r}", s, got, want)
        mon.ev("folded", got != s)
        self.abbreviations(c, mon)

    def matches(self, c, mon):
        keys, values = list(c["keys"]), list(c["values"])
        got = names.mapping(keys, values)
        expect(keys == c["keys"] and values == c["values"], "the arguments changed")
        err = lambda a, b: 2 * osa(a, b) / (len(a) + len(b)) if a or b else 0.0
        expect(sorted(m.key for m in got) == sorted(keys), "keys {} of {}", [m.key for m in got], keys)
        for m in got:
            ds = [err(m.key, v) for v in values]
            best = min(ds)
            expect(m.value in values and err(m.key, m.value) <= best + 1e-12, "{!r} is matched to {!r}; {!r} is nearer",
                   m.key, m.value, values[ds.index(best)])
            expect(abs(m.score - (1 - best)) < 1e-12, "score of {!r} and {!r}: {}", m.key, m.value, m.score)
            mon.ev("match")
            mon.ev("exact match", best == 0)
            mon.ev("tie", ds.count(best) > 1)
        expect(all(a.score >= b.score for a, b in zip(got, got[1:])), "scores are not in order: {}", [m.score for m in got])

    @staticmethod
    def folded(name, extras):
        up = "".join(unicodedata.normalize("NFD", ch)[0] if ch.lower() in ACCENTED else ch for ch in name.upper())
        for e in extras:
            up = up.replace(" %s " % e, " ")
        return up

    def abbreviations(self, c, mon):
        n, extras = c["length"], c["extras"]
        seen, ns = set(), []
        for x in c["names"]:
            f = self.folded(x, extras)
            if f not in seen:
                seen.add(f)
                ns.append(x)
        given = list(ns)
        args = (extras,) if extras else ()
        try:
            got = names.abbreviations(ns, n, *args)
        except Exception as e:
            expect(type(e) is Exception, "abbreviations() fails with {!r}", e)
            mon.ev("refused")
            self.really(given, n, extras)
            return
        expect(ns == given, "the names changed")
        expect(set(got) == set(given), "abbreviations for {}", short(list(got)))
        expect(len(set(got.values())) == len(given), "an abbreviation is used twice: {}", short(got))
        for x in given:
            f, a = self.folded(x, extras), got[x]
            if f != self.folded(x, ()):
                mon.ev("filler dropped")
            if len(f) <= n:
                expect(a == f, "{!r} is abbreviated to {!r}", x, a)
                mon.ev("abbreviation kept whole")
                continue
            letters = f.replace(" ", "")
            expect(len(a) == min(n, len(letters)), "{!r} is abbreviated to {!r}, for {} letters", x, a, n)
            mon.ev("shorter than asked", len(a) < n)
            it = iter(letters)
            expect(all(ch in it for ch in a), "the letters of {!r} are not those of {!r} in order", a, x)
            mon.ev("abbreviated")
        # Alone, a name begins with its initials.
        for x in given[:3]:
            f = self.folded(x, extras)
            if len(f) <= n:
                continue
            a = names.abbreviations([x], n, *args)[x]
            ini = [w[0] for w in f.split(" ")][:n]
            it = iter(a)
            expect(a[0] == f[0] and all(ch in it for ch in ini), "{!r} alone is abbreviated to {!r}", x, a)
            mon.ev("clash avoided", a != got[x])

    def really(self, ns, n, extras):
        """A refusal must be because some name has no abbreviation left."""
        import itertools
        forms = []
        for x in ns:
            f = self.folded(x, extras)
            if len(f) <= n:
                forms.append({f})
            else:
                s = f.replace(" ", "")
                forms.append({"".join(k) for k in itertools.combinations(s, min(n, len(s)))})
        expect(any(len(f) <= len(ns) for f in forms), "no unique abbreviations for {}", short(ns))
