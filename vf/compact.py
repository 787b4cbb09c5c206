"""Independent reader and writer of RangeGrid (version 1) and P (version 0)
files (oracle side: shares nothing with the code under test)."""
import struct
from fractions import Fraction as Fr


class Bad(Exception):
    """The file breaks the format."""


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg.format(*args))


def vlv(n):
    """Seven bits a byte, most significant first; all but the last are marked."""
    out = bytes((n & 127,))
    while n > 127:
        n >>= 7
        out = bytes((n & 127 | 128,)) + out
    return out


def svlv(n):
    return (b"\xff" if n < 0 else b"\0") + vlv(abs(n))


class Tape:
    def __init__(self, data):
        self.data, self.at = data, 0

    def take(self, n):
        need(self.at + n <= len(self.data), "ends at byte {}, {} short", len(self.data), self.at + n - len(self.data))
        self.at += n
        return self.data[self.at - n:self.at]

    def vlv(self):
        v = 0
        while True:
            b = self.take(1)[0]
            v = v * 128 + (b & 127)
            if b < 128:
                return v

    def svlv(self):
        s = self.take(1)
        need(s in (b"\0", b"\xff"), "sign {!r}", s)
        return -self.vlv() if s != b"\0" else self.vlv()

    def name(self):
        i = self.data.find(b"\0", self.at)
        need(i >= 0, "a name without end at {}", self.at)
        return self.take(i + 1 - self.at)[:-1].decode("ascii")

    def uint(self, size):
        return int.from_bytes(self.take(size), "big")

    def end(self):
        need(self.at == len(self.data), "{} bytes are left over", len(self.data) - self.at)


def axis(a, b, span):
    """The limits that two box numbers stand for."""
    return Fr(a * span, 65535) - span // 2, Fr(b * span, 65535) - span // 2


def write_p(size, ents):
    """ents: [(name, (x0, x1, y0, y1), [[(u, v)]])], all whole numbers."""
    out = [b"PF\0", bytes((size,)), vlv(sum(len(p) for _, _, parts in ents for p in parts)), vlv(len(ents))]
    for name, box, parts in ents:
        out += [name.encode("ascii"), b"\0", vlv(len(parts)), struct.pack(">4H", *box)] + [vlv(len(p)) for p in parts]
    for _, _, parts in ents:
        out += [u.to_bytes(size, "big") + v.to_bytes(size, "big") for p in parts for u, v in p]
    return b"".join(out)


def read_p(data):
    t = Tape(data)
    need(t.take(3) == b"PF\0", "signature {!r}", data[:3])
    size = t.take(1)[0]
    need(size in (1, 2, 4, 8), "size {}", size)
    total, n = t.vlv(), t.vlv()
    heads = []
    for _ in range(n):
        name, k = t.name(), t.vlv()
        box = tuple(t.uint(2) for _ in range(4))
        heads.append((name, box, [t.vlv() for _ in range(k)]))
    need(sum(map(sum, (h[2] for h in heads))) == total, "{} vertices are announced, the index has {}",
         total, sum(map(sum, (h[2] for h in heads))))
    ents = [(name, box, [[(t.uint(size), t.uint(size)) for _ in range(k)] for k in lens]) for name, box, lens in heads]
    t.end()
    return size, ents


def places(size, box, parts):
    """Longitudes and latitudes of stored vertices, as fractions."""
    (x0, x1), (y0, y1) = axis(box[0], box[1], 360), axis(box[2], box[3], 180)
    n = 256 ** size - 1
    return [[(x0 + u * (x1 - x0) / n, y0 + v * (y1 - y0) / n) for u, v in p] for p in parts]


# Fields are ("I", name, lo, hi, null), ("F", name, lo, hi, size, null) and ("S", name, size, null).

def width(f):
    if f[0] == "I":
        return next(s for s in (1, 2, 4, 8) if f[3] - f[2] + bool(f[4]) < 256 ** s)
    return f[4] if f[0] == "F" else f[2]


def meaning(f, code):
    """What a code stands for (a fraction for a real)."""
    if f[0] == "S":
        if f[3] and code == b"\xff" * f[2]:
            return None
        return code.rstrip(b"\0").decode("utf-8")
    k = int.from_bytes(code, "big")
    if f[-1] and k == 256 ** len(code) - 1:
        return None
    if f[0] == "I":
        return f[2] + k
    return f[2] + Fr(k * (f[3] - f[2]), 256 ** f[4] - 1 - bool(f[5]))


def write_rg(fields, rows):
    """The data file; rows are codes."""
    out = [b"RG\1", bytes((len(fields),)), struct.pack("=I", len(rows))]
    for f in fields:
        out += [f[1].encode("ascii"), b"\0", bytes(("IFS".index(f[0]), f[-1])), vlv(width(f))]
        if f[0] != "S":
            out += [svlv(f[2]), svlv(f[3])]
    return b"".join(out + [b"".join(row) for row in rows])


def write_md(ents):
    return "".join(["%d\n" % len(ents)] + ["%s %d\n%s\n" % (i, len(lens), " ".join(map(str, lens))) for i, lens in ents])


def read_rg(data):
    t = Tape(data)
    need(t.take(3) == b"RG\1", "signature {!r}", data[:3])
    n = t.take(1)[0]
    total, = struct.unpack("=I", t.take(4))
    fields = []
    for _ in range(n):
        name = t.name()
        kind, null = t.take(2)
        need(kind < 3 and null < 2, "column {!r} is of kind {}, null {}", name, kind, null)
        size = t.vlv()
        if kind < 2:
            lo, hi = t.svlv(), t.svlv()
            fields.append(("I", name, lo, hi, bool(null)) if kind == 0 else ("F", name, lo, hi, size, bool(null)))
            need(size == width(fields[-1]), "column {} of {} bytes", fields[-1], size)
        else:
            fields.append(("S", name, size, bool(null)))
    rows = [[t.take(width(f)) for f in fields] for _ in range(total)]
    t.end()
    return fields, rows


def read_md(text):
    lines = text.split("\n")
    need(lines[-1] == "" and len(lines) % 2 == 0, "an index of {} lines", len(lines) - 1)
    n = int(lines[0])
    need(len(lines) == 2 * n + 2, "{} entities in an index of {} lines", n, len(lines) - 1)
    out = []
    for a, b in zip(lines[1::2], lines[2::2]):
        i, k = a.rsplit(" ", 1)
        lens = [int(x) for x in b.split()]
        need(len(lens) == int(k), "entity {!r} of {} segments has {}", i, k, len(lens))
        out.append((i, lens))
    need(text == write_md(out), "an index of numbers in another form: {!r}", text[:200])
    return out
