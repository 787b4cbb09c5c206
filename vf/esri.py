"""Independent reader and writer of shapefiles, from the ESRI white paper and
the dBASE III layout (oracle side: shares nothing with the code under test)."""
import struct

NULL, POINT, LINE, POLYGON, MULTIPOINT = 0, 1, 3, 5, 8
POINTS = (1, 11, 21)
MULTIPOINTS = (8, 18, 28)
PARTED = (3, 5, 13, 15, 23, 25, 31)
HAS_Z = (11, 13, 15, 18, 31)
HAS_M = (11, 13, 15, 18, 21, 23, 25, 28, 31)
TYPES = (1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31)


class Bad(Exception):
    """The file breaks the format."""


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg.format(*args))


def parse_header(data, what):
    need(len(data) >= 100, "{}: only {} bytes", what, len(data))
    code, *unused = struct.unpack(">6i", data[:24])
    need(code == 9994, "{}: file code {}", what, code)
    need(not any(unused), "{}: unused words {}", what, unused)
    length, = struct.unpack(">i", data[24:28])
    version, kind = struct.unpack("<2i", data[28:36])
    need(version == 1000, "{}: version {}", what, version)
    need(kind == 0 or kind in TYPES, "{}: shape type {}", what, kind)
    need(length * 2 == len(data), "{}: header says {} bytes, the file has {}", what, length * 2, len(data))
    return kind, struct.unpack("<8d", data[36:100])


def parse_shape(content, kind, what):
    s = {"type": struct.unpack("<i", content[:4])[0], "points": [], "parts": None,
         "z": None, "m": None, "partTypes": None, "bbox": None, "zrange": None, "mrange": None}
    t = s["type"]
    need(t == 0 or t == kind, "{}: type {} in a file of type {}", what, t, kind)
    off = 4

    def take(fmt):
        nonlocal off
        n = struct.calcsize(fmt)
        need(off + n <= len(content), "{}: record too short ({} bytes)", what, len(content))
        v = struct.unpack(fmt, content[off:off + n])
        off += n
        return list(v)
    if t == 0:
        pass
    elif t in POINTS:
        s["points"] = [tuple(take("<2d"))]
        if t == 11:
            s["z"] = take("<d")
        if t in (11, 21) and off < len(content):
            s["m"] = take("<d")
    else:
        s["bbox"] = take("<4d")
        if t in PARTED:
            nparts, n = take("<2i")
            s["parts"] = take("<%di" % nparts)
            if t == 31:
                s["partTypes"] = take("<%di" % nparts)
            need(not nparts or s["parts"][0] == 0, "{}: first part starts at {}", what, s["parts"][:1])
            need(all(a < b for a, b in zip(s["parts"], s["parts"][1:] + [n])), "{}: parts {} of {} points", what, s["parts"], n)
        else:
            n, = take("<i")
        xy = take("<%dd" % (2 * n))
        s["points"] = list(zip(xy[::2], xy[1::2]))
        if t in HAS_Z:
            s["zrange"] = take("<2d")
            s["z"] = take("<%dd" % n)
        if t in HAS_M and off < len(content):
            s["mrange"] = take("<2d")
            s["m"] = take("<%dd" % n)
        if n:
            xs, ys = zip(*s["points"])
            need(s["bbox"] == [min(xs), min(ys), max(xs), max(ys)], "{}: box {} of points {}", what, s["bbox"], s["points"][:5])
            if s["z"]:
                need(s["zrange"] == [min(s["z"]), max(s["z"])], "{}: z range {} of {}", what, s["zrange"], s["z"][:9])
            ms = real_measures(s["m"])
            if ms:
                need(s["mrange"] == [min(ms), max(ms)], "{}: m range {} of {}", what, s["mrange"], s["m"][:9])
    need(off == len(content), "{}: {} bytes left over", what, len(content) - off)
    return s


def real_measures(ms):
    """Those that are values; none if one of them may be a value or not."""
    ms = ms or []
    return [] if -1e38 in ms else [v for v in ms if v > -1e38]


def parse_shp(data):
    kind, box = parse_header(data, "shp")
    off, shapes, index = 100, [], []
    while off < len(data):
        need(off + 8 <= len(data), "shp: {} stray bytes", len(data) - off)
        num, words = struct.unpack(">2i", data[off:off + 8])
        need(num == len(shapes) + 1, "shp: record number {} instead of {}", num, len(shapes) + 1)
        content = data[off + 8:off + 8 + 2 * words]
        need(len(content) == 2 * words, "shp: record {} runs over the end", num)
        index.append((off // 2, words))
        shapes.append(parse_shape(content, kind, "shp record %d" % num))
        off += 8 + 2 * words
    pts = [p for s in shapes for p in s["points"]]
    if pts:
        xs, ys = zip(*pts)
        need(list(box[:4]) == [min(xs), min(ys), max(xs), max(ys)], "shp: file box {}", box[:4])
        zs = [z for s in shapes for z in s["z"] or ()]
        if kind not in HAS_Z:
            need(box[4] == box[5] == 0, "shp: z range {} of type {}", box[4:6], kind)
        elif zs:
            need([box[4], box[5]] == [min(zs), max(zs)], "shp: z range {} instead of {}", box[4:6], (min(zs), max(zs)))
        ms = real_measures([m for s in shapes for m in s["m"] or ()])
        if kind not in HAS_M:
            need(box[6] == box[7] == 0, "shp: m range {} of type {}", box[6:8], kind)
        elif ms:
            need([box[6], box[7]] == [min(ms), max(ms)], "shp: m range {} instead of {}", box[6:8], (min(ms), max(ms)))
    return kind, box, shapes, index


def parse_shx(data):
    kind, box = parse_header(data, "shx")
    need((len(data) - 100) % 8 == 0, "shx: {} bytes", len(data))
    return kind, box, [struct.unpack(">2i", data[i:i + 8]) for i in range(100, len(data), 8)]


def parse_dbf(data):
    need(len(data) >= 33, "dbf: only {} bytes", len(data))
    ver, yy, mm, dd, n, hlen, rlen = struct.unpack("<4BLHH", data[:12])
    need(ver & 7 == 3, "dbf: version {}", ver)
    need(1 <= mm <= 12 and 1 <= dd <= 31, "dbf: date {}", (yy, mm, dd))
    nf = (hlen - 33) // 32
    need(hlen == 33 + 32 * nf, "dbf: header length {}", hlen)
    need(len(data) >= hlen and data[hlen - 1:hlen] == b"\r", "dbf: no terminator at {}", hlen)
    fields = []
    for i in range(nf):
        d = data[32 + 32 * i:64 + 32 * i]
        name = d[:11].split(b"\0")[0]
        need(d[:11].rstrip(b"\0") == name, "dbf: field name {!r}", d[:11])
        fields.append((name, chr(d[11]), d[16], d[17]))
    need(rlen == 1 + sum(f[2] for f in fields), "dbf: record length {} for fields {}", rlen, fields)
    body = data[hlen:]
    need(len(body) in (n * rlen, n * rlen + 1), "dbf: {} bytes for {} records of {}", len(body), n, rlen)
    need(len(body) == n * rlen or body[-1:] == b"\x1a", "dbf: stray byte at the end")
    recs = []
    for i in range(n):
        r = body[i * rlen:(i + 1) * rlen]
        need(r[:1] in b" *", "dbf: deletion flag {!r} in record {}", r[:1], i)
        vals, off = [], 1
        for f in fields:
            vals.append(r[off:off + f[2]])
            off += f[2]
        recs.append((r[:1] == b"*", vals))
    return (yy + 1900, mm, dd), fields, recs


# ---- writing (files from another program) ----

def box_of(pts):
    if not pts:
        return (0.0, 0.0, 0.0, 0.0)
    xs, ys = zip(*pts)
    return (min(xs), min(ys), max(xs), max(ys))


def shape_bytes(t, s):
    """s: dict points, parts, z, m (None: left out), partTypes; None for null."""
    if s is None:
        return struct.pack("<i", 0)
    out = struct.pack("<i", t)
    pts = s["points"]
    if t in POINTS:
        out += struct.pack("<2d", *pts[0])
        if t == 11:
            out += struct.pack("<d", s["z"][0])
        if t in (11, 21) and s["m"] is not None:
            out += struct.pack("<d", s["m"][0])
        return out
    out += struct.pack("<4d", *box_of(pts))
    if t in PARTED:
        out += struct.pack("<2i", len(s["parts"]), len(pts))
        out += struct.pack("<%di" % len(s["parts"]), *s["parts"])
        if t == 31:
            out += struct.pack("<%di" % len(s["parts"]), *s["partTypes"])
    else:
        out += struct.pack("<i", len(pts))
    out += b"".join(struct.pack("<2d", *p) for p in pts)
    if t in HAS_Z:
        out += struct.pack("<2d", min(s["z"], default=0), max(s["z"], default=0))
        out += struct.pack("<%dd" % len(pts), *s["z"])
    if t in HAS_M and s["m"] is not None:
        ok = [v for v in s["m"] if v > -1e38] or [0]
        out += struct.pack("<2d", min(ok), max(ok))
        out += struct.pack("<%dd" % len(pts), *s["m"])
    return out


def build_shp(t, shapes, pad=(), wrong_length=0):
    """-> (shp bytes, shx bytes).  pad[i]: extra words after the i-th shape."""
    body, index = bytearray(), []
    for i, s in enumerate(shapes):
        c = shape_bytes(t, s)
        if i < len(pad):
            c += b"\0\0" * pad[i]
        index.append(((100 + len(body)) // 2, len(c) // 2))
        body += struct.pack(">2i", i + 1, len(c) // 2) + c
    pts = [p for s in shapes if s for p in s["points"]]
    zs = [z for s in shapes if s and t in HAS_Z for z in s["z"]]
    ms = [m for s in shapes if s and t in HAS_M and s["m"] for m in s["m"] if m > -1e38]

    def header(size):
        return (struct.pack(">6i", 9994, 0, 0, 0, 0, 0) + struct.pack(">i", size // 2) +
                struct.pack("<2i", 1000, t) + struct.pack("<4d", *box_of(pts)) +
                struct.pack("<4d", min(zs, default=0), max(zs, default=0), min(ms, default=0), max(ms, default=0)))
    shp = header(100 + len(body) + wrong_length) + bytes(body)
    shx = header(100 + 8 * len(shapes)) + b"".join(struct.pack(">2i", *i) for i in index)
    return shp, shx


def build_dbf(fields, rows, deleted=(), eof=True, date=(124, 2, 29)):
    """fields: (name bytes, letter, size, dec); rows: lists of bytes values."""
    out = struct.pack("<4BLHH20x", 3, *date, len(rows), 33 + 32 * len(fields),
                      1 + sum(f[2] for f in fields))
    for name, letter, size, dec in fields:
        out += struct.pack("<11sc4xBB14x", name, letter.encode(), size, dec)
    out, deleted = bytearray(out + b"\r"), set(deleted)
    for i, row in enumerate(rows):
        out += b"*" if i in deleted else b" "
        for (name, letter, size, dec), v in zip(fields, row):
            v = v.rjust(size) if letter in "NF" else v.ljust(size)
            assert len(v) == size, (v, size)
            out += v
    return bytes(out) + (b"\x1a" if eof else b"")
