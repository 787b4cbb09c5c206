"""A small PostScript interpreter: enough of the language to run what a map
page is made of, recording every painting operation (oracle side)."""
import re


class PSError(Exception):
    pass


class Name(str):
    pass


class Mark:
    pass


TOKEN = re.compile(r"\s*(?:%[^\n]*\n?)?")


def tokenize(src):
    """-> list of tokens: numbers, Name (executable), ('lit', name), bytes
    strings, nested lists ('proc', [...])."""
    pos, n = 0, len(src)
    stack = [[]]
    while pos < n:
        c = src[pos]
        if c.isspace():
            pos += 1
        elif c == "%":
            while pos < n and src[pos] not in "\r\n":
                pos += 1
        elif c == "(":
            s, pos = string(src, pos)
            stack[-1].append(("str", s))
        elif src.startswith("<<", pos) or src.startswith(">>", pos):
            raise PSError("dictionaries are not for this interpreter")
        elif c == "<":
            end = src.find(">", pos)
            if end < 0:
                raise PSError("hex string without end")
            body = "".join(src[pos + 1:end].split())
            if len(body) % 2:
                body += "0"
            try:
                stack[-1].append(("str", bytes.fromhex(body)))
            except ValueError:
                raise PSError("bad hex string")
            pos = end + 1
        elif c in "{":
            stack.append([])
            pos += 1
        elif c == "}":
            if len(stack) < 2:
                raise PSError("unmatched }")
            p = stack.pop()
            stack[-1].append(("proc", p))
            pos += 1
        elif c in "[]":
            stack[-1].append(Name(c))
            pos += 1
        elif c in ")>":
            raise PSError("unmatched " + c)
        else:
            e = pos + (c == "/")
            while e < n and not src[e].isspace() and src[e] not in "()<>[]{}/%":
                e += 1
            w = src[pos:e]
            pos = e
            if w[0] == "/":
                stack[-1].append(("lit", w[1:]))
            else:
                stack[-1].append(number(w))
    if len(stack) != 1:
        raise PSError("unmatched {")
    return stack[0]


NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


def number(w):
    if NUMBER.match(w):
        return float(w)
    return Name(w)


def string(src, pos):
    out, depth, n = [], 1, len(src)
    pos += 1
    while True:
        if pos >= n:
            raise PSError("string without end")
        c = src[pos]
        pos += 1
        if c == "\\":
            d = src[pos:pos + 1]
            pos += 1
            if d in "nrtbf" and d:
                out.append({"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}[d])
            elif d in "01234567" and d:
                o = d
                while len(o) < 3 and src[pos:pos + 1] in "01234567" and src[pos:pos + 1]:
                    o += src[pos]
                    pos += 1
                out.append(chr(int(o, 8) & 255))
            elif d == "\n":
                pass
            else:
                out.append(d)
            continue
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if not depth:
                return "".join(out), pos
        out.append(c)


def char_width(ch):
    """The made-up width of a character, in units of the font size."""
    return 0.3 + (ord(ch) % 13) / 20.0


ASCENT, DESCENT, BEARING = 0.7, -0.2, 0.05


class Graphics:
    def __init__(self):
        self.ctm = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
        self.path = []
        self.point = None
        self.start = None
        self.ink = (0.0, 0.0, 0.0)
        self.width = 1.0
        self.dash = ((), 0.0)
        self.font = None
        self.join = 0

    def copy(self):
        g = Graphics()
        g.__dict__.update(self.__dict__)
        g.path = list(self.path)
        return g


class Interpreter:
    def __init__(self):
        self.stack = []
        self.names = {}
        self.g = Graphics()
        self.saved = []
        self.events = []

    def run(self, src):
        self.execute(tokenize(src))

    def execute(self, toks):
        for t in toks:
            if isinstance(t, float):
                self.stack.append(t)
            elif isinstance(t, Name):
                self.call(t)
            elif t[0] == "proc":
                self.stack.append(t)
            else:
                self.stack.append(t)

    def call(self, name):
        if name in self.names:
            v = self.names[name]
            if isinstance(v, tuple) and v[0] == "proc":
                self.execute(v[1])
            else:
                self.stack.append(v)
            return
        f = getattr(self, "op_" + {"[": "mark", "]": "endarray"}.get(name, name), None)
        if f is None:
            raise PSError("undefined: %s" % name)
        f()

    def pop(self, kind=None):
        if not self.stack:
            raise PSError("stack underflow")
        v = self.stack.pop()
        if kind == "num" and not isinstance(v, float):
            raise PSError("number expected, got %r" % (v,))
        if kind in ("proc", "str", "lit", "arr") and not (isinstance(v, tuple) and v[0] == kind):
            raise PSError("%s expected, got %r" % (kind, v))
        return v if kind in (None, "num") else v[1]

    def nums(self, n):
        v = [self.pop("num") for _ in range(n)]
        return v[::-1]

    # stack and arithmetic
    def op_pop(self):
        self.pop()

    def op_dup(self):
        v = self.pop()
        self.stack += [v, v]

    def op_exch(self):
        a, b = self.pop(), self.pop()
        self.stack += [a, b]

    def op_roll(self):
        n, j = self.nums(2)
        n, j = int(n), int(j)
        if n > len(self.stack) or n < 0:
            raise PSError("stack underflow in roll")
        if n:
            top = self.stack[-n:]
            j %= n
            self.stack[-n:] = top[-j:] + top[:-j] if j else top

    def op_add(self):
        a, b = self.nums(2)
        self.stack.append(a + b)

    def op_sub(self):
        a, b = self.nums(2)
        self.stack.append(a - b)

    def op_mul(self):
        a, b = self.nums(2)
        self.stack.append(a * b)

    def op_div(self):
        a, b = self.nums(2)
        if b == 0:
            raise PSError("division by zero")
        self.stack.append(a / b)

    def op_neg(self):
        self.stack.append(-self.pop("num"))

    def op_def(self):
        v = self.pop()
        self.names[self.pop("lit")] = v

    def op_bind(self):
        v = self.pop("proc")
        self.stack.append(("proc", v))

    def op_repeat(self):
        p = self.pop("proc")
        for _ in range(int(self.pop("num"))):
            self.execute(p)

    def op_mark(self):
        self.stack.append(Mark())

    def op_endarray(self):
        out = []
        while True:
            v = self.pop()
            if isinstance(v, Mark):
                break
            out.append(v)
        self.stack.append(("arr", out[::-1]))

    def op_false(self):
        self.stack.append(False)

    def op_true(self):
        self.stack.append(True)

    # graphics state
    def op_gsave(self):
        self.saved.append(self.g.copy())

    def op_grestore(self):
        if not self.saved:
            raise PSError("grestore without gsave")
        self.g = self.saved.pop()

    def op_setlinewidth(self):
        self.g.width, = self.nums(1)

    def op_setlinejoin(self):
        self.g.join, = self.nums(1)

    def op_setgray(self):
        v, = self.nums(1)
        self.g.ink = (v, v, v)

    def op_setrgbcolor(self):
        self.g.ink = tuple(self.nums(3))

    def op_setdash(self):
        off, = self.nums(1)
        arr = self.pop("arr")
        if any(not isinstance(v, float) or v < 0 for v in arr) or arr and not any(arr):
            raise PSError("bad dash %r" % (arr,))
        self.g.dash = (tuple(arr), off)

    def op_translate(self):
        x, y = self.nums(2)
        a, b, c, d, e, f = self.g.ctm
        self.g.ctm = (a, b, c, d, a * x + c * y + e, b * x + d * y + f)

    def op_scale(self):
        x, y = self.nums(2)
        a, b, c, d, e, f = self.g.ctm
        self.g.ctm = (a * x, b * x, c * y, d * y, e, f)

    # paths
    def dev(self, x, y):
        a, b, c, d, e, f = self.g.ctm
        return (a * x + c * y + e, b * x + d * y + f)

    def op_newpath(self):
        self.g.path, self.g.point = [], None

    def op_moveto(self):
        x, y = self.nums(2)
        self.g.point = self.g.start = (x, y)
        self.g.path.append(("M", self.dev(x, y)))

    def need(self):
        if self.g.point is None:
            raise PSError("no current point")

    def op_lineto(self):
        self.need()
        x, y = self.nums(2)
        self.g.point = (x, y)
        self.g.path.append(("L", self.dev(x, y)))

    def op_rmoveto(self):
        self.need()
        x, y = self.nums(2)
        x, y = self.g.point[0] + x, self.g.point[1] + y
        self.g.point = self.g.start = (x, y)
        self.g.path.append(("M", self.dev(x, y)))

    def op_rlineto(self):
        self.need()
        x, y = self.nums(2)
        x, y = self.g.point[0] + x, self.g.point[1] + y
        self.g.point = (x, y)
        self.g.path.append(("L", self.dev(x, y)))

    def op_closepath(self):
        if self.g.path and self.g.path[-1] != ("Z",):
            self.g.path.append(("Z",))
            self.g.point = self.g.start

    def op_arc(self):
        x, y, r, a, b = self.nums(5)
        if self.g.point is not None:
            self.g.path.append(("to arc",))
        self.g.point = (x + r, y)
        if self.g.start is None or not self.g.path:
            self.g.start = self.g.point
        k = self.g.ctm[0]
        self.g.path.append(("arc", self.dev(x, y), r * k, a, b))

    def op_arcto(self):
        self.op_arct()
        self.stack += [0.0] * 4

    def op_arct(self):
        self.need()
        x1, y1, x2, y2, r = self.nums(5)
        self.g.path.append(("corner", self.dev(x1, y1), self.dev(x2, y2), r * self.g.ctm[0]))
        self.g.point = (x1, y1)

    # painting
    def paint(self, kind):
        g = self.g
        self.events.append({"op": kind, "path": tuple(g.path), "ink": g.ink, "width": g.width * abs(g.ctm[0]),
                            "dash": (tuple(v * abs(g.ctm[0]) for v in g.dash[0]), g.dash[1] * abs(g.ctm[0])),
                            "join": g.join})
        self.op_newpath()

    def op_fill(self):
        self.paint("fill")

    def op_stroke(self):
        self.paint("stroke")

    def op_findfont(self):
        self.stack.append(("font", (self.pop("lit"), 1.0)))

    def op_scalefont(self):
        s, = self.nums(1)
        name, z = self.pop("font") if False else self.pop()[1]
        self.stack.append(("font", (name, z * s)))

    def op_setfont(self):
        self.g.font = self.pop()[1]

    def text_box(self, s):
        name, z = self.g.font
        w = sum(map(char_width, s)) * z
        return BEARING * z, DESCENT * z, w, ASCENT * z

    def op_charpath(self):
        self.need()
        self.pop()
        s = self.pop("str")
        x, y = self.g.point
        a, b, c, d = self.text_box(s)
        self.g.path += [("M", self.dev(x + a, y + b)), ("L", self.dev(x + c, y + d))]
        self.g.boxed = (x + a, y + b, x + c, y + d)

    def op_flattenpath(self):
        pass

    def op_pathbbox(self):
        if not hasattr(self.g, "boxed"):
            raise PSError("pathbbox of another path")
        self.stack += list(self.g.boxed)

    def op_show(self):
        self.need()
        s = self.pop("str")
        if self.g.font is None:
            raise PSError("no font")
        name, z = self.g.font
        x, y = self.g.point
        self.events.append({"op": "show", "text": s, "font": name, "size": z * self.g.ctm[0],
                            "at": self.dev(x, y), "ink": self.g.ink})
        self.g.point = (x + sum(map(char_width, s)) * z, y)

    def raster(self, ncomp):
        proc = self.pop("proc")
        m = self.pop("arr")
        w, h, bits = self.nums(3)
        if bits != 8 or len(m) != 6:
            raise PSError("image of %r bits, matrix %r" % (bits, m))
        need = int(w * h * ncomp)
        data = b""
        while len(data) < need:
            n = len(self.stack)
            self.execute(proc)
            s = self.pop("str")
            if len(self.stack) != n:
                raise PSError("image data procedure litters the stack")
            if isinstance(s, str):
                s = s.encode("latin1")
            if not s:
                raise PSError("image without data")
            data += s
        self.events.append({"op": "image", "size": (int(w), int(h)), "data": data[:need], "comp": ncomp,
                            "matrix": tuple(m), "ctm": self.g.ctm})

    def op_image(self):
        self.raster(1)

    def op_colorimage(self):
        n = int(self.pop("num"))
        if self.pop() is not False:
            raise PSError("several data sources")
        self.raster(n)


def run(src):
    """Interpret a whole file; -> (events, bounding box of the header)."""
    if not src.startswith("%!PS"):
        raise PSError("not a PostScript file")
    box = None
    for line in src.split("\n"):
        if line.startswith("%%BoundingBox:"):
            if box is not None:
                raise PSError("two boxes")
            box = tuple(float(v) for v in line.split(":")[1].split())
    if box is None or len(box) != 4:
        raise PSError("no bounding box")
    ip = Interpreter()
    ip.run(src)
    if ip.stack:
        raise PSError("%d things are left on the stack" % len(ip.stack))
    if ip.saved:
        raise PSError("gsave without grestore")
    return ip.events, box
