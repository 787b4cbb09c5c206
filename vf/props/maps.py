"""Map projections."""
import math

from vf import sphere
from vf.core import Check, Violation, Skip, expect, close, raises
from coral import proj

MEAN = (6378137.0 + 6356752.314245179) / 2
FLAT = 1 / 298.257223563
WGS84ALL = (6378137.0, 6378137.0 * (1 - FLAT), math.sqrt(FLAT * (2 - FLAT)), FLAT)
ELL = {"WGS84": (6378137.0, 1 / 298.257223563), "GRS80": (6378137.0, 1 / 298.257222101)}
SPHERICAL = ["Mercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic",
             "AzimuthalEquidistant", "AzimuthalEqualArea"]
ALL = SPHERICAL + ["EMercator", "ConicEqualArea"]
AZIMUTHAL = ("Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea")


def draw_proj(r, names=ALL):
    k = r.choice(names)
    d = {"k": k, "radius": r.choice((None, None, 1, 1000.0, 6371000, r.uniform(0.5, 1e7)))}
    if k == "ConicEqualArea":
        while True:
            p = (r.lat(80), r.lat(80))
            if r.chance(0.15):
                p = (p[0], p[0])
            if abs(math.sin(math.radians(p[0])) + math.sin(math.radians(p[1]))) / 2 > 0.05:
                break
        d["origin"] = p
    else:
        d["origin"] = None if r.chance(0.15) else (r.lon(), r.lat(90))
        if k in AZIMUTHAL and r.chance(0.15):
            d["origin"] = (r.lon(), r.choice((90, -90)))
        elif r.chance(0.1):
            # a hair beside a pole
            d["origin"] = (r.lon(), r.choice((1, -1)) * (90 - 10 ** r.uniform(-10, -2)))
    if k == "EMercator":
        d["radius"] = None
        d["ell"] = r.choice((None, "WGS84", "GRS80", (r.uniform(1, 7e6), 1 / 10 ** r.uniform(0.2, 3))))
    d["pos"] = r.chance(0.3)
    return d


def build(d):
    """The projection, with another one of its class made and used after it."""
    p = create(d)
    q = create(dict(d, origin=(17, 38), radius=None, ell=None, pos=False))
    q.rect2geo(*q.geo2rect(11, 33))
    return p


def create(d):
    cls = getattr(proj, d["k"])
    if d["k"] == "ConicEqualArea":
        kw = {"parallels": d["origin"]}
    else:
        kw = {} if d["origin"] is None else {"origin": d["origin"]}
    if d["k"] == "EMercator":
        e = d["ell"]
        if isinstance(e, str):
            kw["ellipsoid"] = getattr(proj, e)
        elif e is not None:
            a, f = e
            kw["ellipsoid"] = proj.Ellipsoid(a, a * (1 - f), math.sqrt(2 * f - f * f), f)
    elif d["radius"] is not None:
        kw["radius"] = d["radius"]
    if d["pos"]:
        first = d["origin"]
        rest = kw.get("ellipsoid", kw.get("radius"))
        return cls(first, rest) if rest is not None else cls(first)
    return cls(**kw)


def radius(d):
    if d["k"] == "EMercator":
        e = d["ell"]
        return ELL[e or "WGS84"][0] if not isinstance(e, tuple) else e[0]
    return MEAN if d["radius"] is None else d["radius"]


def eccentricity2(d):
    e = d["ell"]
    f = ELL[e or "WGS84"][1] if not isinstance(e, tuple) else e[1]
    return 2 * f - f * f


def origin(d):
    return d["origin"] or (0, 0)


def singular_distance(d, lon, lat):
    """Angle (rad) from the point to where the projection breaks down."""
    k = d["k"]
    v = sphere.vec(lon, lat)
    o = origin(d)
    if k in AZIMUTHAL:
        return math.pi - sphere.angle(v, sphere.vec(*o))
    if k in ("Mercator", "EMercator"):
        return math.radians(90 - abs(lat))
    if k == "TransMercator":
        q = sphere.vec(o[0] + 90, 0)
    elif k == "ObliqMercator":
        q = sphere.vec(o[0] - 90, o[1])
    else:
        return 9.0
    t = sphere.angle(v, q)
    return min(t, math.pi - t)


def conic_loss(d, lat):
    """Angle lost to rounding by the conic's arc sine of a difference of large numbers."""
    if d["k"] != "ConicEqualArea":
        return 0.0
    s1, s2 = (math.sin(math.radians(p)) for p in d["origin"])
    n = abs(s1 + s2) / 2
    delta = 32 * 2.3e-16 * (2 + s1 * s1 + 2 * n) / (2 * n)
    return min(math.sqrt(2 * delta), delta / max(1e-300, math.cos(math.radians(lat))))


def inverse_loss(d, lat, sd):
    """Angle lost to rounding by an inverse: to the arc sine near the poles and where the map ends."""
    t = 4e-6 if d["k"] == "EckertIV" else 1e-10
    return t + min(1e-7, 1e-13 / max(1e-300, math.cos(math.radians(lat)))) + min(1e-6, 1e-13 / max(1e-300, sd)) + conic_loss(d, lat)


def place(r, d):
    """A point, biased to the special places of the projection."""
    lon0, lat0 = origin(d)
    if d["k"] == "ConicEqualArea":
        lon0, lat0 = 0.0, r.choice(d["origin"])
    u = r.random()
    if u < 0.12:
        return sphere.offset(lon0, lat0, r.uniform(0, 360), 10 ** r.uniform(-12, -1))
    if u < 0.16:
        return (lon0, lat0)
    if u < 0.22:
        return (lon0, r.lat())
    if u < 0.28:
        return (r.lon(), lat0)
    if u < 0.34:
        x = lon0 + r.choice((90, -90, 180, -180)) + r.choice((0, 1e-6, -1e-6))
        return ((x + 180) % 360 - 180, r.lat())
    if u < 0.40:
        return sphere.offset(lon0, lat0, r.uniform(0, 360), math.pi - 10 ** r.uniform(-9 if r.chance(0.5) else -2.5, 0))
    if u < 0.44:
        return (r.lon(), 0.0)
    if u < 0.48:
        return (r.integer(-180, 180), r.integer(-89, 89))
    return (r.lon(), r.lat())


class RoundTrip(Check):
    id = "C08"
    files = ("coral/proj.py",)
    quick, thorough = 250000, 5000000
    rule = ("every projection with random origin (poles included), radius, ellipsoid or "
            "parallels and points over the whole globe biased to centre, poles, "
            "antimeridian and rim, kept 1e-5 rad (azimuthal: 1e-9) away from the places where the "
            "projection is not defined; non-trivial: all")
    required = tuple(ALL) + ("centre", "same again later")

    def gen(self, r):
        d = draw_proj(r)
        pts = [place(r, d) for _ in range(3)]
        if r.chance(0.3):
            # almost the same latitude or longitude as the point before
            lon, lat = pts[0]
            t = 10 ** r.uniform(-7, -2)
            pts[1] = (r.choice((lon, pts[1][0], lon + t if lon < 170 else lon - t)), lat - math.copysign(t, lat))
        return {"d": d, "pts": pts, "other": draw_proj(r)}

    def check(self, c, mon):
        d = c["d"]
        p = build(d)
        q = build(c["other"])
        rr = radius(d)
        first = []
        for lon, lat in c["pts"]:
            sd = singular_distance(d, lon, lat)
            if sd < (1e-9 if d["k"] in ("Mercator", "EMercator") + AZIMUTHAL else 1e-5):
                if not (d["k"] in ("Mercator", "EMercator") and lat == 90):
                    continue
            x, y = p.geo2rect(lon, lat)
            expect(math.isfinite(x) and math.isfinite(y), "{}: {} goes to {}", d, (lon, lat), (x, y))
            g = p.rect2geo(x, y)
            e = sphere.sep(g[0], g[1], lon, lat)
            tol = inverse_loss(d, lat, sd)
            if d["k"] in ("Mercator", "EMercator"):
                tol = 1e-10
            expect(e <= tol and -90 <= g[1] <= 90, "{}: {} goes to {} and comes back as {}, {} rad away",
                   d, (lon, lat), (x, y), g, e)
            expect(abs(g[0]) <= 540, "{}: longitude {}", d, g[0])
            mon.ev(d["k"])
            first.append(((lon, lat), (x, y), g))
            try:
                q.geo2rect(lon, lat)
            except Exception:
                pass
        if d["k"] in AZIMUTHAL:
            g = p.rect2geo(0, 0)
            e = sphere.sep(g[0], g[1], *origin(d))
            expect(e <= 1e-9, "{}: (0, 0) is {}", d, g)
            x, y = p.geo2rect(*origin(d))
            expect(math.hypot(x, y) <= 1e-7 * rr, "{}: the centre goes to {}", d, (x, y))
            mon.ev("centre")
        # a projection has no memory
        for (lon, lat), xy, g in first:
            expect(p.geo2rect(lon, lat) == xy and p.rect2geo(*xy) == g,
                   "{}: {} gives another result the second time", d, (lon, lat))
            mon.ev("same again later")


def partials(f, lon, lat, h=2e-3):
    """Derivatives of (x, y) per radian, fourth-order central differences."""
    H = math.degrees(h)

    def d(g):
        (ax, ay), (bx, by), (cx, cy), (ex, ey) = g(-2), g(-1), g(1), g(2)
        return ((ax - 8 * bx + 8 * cx - ex) / (12 * h), (ay - 8 * by + 8 * cy - ey) / (12 * h))
    return (d(lambda k: f(lon + k * H, lat)), d(lambda k: f(lon, lat + k * H)))


class Conformal(Check):
    id = "C09"
    files = ("coral/proj.py",)
    quick, thorough = 150000, 3000000
    rule = ("the five conformal projections (sphere and ellipsoid) with random "
            "parameters; derivatives of the map by finite differences at random points "
            "give the local angle and both local scales, compared with each other and "
            "with the reported scale factor; also the meridian scale of the conic; non-trivial: all")
    required = ("Mercator", "EMercator", "TransMercator", "ObliqMercator", "Stereographic",
                "scale factor", "conic meridian scale", "scale near the end of the map")

    def gen(self, r):
        d = draw_proj(r, ["Mercator", "EMercator", "TransMercator", "ObliqMercator",
                          "Stereographic", "ConicEqualArea"])
        return {"d": d, "pts": [place(r, d) for _ in range(3)]}

    def check(self, c, mon):
        d = c["d"]
        p = build(d)
        R = radius(d)
        for lon, lat in c["pts"]:
            sd = singular_distance(d, lon, lat)
            if d["k"] not in ("Stereographic", "ConicEqualArea") and sd > 1e-4:
                # the law of the family, also where it is too steep to be measured
                s = p.scale(lon, lat)
                want = 1 / math.sin(sd)
                if d["k"] == "EMercator":
                    want *= math.sqrt(1 - eccentricity2(d) * math.sin(math.radians(lat)) ** 2)
                expect(close(s, want, 1e-11 + 1e-13 / sd ** 2, 0), "{} at {}: scale is {} instead of {}", d, (lon, lat), s, want)
                mon.ev("scale near the end of the map", sd < 0.15)
            if abs(lat) > 82 or singular_distance(d, lon, lat) < 0.15:
                continue
            o = origin(d)
            if d["k"] in ("Mercator", "EMercator") and abs(abs(sphere.turn(lon, o[0])) - 180) < 1:
                continue        # the map is torn there
            if d["k"] in ("ObliqMercator",):
                x, y = p.geo2rect(lon, lat)
                if abs(x) > R * (math.pi - 0.1):
                    continue
            if d["k"] == "TransMercator":
                x, y = p.geo2rect(lon, lat)
                t = math.radians(sphere.turn(math.degrees(y / R + math.radians(o[1])), 0))
                if math.pi - abs(y / R) < 0.1 or math.pi - abs(t) < 0.1:
                    continue
            if d["k"] == "ConicEqualArea" and abs(abs(lon) - 180) < 1:
                continue
            (xl, yl), (xp, yp) = partials(p.geo2rect, lon, lat)
            t = math.radians(lat)
            if d["k"] == "EMercator":
                e2 = eccentricity2(d)
                w = 1 - e2 * math.sin(t) ** 2
                N, M = R / math.sqrt(w), R * (1 - e2) / w ** 1.5
            else:
                N = M = R
            ew = math.hypot(xl, yl) / (N * math.cos(t))      # scale along the parallel
            ns = math.hypot(xp, yp) / M                      # and along the meridian
            if d["k"] == "ConicEqualArea":
                s = p.scale(lon, lat)
                expect(close(s, ns, 1e-5, 1e-6), "{} at {}: scale is {}, measured {}", d, (lon, lat), s, ns)
                expect(close(s * ew, 1, 1e-5, 1e-6), "{} at {}: scales {} and {}", d, (lon, lat), s, ew)
                s1, s2, v = (math.sin(math.radians(u)) for u in o + (lat,))
                want = math.cos(math.radians(lat)) / math.sqrt(1 + s1 * s2 - (s1 + s2) * v)
                expect(close(s, want, 1e-10, 0), "{} at {}: scale is {} instead of {}", d, (lon, lat), s, want)
                mon.ev("conic meridian scale")
                continue
            tol = 2e-5
            expect(close(ew, ns, tol, 0), "{} at {}: scale {} along the parallel, {} along the meridian",
                   d, (lon, lat), ew, ns)
            cosang = (xl * xp + yl * yp) / (math.hypot(xl, yl) * math.hypot(xp, yp))
            expect(abs(cosang) < tol, "{} at {}: parallel and meridian cross at {} degrees", d, (lon, lat),
                   math.degrees(math.acos(max(-1, min(1, cosang)))))
            expect(xl * yp - yl * xp > 0, "{} at {}: the map is a mirror image", d, (lon, lat))
            mon.ev(d["k"])
            if d["k"] != "Stereographic":
                s = p.scale(lon, lat)
                expect(close(s, ns, tol, 0), "{} at {}: scale is {}, measured {}", d, (lon, lat), s, ns)
                mon.ev("scale factor")


class EqualArea(Check):
    id = "C10"
    files = ("coral/proj.py",)
    quick, thorough = 16000, 300000
    rule = ("graticule cells (0.01 to 40 degrees wide, any place) under the three "
            "equal-area projections with random parameters; the area inside the mapped "
            "outline against the area on the sphere, the local area ratio by finite differences, "
            "and whole lunes; non-trivial: all")
    required = ("EckertIV", "AzimuthalEqualArea", "ConicEqualArea", "orientation kept", "local area ratio", "lune")

    def gen(self, r):
        d = draw_proj(r, ["EckertIV", "AzimuthalEqualArea", "ConicEqualArea"])
        w = 10 ** r.uniform(-2, 1.6)
        h = 10 ** r.uniform(-2, 1.5)
        if d["k"] == "EckertIV":
            w, h = max(w, 3), max(h, 3)
        la = r.uniform(-90, 90 - h)
        lo = r.uniform(-180, 180 - w)
        if r.chance(0.1):
            la = r.choice((-90, 90 - h))
        return {"d": d, "cell": (lo, la, lo + w, la + h),
                "lune": (-r.uniform(0.1, 1), r.uniform(0.1, 1)) if r.chance(0.05) else None,
                "pts": [(r.lon(), r.lat(78)) for _ in range(8)]}

    def check(self, c, mon):
        d = c["d"]
        p = build(d)
        R = radius(d)
        x0, y0, x1, y1 = c["cell"]
        o = origin(d)
        for lon, lat in c["pts"]:
            if singular_distance(d, lon, lat) < 0.3:
                continue
            if d["k"] == "EckertIV":    # solves its equation to 1e-6 only, which shows in the slopes
                break
            (xa, ya), (xb, yb) = partials(p.geo2rect, lon, lat)
            got = (xa * yb - xb * ya) / (R * R * math.cos(math.radians(lat)))
            expect(abs(got - 1) < 2e-6, "{}: the map at {} has {} times the area on the sphere", d, (lon, lat), got)
            mon.ev("local area ratio")
        if d["k"] == "EckertIV" and c["lune"]:
            # a lune from pole to pole, both sides finely sampled
            a, b, n = c["lune"][0] * 179.9, c["lune"][1] * 179.9, 1200
            out = [p.geo2rect((sphere.turn(o[0] + e, 0) if abs(e) > 0 else o[0]), t)
                   for e, t in [(a, 90 - 180 * i / n) for i in range(n + 1)] + [(b, 180 * i / n - 90) for i in range(n + 1)]]
            got = sum(a * e - f * b for (a, b), (f, e) in zip(out, out[1:] + out[:1])) / 2 / (2 * R * R)
            want = math.radians(c["lune"][1] - c["lune"][0]) * 179.9
            expect(abs(got / want - 1) < 1.5e-5, "{}: the lune {}..{} has {} times its area on the sphere",
                   d, a, b, got / want)
            mon.ev("lune")
        if d["k"] == "EckertIV":
            a, b = sphere.turn(x0, o[0]), sphere.turn(x1, o[0])
            if not a < b or b - a > x1 - x0 + 1e-6 or abs(abs(a) - 180) < 1e-6 or abs(abs(b) - 180) < 1e-6:
                raise Skip
        n = 160 if d["k"] == "EckertIV" or x1 - x0 < 5 and y1 - y0 < 5 else 480
        out = []
        for (ax, ay), (bx, by) in zip([(x0, y0), (x1, y0), (x1, y1), (x0, y1)],
                                      [(x1, y0), (x1, y1), (x0, y1), (x0, y0)]):
            for i in range(n):
                t = i / n
                q = (ax + (bx - ax) * t, ay + (by - ay) * t)
                if singular_distance(d, *q) < 0.2:
                    raise Skip
                out.append(p.geo2rect(*q))
        ox, oy = out[0]
        out = [(x - ox, y - oy) for x, y in out]
        got = sum(a * e - f * b for (a, b), (f, e) in zip(out, out[1:] + out[:1])) / 2
        want = R * R * math.radians(x1 - x0) * (math.sin(math.radians(y1)) - math.sin(math.radians(y0)))
        # the antipode inside the cell turns the outline inside out
        if d["k"] == "AzimuthalEqualArea":
            an = ((o[0] + 360) % 360 - 180, -o[1])
            if y0 - 12 < an[1] < y1 + 12:
                raise Skip
        expect(close(got, want, 4e-4 if d["k"] == "EckertIV" else 1e-3, 1e-12 * R * R),
               "{}: the cell {} has area {} on the map, {} on the sphere", d, c["cell"], got, want)
        mon.ev(d["k"])
        mon.ev("orientation kept")


def psi(e, t):
    """Isometric latitude of the ellipsoid."""
    s = math.sin(t)
    return math.asinh(math.tan(t)) - e * math.atanh(e * s)


def reference(d, lon, lat):
    """The map position by the definition of the projection, through vectors."""
    k, R, o = d["k"], radius(d), origin(d)
    v = sphere.vec(lon, lat)
    dl = math.radians(sphere.turn(lon, o[0]))
    t = math.radians(lat)
    if k in AZIMUTHAL:
        u, e, n = sphere.frame(*o)
        c = sphere.angle(u, v)
        x, y = sphere.dot(e, v), sphere.dot(n, v)
        h = math.hypot(x, y)
        if h == 0:
            return 0.0, 0.0
        rho = {"Stereographic": 2 * math.tan(c / 2), "AzimuthalEquidistant": c,
               "AzimuthalEqualArea": 2 * math.sin(c / 2)}[k]
        return R * rho * x / h, R * rho * y / h
    if k == "Mercator":
        return R * dl, R * math.asinh(math.tan(t))
    if k == "EMercator":
        return R * dl, R * psi(math.sqrt(eccentricity2(d)), t)
    if k == "TransMercator":
        # axis through the point 90 degrees east on the equator
        ax = sphere.vec(o[0] + 90, 0)
        s = sphere.dot(ax, v)
        y = math.atan2(v[2], sphere.dot(sphere.vec(o[0], 0), v))
        return R * math.atanh(s), R * (y - math.radians(o[1]))
    if k == "ObliqMercator":
        # axis through (lon0 - 90, lat0); x runs along its equator from
        # (lon0, 0), positive towards the axis-wise counterclockwise side
        ax = sphere.vec(o[0] - 90, o[1])
        s = sphere.dot(ax, v)
        st = sphere.vec(o[0], 0)
        q = sphere.cross(ax, st)
        return (R * math.atan2(sphere.dot(q, v), sphere.dot(st, v)),
                R * math.atanh(s))
    if k == "EckertIV":
        # solve by bisection
        lo, hi = -math.pi / 2, math.pi / 2
        w = (2 + math.pi / 2) * math.sin(t)
        for _ in range(80):
            m = (lo + hi) / 2
            if m + math.sin(m) * math.cos(m) + 2 * math.sin(m) < w:
                lo = m
            else:
                hi = m
        m = (lo + hi) / 2
        return (2 / math.sqrt(math.pi * (4 + math.pi)) * R * dl * (1 + math.cos(m)),
                2 * math.sqrt(math.pi / (4 + math.pi)) * R * math.sin(m))
    # Albers: arcs about a common centre, true scale on both parallels,
    # the first parallel at y = 0 on the meridian of longitude 0.
    s1, s2 = (math.sin(math.radians(q)) for q in o)
    n = (s1 + s2) / 2
    rho = math.sqrt(max(0.0, 1 + s1 * s2 - 2 * n * math.sin(t))) / n
    rho0 = math.sqrt(1 + s1 * s2) / n
    th = n * math.radians(lon)
    return R * rho * math.sin(th), R * (rho0 - rho * math.cos(th))


class Definition(Check):
    id = "C11"
    files = ("coral/proj.py",)
    quick, thorough = 250000, 4000000
    rule = ("as for the round trip; the map position is compared with the one that "
            "follows from the definition of the projection, computed with vectors, "
            "bisection and isometric latitude; non-trivial: all")
    required = tuple(ALL) + ("inverse",)

    def gen(self, r):
        d = draw_proj(r)
        return {"d": d, "pts": [place(r, d) for _ in range(3)]}

    def check(self, c, mon):
        d = c["d"]
        p = build(d)
        R = radius(d)
        for lon, lat in c["pts"]:
            sd = singular_distance(d, lon, lat)
            if sd < 1e-3:
                continue
            if d["k"] == "EckertIV" and abs(lat) > 89.99:
                continue
            x, y = p.geo2rect(lon, lat)
            a, b = reference(d, lon, lat)
            tol = (5e-6 if d["k"] == "EckertIV" else 1e-11 / min(1, sd)) * max(1, math.hypot(a, b) / R)
            dx, dy = (x - a) / R, (y - b) / R
            # both sides of the tear are right, exactly on it
            o = origin(d)
            if d["k"] in ("Mercator", "EMercator", "EckertIV") and abs(abs(sphere.turn(lon, o[0])) - 180) < 1e-6:
                dx = (abs(x) - abs(a)) / R
            if d["k"] == "ObliqMercator":
                dx = math.remainder(dx, 2 * math.pi)
            if d["k"] == "TransMercator":
                dy = math.remainder(dy, 2 * math.pi)
            expect(math.hypot(dx, dy) <= tol, "{}: {} goes to {}, by definition {}", d, (lon, lat), (x, y), (a, b))
            mon.ev(d["k"])
            if d["k"] != "EckertIV" or abs(lat) < 85:
                g = p.rect2geo(a, b)
                e = sphere.sep(g[0], g[1], lon, lat)
                lost = inverse_loss(dict(d, k="") if d["k"] == "EckertIV" else d, lat, sd)
                expect(e <= lost, "{}: {} comes from {}, by definition {}",
                       d, (a, b), g, (lon, lat))
                mon.ev("inverse")


class Refusals(Check):
    id = "C12"
    files = ("coral/proj.py",)
    quick, thorough = 150000, 2000000
    rule = ("points without an image (south pole under both Mercators, the two side "
            "points of the transverse Mercator, the two axis points of the oblique one, the antipode of azimuthal ones), scale requests of projections that have none, default and keyword or positional "
            "parameters, longitudes several turns away; non-trivial: all")
    required = ("refused", "on the rim", "far out", "no scale", "full turns", "defaults")

    def gen(self, r):
        d = draw_proj(r)
        return {"d": d, "lon": r.lon(), "lat": r.lat(80), "turns": r.choice((-3, -2, -1, 1, 2, 3, 3, -2, 40, -70)),
                "deg": r.integer(-180, 180), "deg2": r.integer(-90, 90), "whole": r.chance(0.5)}

    def check(self, c, mon):
        d, lon, lat = c["d"], c["lon"], c["lat"]
        p = build(d)
        R = radius(d)
        k = d["k"]
        o = origin(d)
        if k in ("Mercator", "EMercator"):
            for bad in (-90, -90.0):
                raises(proj.ProjectionError, p.geo2rect, lon, bad)
            mon.ev("refused")
        if k == "TransMercator":
            q = build(dict(d, origin=(0, o[1])))
            for bad in (90, -90):
                raises(proj.ProjectionError, q.geo2rect, bad, 0)
            q = build(dict(d, origin=(c["deg"], o[1])))
            for bad in (c["deg"] + 90, c["deg"] - 90):
                # either refused or, if rounding leaves it representable, far out
                try:
                    x, y = q.geo2rect(bad, 0)
                except proj.ProjectionError:
                    mon.ev("refused")
                else:
                    expect(abs(x) > 16 * R, "{}: the side point goes to {}", d, (x, y))
        if k in AZIMUTHAL + ("ObliqMercator",):
            t = (c["deg"], c["deg2"]) if c["whole"] else o
            q = build(dict(d, origin=t))
            bad = [(t[0] + 180, -t[1])] if k in AZIMUTHAL else [(t[0] - 90, t[1]), (t[0] + 90, -t[1])]
            for b in bad:
                # refused or, if rounding leaves it representable, far out or on the rim
                try:
                    x, y = q.geo2rect(*b)
                except proj.ProjectionError:
                    mon.ev("refused")
                    continue
                far = (abs(y) > 16 * R if k == "ObliqMercator" else
                       math.hypot(x, y) > 1e7 * R if k == "Stereographic" else
                       close(math.hypot(x, y), R * (math.pi if k == "AzimuthalEquidistant" else 2), 1e-7, 0))
                expect(far, "{} at {}: the point {} goes to {}", d, t, b, (x, y))
                mon.ev("on the rim" if k in AZIMUTHAL else "far out")
                if k in AZIMUTHAL:
                    g = q.rect2geo(x, y)
                    expect(sphere.sep(g[0], g[1], *b) < 1e-6, "{} at {}: {} goes to {} and comes back as {}",
                           d, t, b, (x, y), g)
        if k in ("EckertIV",) + AZIMUTHAL:
            raises(NotImplementedError, p.scale, lon, lat)
            mon.ev("no scale")
        else:
            if singular_distance(d, lon, lat) > 1e-2:
                s = p.scale(lon, lat)
                expect(math.isfinite(s) and s > 0, "{}: scale {} at {}", d, s, (lon, lat))
        # full turns of longitude do not move the image
        if k != "ConicEqualArea" and singular_distance(d, lon, lat) > 1e-2 \
                and abs(abs(sphere.turn(lon, o[0])) - 180) > 1e-3:
            a = p.geo2rect(lon, lat)
            b = p.geo2rect(lon + 360 * c["turns"], lat)
            dx, dy = (a[0] - b[0]) / R, (a[1] - b[1]) / R
            if k == "ObliqMercator":
                dx = math.remainder(dx, 2 * math.pi)
            if k == "TransMercator":
                dy = math.remainder(dy, 2 * math.pi)
            tol = 3e-14 * (1 + abs(c["turns"])) / min(1, singular_distance(d, lon, lat)) ** 2
            expect(math.hypot(dx, dy) <= tol, "{}: {} and the same point {} turns away go to {} and {}",
                   d, (lon, lat), c["turns"], a, b)
            mon.ev("full turns")
        # defaults: centred on (0, 0), mean radius or WGS84
        if k != "ConicEqualArea":
            cls = getattr(proj, k)
            z = dict(d, origin=(0, 0), radius=None, ell="WGS84")
            if singular_distance(z, lon, lat) > 1e-2:
                g = cls().geo2rect(lon, lat)
                w = reference(z, lon, lat)
                dx, dy = g[0] - w[0], g[1] - w[1]
                if k == "ObliqMercator":
                    dx = math.remainder(dx, 2 * math.pi * MEAN)
                if k == "TransMercator":
                    dy = math.remainder(dy, 2 * math.pi * MEAN)
                h = cls((0, 0), proj.Ellipsoid(*WGS84ALL)).geo2rect(lon, lat) if k == "EMercator" else cls((0, 0), MEAN).geo2rect(lon, lat)
                expect(math.hypot(g[0] - h[0], g[1] - h[1]) < 1e-13 * (6.4e6 + abs(h[0]) + abs(h[1])),
                       "{}() sends {} to {}, with its defaults given to {}", k, (lon, lat), g, h)
                expect(math.hypot(dx, dy) < 1e-5 * 6.4e6 * max(1, abs(w[0]) / 1e7, abs(w[1]) / 1e7)
                       or abs(abs(lon) - 180) < 1e-3 or abs(abs(lon) - 90) < 1e-3,
                       "{}() sends {} to {} instead of {}", k, (lon, lat), g, w)
                mon.ev("defaults")
