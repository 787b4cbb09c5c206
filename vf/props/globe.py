"""Spherical navigation and centroids."""
import math

from vf import sphere
from vf.core import Check, Gen, Violation, Skip, expect, close
from coral import coord, proj, bbox


def pair(r):
    a = (r.lon(), r.lat())
    u = r.random()
    if u < 0.12:            # close together
        b = sphere.offset(a[0], a[1], r.uniform(-180, 180), 10 ** r.uniform(-10, -2))
    elif u < 0.24:          # nearly opposite
        b = sphere.offset(a[0], a[1], r.uniform(-180, 180), math.pi - 10 ** r.uniform(-6, -1))
    elif u < 0.32:          # same meridian or parallel
        b = (a[0], r.lat()) if r.chance(0.5) else (r.lon(), a[1])
    elif u < 0.38:          # other side of the antimeridian
        a = (180 - r.uniform(0, 20), a[1])
        b = (-180 + r.uniform(0, 20), r.lat())
    elif u < 0.41:
        b = a
    elif u < 0.44:
        b = ((a[0] + 180) if a[0] <= 0 else (a[0] - 180), -a[1])
    else:
        b = (r.lon(), r.lat())
    if r.chance(0.15):
        a, b = (float(round(a[0])), float(round(a[1]))), (float(round(b[0])), float(round(b[1])))
    return a, b


class Navigation(Check):
    id = "C03"
    files = ("coral/coord.py", "coral/proj.py")
    quick, thorough = 200000, 4000000
    rule = ("pairs of points over the whole globe (close, equal, antipodal, across "
            "the antimeridian, on poles), bearings and distances of up to several "
            "turns, longitudes a turn away; oracle: vectors in three dimensions; non-trivial: distinct points")
    required = ("distance", "bearing", "destination", "midpoint", "radius",
                "distance with the default radius", "there and back")

    def gen(self, r):
        a, b = pair(r)
        ell = r.choice(("none", "WGS84", "GRS80", "custom"))
        return {"a": a, "b": b, "bear": r.real(-360, 360),
                "d": r.choice((0.0, 10 ** r.uniform(-10, 0), r.real(0, 3.2), r.real(0, 20))),
                "R": r.choice((1.0, 1000.0, 6371000.0, 6378137, r.uniform(0.1, 1e7))),
                "ell": ell, "ab": (r.uniform(6.2e6, 6.5e6), r.uniform(6.2e6, 6.5e6)),
                "turns": (r.randint(-1, 1), r.randint(-1, 1))}

    def nontrivial(self, c):
        return c["a"] != c["b"]

    def check(self, c, mon):
        (lon1, lat1), (lon2, lat2) = c["a"], c["b"]
        R, b, d = c["R"], c["bear"], c["d"]
        w = sphere.sep(lon1, lat1, lon2, lat2)
        half = max(math.cos(w / 2), 1e-9)
        tol = min(2e-13 / half, 5e-8)       # what rounding can do to a distance
        for got, what in (
                (coord.haversine(lon1, lat1, lon2, lat2, R) / R, "distance"),
                (coord.haversine(lon2, lat2, lon1, lat1, R) / R, "distance back"),
                (coord.haversine(lon1 + 360 * c["turns"][0], lat1, lon2 + 360 * c["turns"][1], lat2, R) / R,
                 "distance after full turns")):
            expect(abs(got - w) <= tol, "{} between {} and {}: {} rad instead of {}",
                   what, c["a"], c["b"], got, w)
        mon.ev("distance")
        a_, b_ = proj.WGS84.a, proj.WGS84.b
        rm = sphere.georadius(6378137.0, 6356752.314245179, (lat1 + lat2) / 2)
        got = coord.haversine(lon1, lat1, lon2, lat2)
        expect(abs(got - rm * w) <= rm * tol * 2, "default distance between {} and {}: {} m instead of {}",
               c["a"], c["b"], got, rm * w)
        mon.ev("distance with the default radius")
        # radius of the ellipsoid
        for lat in (lat1, lat2, 0, 90, -90):
            if c["ell"] == "none":
                g, w2 = coord.radiusat(lat), sphere.georadius(6378137.0, 6356752.314245179, lat)
            elif c["ell"] == "custom":
                a0, b0 = c["ab"]
                e = proj.Ellipsoid(a0, b0, 0, 1 - b0 / a0)
                g, w2 = coord.radiusat(lat, e), sphere.georadius(a0, b0, lat)
            else:
                e = getattr(proj, c["ell"])
                g = coord.radiusat(lat, e)
                w2 = sphere.georadius(6378137.0, {"WGS84": 6356752.314245179,
                                                  "GRS80": 6356752.314140356}[c["ell"]], lat)
            expect(close(g, w2, 1e-13, 0), "radius at {} ({}): {} instead of {}", lat, c["ell"], g, w2)
        mon.ev("radius")
        # bearing (counterclockwise from north)
        if 1e-9 < w < math.pi - 1e-6 and abs(lat1) < 89.9999:
            u, e, n = sphere.frame(lon1, lat1)
            v = sphere.vec(lon2, lat2)
            want = math.degrees(math.atan2(-sphere.dot(e, v), sphere.dot(n, v)))
            s = math.sin(w)
            for k in (360, 0):
                a1, a2 = lon1 + k * c["turns"][0], lon2 + k * c["turns"][1]
                g = coord.bearing(a1, lat1, a2, lat2)
                expect(-180 <= g <= 180 and abs(sphere.turn(g, want)) <= 1e-11 / s,
                       "bearing from {} to {}: {} instead of {}", (a1, lat1), (a2, lat2), g, want)
            mon.ev("bearing")
            # and travelling it for the distance arrives there
            dist = coord.haversine(lon1, lat1, lon2, lat2, R)
            p = coord.destination(lon1, lat1, g, dist, R)
            q = sphere.sep(p[0], p[1], lon2, lat2)
            expect(q <= min(1e-12 / half / math.cos(math.radians(lat1)) / max(math.cos(math.radians(lat2)), 1e-8), 1e-7),
                   "travelling from {} to {} arrives at {}", c["a"], c["b"], p)
            mon.ev("there and back")
        # destination
        for D, rr, kw in ((d * R, R, {"R": R}), (d * 6.37e6, None, {})):
            if kw:
                p = coord.destination(lon1 + 360 * c["turns"][0], lat1, b, D, **kw)
            else:
                p = coord.destination(lon1, lat1, b, D)
            if rr is None:
                rr = sphere.georadius(6378137.0, 6356752.314245179, lat1)
            v = sphere.move(lon1, lat1, b, D / rr)
            if abs(lat1) > 89.99:       # directions at a pole are conventional
                q = abs(sphere.sep(lon1, lat1, *p) - abs(math.remainder(D / rr, 2 * math.pi)))
            else:
                q = sphere.angle(sphere.vec(*p), v)
            far = 1e-13 * (20 + D / rr) / max(math.hypot(v[0], v[1]), 1e-8) / max(math.cos(math.radians(lat1)), 1e-8)
            expect(q <= min(far, 1e-7) and -180 <= p[0] <= 180 and -90 <= p[1] <= 90,
                   "destination from {} towards {} over {} rad: {}, {} rad off",
                   c["a"], b, D / rr, p, q)
        mon.ev("destination")
        # midpoint
        for k in (0, 360) if w < math.pi - 1e-4 else ():
            a1, a2 = lon1 + k * c["turns"][0], lon2 + k * c["turns"][1]
            p = coord.midpoint(a1, lat1, a2, lat2)
            v = tuple(x + y for x, y in zip(sphere.vec(lon1, lat1), sphere.vec(lon2, lat2)))
            q = sphere.angle(sphere.vec(*p), v)
            expect(q <= 1e-12 / half and -90 <= p[1] <= 90, "midpoint of {} and {}: {}, {} rad off",
                   (a1, lat1), (a2, lat2), p, q)
            mon.ev("midpoint")

    def fixed(self, tier):
        out = []
        for lon1 in (-180, -90, 0, 90, 180):
            for lat1 in (-90, -45, 0, 45, 90):
                for lon2 in (-180, 0, 179):
                    for lat2 in (-90, 0, 90):
                        out.append({"a": (lon1, lat1), "b": (lon2, lat2), "bear": 90.0, "d": 1.0,
                                    "R": 1000.0, "ell": "none", "ab": (1, 1), "turns": (0, 0)})
        return out


class Centroid(Check):
    id = "C04"
    files = ("coral/coord.py", "coral/proj.py")
    quick, thorough = 12000, 200000
    rule = ("regions of 1 to 4 polygons (now and then 40; star-shaped, either orientation, holes, "
            "slivers, polygons without area, up to 110 degrees across, any place of the globe including "
            "the poles and the antimeridian), with and without a starting box; "
            "non-trivial: all")
    required = ("centroid", "started from a given box", "several polygons", "hole",
                "polar region", "antimeridian region", "polygon without area", "symmetric region")

    def star(self, r, lon, lat, rad, n, ccw, regular=False):
        ts = sorted(r.uniform(0, 360) for _ in range(n))
        if max((b - a) for a, b in zip(ts, ts[1:] + [ts[0] + 360])) > 170:
            ts = [360 * i / n for i in range(n)]
        pts = []
        if regular:
            ts = [360 * i / n for i in range(n)]
        for t in ts if ccw else reversed(ts):
            x, y = sphere.offset(lon, lat, t, rad * (1 if regular else r.uniform(0.4, 1)))
            pts.append((lon + sphere.turn(x, lon), y))
        return pts

    def gen(self, r):
        lon, lat = r.lon(), r.lat()
        kind = r.choice(("any", "any", "pole", "date"))
        if kind == "pole":
            lat = r.choice((-1, 1)) * r.choice((r.uniform(75, 90), 90.0, 90 - 10 ** r.uniform(-9, 0)))
        elif kind == "date":
            lon = r.choice((-1, 1)) * r.uniform(177, 180)
            lat = r.uniform(-60, 60)
        rad = 10 ** r.uniform(-4, 0)
        n = r.choice((1, 1, 2, 3, 4)) if r.chance(0.95) else r.choice((9, 17, 40))
        ccw = r.chance(0.5)
        polys = []
        for i in range(n):
            la, lo = lat, lon
            if i:
                lo, la = sphere.offset(lon, lat, r.uniform(0, 360), rad * r.uniform(0.3, 1))
                lo = lon + sphere.turn(lo, lon)
            polys.append(self.star(r, lo, la, rad * r.uniform(0.3, 1), r.choice((3, 4, 5, 12, 60)), ccw, n == 1 and r.chance(0.1)))
        hole = r.chance(0.2)
        if hole:
            polys.append(self.star(r, lon, lat, rad * 0.1, 5, not ccw))
        if r.chance(0.1):       # a polygon without area
            a, b = r.choice(polys[0]), r.choice(polys[-1])
            polys.insert(r.randint(0, len(polys)), r.choice(([a], [a, a], [a, b], [a, b, a], [b, a, b, a])))
        if r.chance(0.05):      # its centre is on the equator from the start, or on a meridian, and only the other moves
            k = r.randint(3, 9)
            us = sorted(r.uniform(0, math.degrees(rad)) for _ in range(k))
            vs = [math.degrees(rad) * r.uniform(0.05, 0.5) for _ in range(k)]
            m = round(lon) / 4
            if r.chance(0.5):
                polys = [[(m + u, -v) for u, v in zip(us, vs)] + [(m + u, v) for u, v in zip(us, vs)][::-1]]
            else:
                polys = [[(m + v, u) for u, v in zip(us, vs)] + [(m - v, u) for u, v in zip(us, vs)][::-1]]
            if not ccw:
                polys[0].reverse()
            kind, hole = "symmetric", False
            lon, lat = m, 0
        if r.chance(0.3):
            polys = [p + [p[0]] for p in polys]
        eps = r.choice((None, None, None, 1e-10, 1e-9, 1e-6, 1e-4))
        box = None
        if r.chance(0.3):
            e = math.degrees(rad)
            box = (lon - e, max(-90, lat - e), lon + e, min(90, lat + e))
            if r.chance(0.3):       # any place to start from, but for the other side
                x, y = sphere.offset(lon, lat, r.uniform(0, 360), r.uniform(0, 1.7))
                box = (x - 1, max(-90, y - 1), x + 1, min(90, y + 1))
        return {"kind": kind, "polys": polys, "eps": eps, "box": box, "hole": hole, "rad": rad}

    larges = ((1, 5000), (1, 70000), (300, 5), (1, 1025), (70, 300))

    def large(self, what):
        n, k = what
        r = Gen("region %d %d" % what)
        c = self.gen(r)
        polys, places = [], []
        for i in range(n):
            lo, la = sphere.offset(-50, -15, r.uniform(0, 360), 0.3 * r.random() if i else 0)
            polys.append(self.star(r, -50 + sphere.turn(lo, -50), la, 0.3 * r.uniform(0.3, 1), k, True))
            places.append(polys[-1][0])
        c.update(polys=polys, rad=0.5, box=None, kind="any", hole=False, eps=None)
        return c

    def start(self, c):
        """The centre of the box to start from."""
        b = c["box"]
        if b is None:
            xs, ys = zip(*(v for p in c["polys"] for v in p))
            b = (min(xs), min(ys), max(xs), max(ys))
        return (b[0] + b[2]) / 2, (b[1] + b[3]) / 2

    def moment(self, polys, c):
        sa = mx = my = 0.0
        for p in polys:
            q = [sphere.laea(c, v) for v in p]
            for (x0, y0), (x1, y1) in zip(q, q[1:] + q[:1]):
                f = x0 * y1 - x1 * y0
                sa += f
                mx += (x0 + x1) * f
                my += (y0 + y1) * f
        return mx / (3 * sa), my / (3 * sa)

    def check(self, c, mon):
        polys = c["polys"]
        kw = {}
        if c["eps"] is not None:
            kw["epsilon"] = c["eps"]
        if c["box"] is not None:
            b = c["box"]
            kw["bb"] = bbox.BBox((b[0], b[1]), (b[2], b[3]))
            mon.ev("started from a given box")
        mon.ev("symmetric region", c["kind"] == "symmetric")
        mon.ev("polygon without area", any(len(set(p)) < 3 for p in polys))
        at = self.start(c)
        if max(sphere.sep(*at, *v) for p in polys for v in p) > 2:
            raise Skip      # nearly on the other side of the globe, seen from the start
        keep = [list(p) for p in polys]
        g = coord.geocentroid(polys, **kw)
        expect(keep == polys, "the region was changed by the call")
        x, y = self.moment(polys, g)
        res = math.hypot(x, y)
        eps = math.radians(c["eps"] or 1e-10)
        tol = 4 * eps + 1e-9 * c["rad"] + 1e-10
        expect(res <= tol, "centroid {} of the region is {} rad away from the centre of mass (size {} rad)",
               g, res, c["rad"])
        mon.ev("centroid")
        if len(polys) > 1:
            mon.ev("several polygons")
        if c["hole"]:
            mon.ev("hole")
        if c["kind"] == "pole":
            mon.ev("polar region")
        if c["kind"] == "date":
            mon.ev("antimeridian region")
