"""Independent 3-D geometry of the sphere (oracle side)."""
import math


def vec(lon, lat):
    a, b = math.radians(lon), math.radians(lat)
    return (math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b))


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
            u[0] * v[1] - u[1] * v[0])


def norm(u):
    return math.sqrt(dot(u, u))


def angle(u, v):
    """Angle between two vectors, accurate everywhere."""
    return math.atan2(norm(cross(u, v)), dot(u, v))


def sep(lon1, lat1, lon2, lat2):
    return angle(vec(lon1, lat1), vec(lon2, lat2))


def frame(lon, lat):
    """Unit vectors (up, east, north) at a point."""
    a, b = math.radians(lon), math.radians(lat)
    return (vec(lon, lat), (-math.sin(a), math.cos(a), 0.0),
            (-math.sin(b) * math.cos(a), -math.sin(b) * math.sin(a), math.cos(b)))


def move(lon, lat, bear, d):
    """Unit vector reached after angle d (rad) towards bear (deg, ccw from north)."""
    u, e, n = frame(lon, lat)
    t = math.radians(bear)
    c, s = math.cos(t), -math.sin(t)
    h = tuple(c * x + s * y for x, y in zip(n, e))
    return tuple(math.cos(d) * x + math.sin(d) * y for x, y in zip(u, h))


def offset(lon, lat, bear, d):
    v = move(lon, lat, bear, d)
    return (math.degrees(math.atan2(v[1], v[0])),
            math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))))


def laea(c, p):
    """Lambert azimuthal equal-area on the unit sphere: c -> (0, 0)."""
    u, e, n = frame(*c)
    v = vec(*p)
    k = math.sqrt(2 / (1 + dot(u, v)))
    return k * dot(e, v), k * dot(n, v)


def turn(a, b):
    """Smallest signed difference between two angles in degrees."""
    return (a - b + 180) % 360 - 180


def georadius(a, b, lat):
    """Distance from the centre of an ellipsoid to its surface at a geodetic
    latitude, through the coordinates of the surface point."""
    t = math.radians(lat)
    n = a * a / math.sqrt(a * a * math.cos(t) ** 2 + b * b * math.sin(t) ** 2)
    return math.hypot(n * math.cos(t), (b / a) ** 2 * n * math.sin(t))
