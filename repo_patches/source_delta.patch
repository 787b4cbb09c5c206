From fb88b9af797a2c85034341e0da664e6f9a0ad671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 01/99] fix: BBox equality compares coordinates, not hashes

hash(-1) == hash(-2) in CPython, so distinct boxes compared equal.
---
 coral/bbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 4478869..722e279 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -57,7 +57,10 @@ class BBox:
         return hash((self.x0, self.y0, self.x1, self.y1))
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        if not isinstance(other, BBox):
+            return NotImplemented
+        return ((self.x0, self.y0, self.x1, self.y1) ==
+                (other.x0, other.y0, other.x1, other.y1))
 
     def __lt__(self, other):
         return self.area() < other.area()
-- 
2.43.0


From 3a4b7593063765ff60dac65c750bd6268db76d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 02/99] fix: BBox union keeps boxes of zero width or height

---
 coral/bbox.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 722e279..a13ef1b 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -69,8 +69,11 @@ class BBox:
         return bool(self.area())
 
     def __or__(self, other):
-        if not self: return other
-        if not other: return self
+        # Only the empty box is neutral: a box of zero width or height still
+        # has a position that the union must cover.
+        empty = BBox()
+        if self == empty: return other
+        if other is None or other == empty: return self
         x0 = min(self.x0, other.x0)
         y0 = min(self.y0, other.y0)
         x1 = max(self.x1, other.x1)
-- 
2.43.0


From cb7128aa8d611516ed180ca940944bc080bd5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 03/99] fix: haversine and destination accept antipodal and
 polar results

Rounding pushed the argument of sqrt/asin out of domain (ValueError).
---
 coral/coord.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index cca69f2..01c6512 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -120,6 +120,7 @@ def haversine(lon1, lat1, lon2, lat2, R=None):
     a1 = math.sin(dLat / 2) * math.sin(dLat / 2)
     a2 = math.sin(dLon / 2) * math.sin(dLon / 2) * math.cos(lat1) * math.cos(lat2)
     a = a1 + a2
+    a = min(a, 1) # rounding may push it past 1 for antipodal points.
     c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
     d = R * c
     return d
@@ -156,7 +157,8 @@ def destination(lon, lat, bear, dist, R=None):
     sind = math.sin(d)
     costc = math.cos(tc)
     sintc = math.sin(tc)
-    lat = math.asin(sinlat*cosd + coslat*sind*costc)
+    sinlat2 = sinlat*cosd + coslat*sind*costc
+    lat = math.asin(max(-1, min(sinlat2, 1)))
     dlon = math.atan2(sintc*sind*coslat, cosd - sinlat*math.sin(lat))
     lon = corangle(rlon - dlon)
     lon, lat = math.degrees(lon), math.degrees(lat)
-- 
2.43.0


From 086a38a3c2a80946c0231e90e1e9792f71b9eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 04/99] fix: simplify() of an empty or single-point polyline

StopIteration inside a generator is a RuntimeError since Python 3.7.
---
 coral/coord.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 01c6512..140eccc 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -250,9 +250,13 @@ def sqr_fit(s, m):
 
 def open_no_slit(s, k):
     b = Buffer(k)
-    p = next(s)
+    p = next(s, None)
+    if p is None:
+        return
     yield p
-    q = next(s)
+    q = next(s, None)
+    if q is None:
+        return
     for r in s:
         if r == q:
             continue
-- 
2.43.0


From 5600351239d7a185e49eee212d6c1d37e9ae0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 05/99] fix: removing a slit keeps the vertex at its base when
 the line bends there

---
 coral/coord.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 140eccc..8163bc6 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -254,6 +254,7 @@ def open_no_slit(s, k):
     if p is None:
         return
     yield p
+    a = p # last vertex given out
     q = next(s, None)
     if q is None:
         return
@@ -262,10 +263,14 @@ def open_no_slit(s, k):
             continue
         if not collinear(p, q, r):
             if not b.isempty() and q == b.peek():
+                # End of a slit: its base stays if the line bends there.
                 b.pop()
+                if not collinear(a if b.isempty() else b.peek(), q, r):
+                    b.push(q)
             else:
                 if b.isfull():
-                    yield b.shift()
+                    a = b.shift()
+                    yield a
                 b.push(q)
         p, q = q, r
     while not b.isempty():
-- 
2.43.0


From 45d7a2be0925f86ee28623836205ba239d6503c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 06/99] fix: simplify(closed=True) returns the vertices in ring
 order

The first vertices of the ring were given out after the last ones, with the
starting point misplaced between them, so any ring of more than k vertices
came back tangled.
---
 coral/coord.py | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 8163bc6..5a7e376 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -278,38 +278,21 @@ def open_no_slit(s, k):
     yield q
 
 def closed_no_slit(s, k):
-    b1 = Buffer(k)
-    b2 = Buffer(k)
-    p = next(s)
-    yield p
-    q = next(s)
-    for r in s:
-        if r == q:
-            continue
-        if not collinear(p, q, r):
-            if not b1.isempty() and q == b1.peek():
-                b1.pop()
-            else:
-                if b1.isfull():
-                    t = b1.shift()
-                    if b2.isfull():
-                        yield t
-                    else:
-                        b2.push(t)
-                b1.push(q)
-        p, q = q, r
-    while not (b1.isempty() or b2.isempty()):
-        p = b1.pop()
-        q = b2.shift()
-        if p != q:
+    # Walk the ring from its first point back to it, then clean up the seam.
+    p = next(s, None)
+    if p is None:
+        return
+    ring = list(open_no_slit(itertools.chain([p], s, [p]), k))
+    while len(ring) > 1:
+        if ring[0] == ring[-1]:
+            ring.pop()
+        elif collinear(ring[-1], ring[0], ring[1]):
+            ring.pop(0)
+        elif collinear(ring[-2], ring[-1], ring[0]):
+            ring.pop()
+        else:
             break
-    while not b1.isempty():
-        yield b1.shift()
-    yield p
-    yield q
-    while not b2.isempty():
-        yield b2.shift()
-    yield r
+    yield from ring
 
 def simplify(xys, scl, closed=False, k=8):
     s = sqr_fit(xys, scl)
-- 
2.43.0


From 461e89d27fba927c5109a1a1da079b44e73acc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 07/99] fix: azimuthal projections invert points beyond 90
 degrees of longitude

atan loses the quadrant, as the FIXME suspected; x/y also divided by zero.
---
 coral/proj.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 0164943..ceeba7d 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -279,17 +279,16 @@ class Stereographic(Proj):
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -327,17 +326,16 @@ class AzimuthalEquidistant(Proj):
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -370,17 +368,16 @@ class AzimuthalEqualArea(Proj):
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
-- 
2.43.0


From af140b3441d4135f77467b0e197f3c2ec1a23df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 08/99] fix: azimuthal projections invert their own centre

rect2geo(0, 0) divided by zero, also within coord.geocentroid().
---
 coral/proj.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index ceeba7d..ad1a8f7 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -276,6 +276,8 @@ class Stereographic(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -323,6 +325,8 @@ class AzimuthalEquidistant(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -365,6 +369,8 @@ class AzimuthalEqualArea(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-- 
2.43.0


From 6bd87834d524e09451546df240f83dfa8609b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 09/99] fix: rounding near a pole no longer makes rect2geo()
 fail

---
 coral/proj.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index ad1a8f7..db699ed 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -205,7 +205,8 @@ class ObliqMercator(Proj):
     def rect2geo(self, x, y):
         c, s = math.cos(self.lat0), math.sin(self.lat0)
         xr, yr = x / self.r, y / self.r
-        lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
+        sinlat = s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr)
+        lat = math.asin(max(-1, min(sinlat, 1)))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
         lon = self.lon0 + math.atan(v / h)
@@ -291,7 +292,8 @@ class Stereographic(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(sinlat, 1)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -340,7 +342,8 @@ class AzimuthalEquidistant(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(sinlat, 1)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -384,7 +387,8 @@ class AzimuthalEqualArea(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(sinlat, 1)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -423,7 +427,8 @@ class ConicEqualArea(CProj):
         t = math.atan2(x, p0 - y)
         lon = t / self.n
         pnr = p * self.n / self.r
-        lat = math.asin((self.c - pnr*pnr) / (2 * self.n))
+        sinlat = (self.c - pnr*pnr) / (2 * self.n)
+        lat = math.asin(max(-1, min(sinlat, 1)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From ad668823ac1904f08d2a92dbaca452ebbb18ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 10/99] fix: ObliqMercator covers the whole sphere

atan(v / h) folded the far hemisphere onto the near one and divided by zero
between them.
---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index db699ed..72d3751 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -198,7 +198,7 @@ class ObliqMercator(Proj):
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
-        x = self.r * math.atan(v / h)
+        x = self.r * math.atan2(v, h)
         y = self.r * math.atanh(a)
         return x, y
 
@@ -209,7 +209,7 @@ class ObliqMercator(Proj):
         lat = math.asin(max(-1, min(sinlat, 1)))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
-        lon = self.lon0 + math.atan(v / h)
+        lon = self.lon0 + math.atan2(v, h)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 8faba783a07299fde40aa4cc22e160d50e75b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 11/99] fix: AzimuthalEquidistant projects points next to its
 centre

Rounding gave a cosine of 1 (division by zero) or above (domain error).
---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 72d3751..1d9f731 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -318,8 +318,8 @@ class AzimuthalEquidistant(Proj):
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(cosc)
-        k = c / math.sin(c)
+        c = math.acos(max(-1, min(cosc, 1)))
+        k = c / math.sin(c) if c else 1
         x = y = self.r * k
         x *= coslat * sinlon
         y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
-- 
2.43.0


From 2e92a1140149af324b734962d878fa69f0672d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 12/99] fix: unimplemented scale() raises NotImplementedError

NotImplemented is not callable.
---
 coral/proj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 1d9f731..316b19e 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -253,7 +253,7 @@ class EckertIV(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Eckert IV")
+        raise NotImplementedError("scale is not implemented for Eckert IV")
 
 class Stereographic(Proj):
     "Stereographic Projection for the Spherical Earth."
@@ -298,7 +298,7 @@ class Stereographic(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Stereographic")
+        raise NotImplementedError("scale is not implemented for Stereographic")
 
 class AzimuthalEquidistant(Proj):
     "Azimuthal Equidistant Projection for the Spherical Earth."
@@ -348,7 +348,7 @@ class AzimuthalEquidistant(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equidistant")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equidistant")
 
 class AzimuthalEqualArea(Proj):
     "Lambert Azimuthal Equal-Area Projection for the Spherical Earth."
@@ -393,7 +393,7 @@ class AzimuthalEqualArea(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equal-Area")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equal-Area")
 
 class ConicEqualArea(CProj):
     "Albers Equal-Area Conic Projection for the Spherical Earth."
-- 
2.43.0


From 91249d4ef4e7caf92a9b87d35e4a754cd5dde7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 13/99] fix: IVar has a storage format, so it can encode and
 decode

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 6c4bfe2..de4d573 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,6 +41,7 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
+        self.fmt = '>' + SIZE_FORMAT[self.size]
         self.span = SIZE_SPAN[self.size]
         if nullable:
             self.span -= 1
-- 
2.43.0


From 2f42c6ab0580783b4467ac02d56559f0b8373651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 14/99] fix: the largest index of a variable fits its size

The maximum of an FVar and any null were packed one past the last code.
---
 coral/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index de4d573..9fb7649 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -42,7 +42,7 @@ class IVar:
         else:
             raise ValueError
         self.fmt = '>' + SIZE_FORMAT[self.size]
-        self.span = SIZE_SPAN[self.size]
+        self.span = SIZE_SPAN[self.size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
@@ -87,7 +87,7 @@ class FVar:
         self.maxv = maxv
         self.size = size
         self.delta = maxv - minv
-        self.span = SIZE_SPAN[size]
+        self.span = SIZE_SPAN[size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
-- 
2.43.0


From 0552eba18b72478486e0244a19ccc7a816262a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 15/99] fix: rg.Reader: import collections

---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3ab2857..01be947 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -81,6 +81,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
 import io
 import struct
+import collections
 
 from .grid import IVar, FVar, SVar, GRow
 
-- 
2.43.0


From 74eea3fda3ee9baf6f7a23f7ac11beb55a87ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 16/99] fix: rg index: entities without segments and IDs with
 spaces

---
 coral/rg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 01be947..59e25ae 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -135,9 +135,9 @@ def _readindex(path):
     with open(path, "r") as md:
         n = int(md.readline())
         for i in range(n):
-            eid, ensegs = md.readline().split(" ")
+            eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split(" ")]
+            elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From ac03a1c8ba271eaa898398b9d1a059abeb90d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 17/99] fix: rg.Writer: a rejected entity leaves no rows in the
 data file

The stray rows shifted every entity written after it.
---
 coral/rg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 59e25ae..b343978 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -183,13 +183,16 @@ class Writer:
         if id_ is None:
             id_ = len(self.index)
         lens = []
+        buffers = []
         for rows in segs:
             length = 0
             for r in rows:
                 data = self.row.encode(*r)
-                rg.write(data)
+                buffers.append(data)
                 length += 1
             lens.append(length)
+        # A rejected entity must leave nothing behind.
+        rg.write(b''.join(buffers))
         self.index.append((id_, lens))
 
     def close(self):
-- 
2.43.0


From f0292311abf83a8b43e1da87dfb25d093d8c3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 18/99] fix: rg.Reader refuses truncated files

A cut header hung the reader; a cut index or a cut row of strings was read
as shorter data.
---
 coral/rg.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index b343978..6a790e6 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -138,6 +138,8 @@ def _readindex(path):
             eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
             elens = [int(s) for s in md.readline().split()]
+            if len(elens) != ensegs:
+                raise EOFError("truncated index")
             index.append((eid, elens))
     return index
 
@@ -222,11 +224,15 @@ class Reader:
         assert ver == b'\x01'
         ncols = ord(rg.read(1))
         nrows, = struct.unpack("I", rg.read(4))
+        if nrows != sum(sum(elens) for eid, elens in self.index):
+            raise EOFError("index does not match data")
         fields = [None] * ncols
         for i in range(ncols):
             bs = b''
             b = rg.read(1)
             while b != b'\x00':
+                if not b:
+                    raise EOFError("truncated header")
                 bs += b
                 b = rg.read(1)
             name = bs.decode("ascii")
@@ -268,7 +274,12 @@ class Reader:
             rg.seek(self.datapos + offset)
         segs = []
         for nrows in self.index[self.idx][1]:
-            rows = [self.nt(*self.row.decode(rg.read(self.row.size))) for i in range(nrows)]
+            rows = []
+            for i in range(nrows):
+                data = rg.read(self.row.size)
+                if len(data) != self.row.size:
+                    raise EOFError("truncated data")
+                rows.append(self.nt(*self.row.decode(data)))
             segs.append(rows)
         self.idx += 1
         return segs
-- 
2.43.0


From 470eab4aa740f715f6ef95f84f56580473a62950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 19/99] fix: pf.Writer no longer hangs on a latitude above 90

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 7e301ac..c3e2553 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -172,7 +172,7 @@ class Writer:
                 while lat < -90:
                     lat += 180
                 while lat > 90:
-                    lat += 180
+                    lat -= 180
                 parts[i][j] = (lon, lat)
         nparts = len(parts)
         for i in range(nparts):
-- 
2.43.0


From 2ee183d419e08318d38d857f7be7794d624a73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 20/99] fix: pf.Writer accepts points on the limits of the box
 with size 8

---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index c3e2553..604c3e2 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -207,6 +207,9 @@ class Writer:
                 lon1, lat1 = point
                 ulon = round((lon1 - x0) * self.umax / (x1 - x0))
                 ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                # Rounding may step over the limits (e.g. 2.0 ** 64).
+                ulon = max(0, min(ulon, self.umax))
+                ulat = max(0, min(ulat, self.umax))
                 data = struct.pack(self.fmt, ulon, ulat)
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
-- 
2.43.0


From 564ef72e6ff04baf02e73b53ecaff8dd5e0a8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 21/99] fix: pf.Writer accepts single points and entities on a
 grid line

---
 coral/pf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 604c3e2..c7f410f 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -177,7 +177,7 @@ class Writer:
         nparts = len(parts)
         for i in range(nparts):
             part = parts[i]
-            if part[0] == part[-1]:
+            if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
@@ -194,6 +194,11 @@ class Writer:
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
         y1 = math.ceil((bb.y1 + 90) * UMAX2 / 180)
+        # A box on a grid line still needs a width and a height.
+        if x0 == x1:
+            x0, x1 = (x0, x1 + 1) if x1 < UMAX2 else (x0 - 1, x1)
+        if y0 == y1:
+            y0, y1 = (y0, y1 + 1) if y1 < UMAX2 else (y0 - 1, y1)
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-- 
2.43.0


From 8273013f0215fb8ab6c995009f14e9af04e8f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 22/99] fix: pf.Writer: a rejected entity leaves no name in the
 index

Every entity written after it was stored under the previous name.
---
 coral/pf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index c7f410f..ab91f14 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -180,7 +180,7 @@ class Writer:
             if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
-        self.names.append(name)
+        name.encode("ascii") # or fail now, not at close().
         bb = None
         partlen = []
         for part in parts:
@@ -189,7 +189,6 @@ class Writer:
             else:
                 bb |= bbox.BBox(part)
             partlen.append(len(part))
-        self.partlens.append(partlen)
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
@@ -202,6 +201,8 @@ class Writer:
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
+        self.names.append(name)
+        self.partlens.append(partlen)
         self.bboxes.append((x0, x1, y0, y1))
         x0 = x0 * 360 / UMAX2 - 180
         x1 = x1 * 360 / UMAX2 - 180
-- 
2.43.0


From 321e29fa3436b5d2b4aff2ad9d601b79f06a51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 23/99] fix: pf.Reader refuses a file cut within a name instead
 of hanging

---
 coral/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index ab91f14..87747cd 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -116,6 +116,8 @@ def readascii(f):
     bs = b""
     b = f.read(1)
     while b != b'\x00':
+        if not b:
+            raise EOFError("truncated name")
         bs += b
         b = f.read(1)
     return bs.decode("ascii")
-- 
2.43.0


From dab8ac1c6e726ac6c42476c3b6724d524eff10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 24/99] fix: frame.load() of ellipsoidal projections

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b627079..94c331d 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -126,7 +126,7 @@ def load(path):
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-        e = Ellipsoid(*(m[k] for k in 'abef'))
+        e = proj.Ellipsoid(*(m[k] for k in 'abef'))
         prj = Proj(c, e)
     else:
         r = m['r']
-- 
2.43.0


From 744e5d30ccfb387ff356041e34ef7fa0d19d735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 25/99] fix: frames with a conic projection can be saved and
 loaded

---
 coral/frame.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index 94c331d..b75a229 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -62,12 +62,17 @@ class Frame:
                 "type": "sphere",
                 "r": self.projection.r
             }
-        rlon, rlat = self.projection.lon0, self.projection.lat0
-        lon, lat = math.degrees(rlon), math.degrees(rlat)
+        if isinstance(self.projection, proj.CProj):
+            # Conic projections have standard parallels instead of a center.
+            key = "parallels"
+            rads = self.projection.lat1, self.projection.lat2
+        else:
+            key = "center"
+            rads = self.projection.lon0, self.projection.lat0
         d = {
             "projection": {
                 "type": type(self.projection).__name__,
-                "center": (lon, lat),
+                key: tuple(map(math.degrees, rads)),
                 "orientation": 0.0,
                 "model": model
             },
@@ -122,7 +127,7 @@ def load(path):
     p = d['projection']
     Proj = getattr(proj, p['type'])
     pt = p['type']
-    c = p['center']
+    c = p['parallels'] if 'parallels' in p else p['center']
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-- 
2.43.0


From 15c0420fbcc779974c609157b41115f55a860b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 26/99] fix: tqdm works on iterables without a length

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index 13ce086..eac33aa 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -39,7 +39,7 @@ def format_meter(n, total, elapsed):
     # n - number of finished iterations
     # total - total number of iterations, or None
     # elapsed - number of seconds passed since start
-    if n > total:
+    if total is not None and n > total:
         total = None
     
     elapsed_str = format_interval(elapsed)
-- 
2.43.0


From 0c64eee270838d07f653e3085602330c019eadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 27/99] fix: tqdm(leave=False) writes to the given file only

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index eac33aa..a8fabec 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -118,7 +118,7 @@ def tqdm(iterable, desc='', total=None, leave=True, file=sys.stderr,
     
     if not leave:
         sp.print_status('')
-        sys.stdout.write('\r')
+        file.write('\r')
     else:
         if last_print_n < n:
             cur_t = time.time()
-- 
2.43.0


From 0f5069c8cff70c6a51cb106fb86d33ecb665e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 28/99] fix: Gradient leaves the caller's list alone

---
 coral/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/gradient.py b/coral/gradient.py
index 2979ae8..dd12d52 100644
--- a/coral/gradient.py
+++ b/coral/gradient.py
@@ -23,7 +23,7 @@ import bisect
 class Gradient:
 
     def __init__(self, points):
-        points.sort(key=lambda p: p[0])
+        points = sorted(points, key=lambda p: p[0])
         if points[0][0] > 0:
             points.insert(0, (0, points[0][1]))
         if points[-1][0] < 1:
-- 
2.43.0


From ffaf8e9376ffb297396d9f2a4dc4436510258efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 29/99] fix: table.readfile() honours the order of keys

Values were taken in file order but labelled in the order of keys.
---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 28b22f3..8c2fdf7 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -87,7 +87,7 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [i for i in range(len(fkeys)) if fkeys[i] in keys]
+        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
             line = line.split(comm)[0].strip()
-- 
2.43.0


From 898b645eb398fb272fff8a0395cff47991b9b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 30/99] fix: table.readfile(): empty files hung, empty first
 and last columns of tab-separated files were lost

---
 coral/table.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index 8c2fdf7..6e7c877 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -81,16 +81,21 @@ def delkeys(table, keys_to_del):
 def readfile(path, keys=None, sep=',', comm='#'):
     table = []
     with codecs.open(path, "r", "utf8") as f:
+        # Spaces around a line are ignored, unless they are separators.
+        blank = "".join(c for c in " \t\r\n" if c not in sep)
         line = ""
         while not line:
-            line = f.readline().split(comm)[0].strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("no header in {}".format(path))
+            line = line.split(comm)[0].strip(blank)
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
         indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
-            line = line.split(comm)[0].strip()
+            line = line.split(comm)[0].strip(blank)
             if not line:
                 continue
             fvalues = line.split(sep)
-- 
2.43.0


From 0cd15f9396e1055028271de8201d4f9b02199cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 31/99] fix: jaro() is normalized and symmetric

A character could be matched many times, so scores went above 1.
---
 coral/names.py | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/coral/names.py b/coral/names.py
index c2f399e..7039c07 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -74,35 +74,21 @@ def strerr(s1, s2):
 def jaro(s1, s2):
     ls1 = len(s1)
     ls2 = len(s2)
-    if ls1 < ls2:
-        s1 += "*" * (ls2 - ls1)
-        length = ls2
-    elif ls2 < ls1:
-        s2 += "*" * (ls1 - ls2)
-        length = ls1
-    else:
-        length = ls1
-    m = 0
-    w = length // 2 - 1
-    p = []
-    for i in range(length):
-        if s1[i] == s2[i]:
-            m += 1
-        else:
-            i0, i1 = max(0, i-w), min(length, i+w+1)
-            f = s2.find(s1[i], i0, i1)
-            if f >= 0:
-                m += 1
-                p.append(f)
+    w = max(max(ls1, ls2) // 2 - 1, 0)
+    used = [False] * ls2
+    m1 = []
+    for i in range(ls1):
+        for j in range(max(0, i-w), min(ls2, i+w+1)):
+            if not used[j] and s1[i] == s2[j]:
+                # A character can be matched only once.
+                used[j] = True
+                m1.append(s1[i])
+                break
+    m = len(m1)
     if m == 0:
         return 0
-    t = 0
-    x = 0
-    for f in p:
-        if f < x:
-            t += 1
-        else:
-            x = f
+    m2 = [s2[j] for j in range(ls2) if used[j]]
+    t = sum(c1 != c2 for c1, c2 in zip(m1, m2)) / 2
     return (m / ls1 + m / ls2 + (m - t) / m) / 3
 
 # http://en.wikipedia.org/wiki/Jaro%E2%80%93Winkler_distance
-- 
2.43.0


From 1fa80b172cc8fffefddfeafedbcb1fa6e1d38fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 32/99] fix: strerr() of two empty strings

---
 coral/names.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/names.py b/coral/names.py
index 7039c07..0c5d6ca 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -67,6 +67,8 @@ def damlev(s1, s2):
 
 def strerr(s1, s2):
     length = len(s1) + len(s2)
+    if length == 0:
+        return 0
     distance = damlev(s1, s2)
     return distance * 2 / length
 
-- 
2.43.0


From 634d06a0c6b367535f8b70d8df75d172a81da53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 33/99] fix: abbreviations() runs: missing import, undefined
 extras, sort by name length

---
 coral/names.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/names.py b/coral/names.py
index 0c5d6ca..6bf9d54 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import collections
+import itertools
 
 def ascii(s):
     src = "áàãâäéèẽêëíìĩîïóòõôöúùũûüç"
@@ -117,10 +118,10 @@ def mapping(keys, values):
     m.sort(key=lambda match: -match.score)
     return m
 
-def abbreviations(names, length):
+def abbreviations(names, length, extras=()):
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
-    inames.sort(key=len)
+    inames.sort(key=lambda iname: len(iname[1]))
     counter = collections.Counter()
     for i, name in inames:
         counter.update(set(name))
-- 
2.43.0


From 67c6c05e08d5c15697ad7c96680742cea1417f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 34/99] fix: BWCanvas background covers every pixel

bgcolor=1 set one pixel in eight.
---
 coral/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 41423ef..dcb6915 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -179,7 +179,8 @@ class BWCanvas(BaseCanvas):
         self.bgcolor = bgcolor
         nw = math.ceil(width/8) # bytes/row
         n = nw * height
-        self.data = array('B', (bgcolor for i in range(n)))
+        bgbyte = 0xff if bgcolor else 0 # 8 pixels
+        self.data = array('B', (bgbyte for i in range(n)))
         self.bits_per_row = nw * 8
 
     def __getitem__(self, key):
-- 
2.43.0


From 8eb8cb41027e596f14d25d86e0492b952b49e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 35/99] fix: fillpolygons() fills by winding number

Only the direction of the last edge crossed was remembered: a polygon drawn
the other way around was filled on its outside, and one that touched or
overlapped another was left open.
---
 coral/raster.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index dcb6915..d77a708 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -64,18 +64,17 @@ class BaseCanvas:
         "Fill polygons previously scanned with `scanpolygon()`."
 
         for y, marks in enumerate(scans):
-            heapq.heappush(marks, (self.width, False))
-            x1, d1 = heapq.heappop(marks)
-            x0, d0 = 0, not d1
-            while x1 < self.width:
-                if not d0:
-                    while x0 < x1:
+            winding = 0
+            x0 = 0
+            while marks:
+                x1, down = heapq.heappop(marks)
+                if winding:
+                    while x0 < min(x1, self.width):
                         self[x0, y] = color
                         x0 += 1
                 else:
-                    x0 = x1
-                d0 = d1
-                x1, d1 = heapq.heappop(marks)
+                    x0 = max(x1, 0)
+                winding += -1 if down else 1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From 63c51c53197f663e1dd2c6a2d7b2ecc56e2470f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 36/99] fix: aaline() of no length, and along the last row or
 column

The former divided by zero; the latter touched pixels out of the canvas.
---
 coral/raster.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index d77a708..0d64c45 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -116,8 +116,15 @@ class BaseCanvas:
             (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
         dx = x1 - x0
         dy = y1 - y0
+        if dx == 0:
+            return # no length (dy is not larger than dx).
         gradient = dy / dx
 
+        def plot(x, y, alpha):
+            # The pair of the last row or column is out of the canvas.
+            if 0 <= x < self.width and 0 <= y < self.height:
+                self[x, y] = color + (alpha,)
+
         # Line start.
         xend = nearest(x0)
         yend = y0 + gradient * (xend - x0)
@@ -127,11 +134,11 @@ class BaseCanvas:
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
         if steep:
-            self[ypxl1  , xpxl1] = color + (alpha1,)
-            self[ypxl1+1, xpxl1] = color + (alpha2,)
+            plot(ypxl1, xpxl1, alpha1)
+            plot(ypxl1+1, xpxl1, alpha2)
         else:
-            self[xpxl1, ypxl1  ] = color + (alpha1,)
-            self[xpxl1, ypxl1+1] = color + (alpha2,)
+            plot(xpxl1, ypxl1, alpha1)
+            plot(xpxl1, ypxl1+1, alpha2)
         intery = yend + gradient
 
         # Line end.
@@ -143,22 +150,22 @@ class BaseCanvas:
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
         if steep:
-            self[ypxl2  , xpxl2] = color + (alpha1,)
-            self[ypxl2+1, xpxl2] = color + (alpha2,)
+            plot(ypxl2, xpxl2, alpha1)
+            plot(ypxl2+1, xpxl2, alpha2)
         else:
-            self[xpxl2, ypxl2  ] = color + (alpha1,)
-            self[xpxl2, ypxl2+1] = color + (alpha2,)
+            plot(xpxl2, ypxl2, alpha1)
+            plot(xpxl2, ypxl2+1, alpha2)
 
         # Internal points.
         for x in range(xpxl1+1, xpxl2):
             alpha1 = rfpart(intery)
             alpha2 =  fpart(intery)
             if steep:
-                self[ipart(intery)  , x] = color + (alpha1,)
-                self[ipart(intery)+1, x] = color + (alpha2,)
+                plot(ipart(intery), x, alpha1)
+                plot(ipart(intery)+1, x, alpha2)
             else:
-                self[x, ipart(intery)  ] = color + (alpha1,)
-                self[x, ipart(intery)+1] = color + (alpha2,)
+                plot(x, ipart(intery), alpha1)
+                plot(x, ipart(intery)+1, alpha2)
             intery += gradient
 
     def strokepolygon(self, points, color, aa=None):
-- 
2.43.0


From 55494ee8d4c1c1455d71be27a8a07558aada98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 37/99] fix: vector.Canvas: gray and color replace each other

setgray() was skipped when the gray had not changed even though a color had
been set since (or given as background), and the other way around.
---
 coral/vector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index aadeb81..0258a00 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -82,9 +82,9 @@ class Canvas:
         self.state = PSDEFAULTS.copy()
         if bgcolor is not None:
             if isinstance(bgcolor, tuple):
-                self.state['color'] = bgcolor
+                self.state.update(color=bgcolor, gray=None)
             else:
-                self.state['gray'] = bgcolor
+                self.state.update(color=None, gray=bgcolor)
         self.deps = set()
 
     def copy(self):
@@ -103,14 +103,14 @@ class Canvas:
             return
         line = "{} v".format(v)
         self.lines.append(line)
-        self.state['gray'] = v
+        self.state.update(color=None, gray=v)
 
     def setcolor(self, r, g, b):
         if self.state['color'] == (r, g, b):
             return
         line = "{} {} {} rgb".format(r, g, b)
         self.lines.append(line)
-        self.state['color'] = (r, g, b)
+        self.state.update(color=(r, g, b), gray=None)
 
     def setink(self, ink):
         if isinstance(ink, tuple):
-- 
2.43.0


From 44505f4ce99b46a18d82f3f1a326ac1384f8c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 38/99] fix: vector.Canvas: grestore also restores the known
 ink

A shape with the same fill and stroke got its stroke in an older ink.
---
 coral/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 0258a00..fbe85b8 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -144,11 +144,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                saved = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = saved
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
@@ -194,11 +196,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                saved = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = saved
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
@@ -217,11 +221,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                saved = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = saved
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
-- 
2.43.0


From 24eace36f24e7806cfce19f38cf6cee731cb6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 39/99] fix: vector.Canvas: a circle starts a new path

It was joined to the current point left by a text or an unpainted shape.
---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index fbe85b8..b0cf0cc 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -139,6 +139,7 @@ class Canvas:
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
+        self.lines.append("np")
         line = "{} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
-- 
2.43.0


From 0de5af3fcae30cc5d2242a78f140b9321e26ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 40/99] fix: vector.Canvas: escape parentheses and backslashes
 in text

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index b0cf0cc..08d5068 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -237,6 +237,8 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        for c in "\\()":
+            text = text.replace(c, "\\" + c)
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From 74ab79887ddcb3423577b5c9ede3281f38a82cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 41/99] fix: vector.Canvas: the known dash is a copy of the
 caller's list

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index 08d5068..f1d78dd 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -129,6 +129,7 @@ class Canvas:
         self.state['width'] = w
 
     def setdash(self, pattern, offset=0):
+        pattern = list(pattern)
         if self.state['dash'] == (pattern, offset):
             return
         psarray = "[{}]".format(" ".join(map(str, pattern)))
-- 
2.43.0


From 20b2cf054a4398520ce1991da94e3f67fd3918d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 42/99] fix: exports use a temporary file of their own and
 quote paths

Two exports at the same time overwrote each other's /tmp/tempeps.ps, and a
path with a space was split by the shell.
---
 coral/vector.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index f1d78dd..fe340bb 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -20,6 +20,7 @@
 
 import os
 import inspect
+import shlex
 import subprocess
 import tempfile
 from functools import reduce
@@ -318,18 +319,18 @@ class Canvas:
 
     def export(self, path, device='png256', *args, **kwargs):
         # useful devices: png{16,48,256,mono,gray,alpha}
-        pspath = "/tmp/tempeps.ps"
-        self.save(pspath, *args, **kwargs)
-        cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-        cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
-        ret = subprocess.call(cmd, shell=True)
-        os.remove(pspath)
-        return ret
+        fd, pspath = tempfile.mkstemp(suffix=".ps")
+        os.close(fd)
+        try:
+            self.save(pspath, *args, **kwargs)
+            return export(pspath, path, device)
+        finally:
+            os.remove(pspath)
 
 def export(pspath, output, device='png256'):
     # useful devices: png{16,48,256,mono,gray,alpha}
     cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, output, pspath)
+    cmd += "-sDEVICE={} -sOutputFile={} {}".format(*map(shlex.quote, (device, output, pspath)))
     ret = subprocess.call(cmd, shell=True)
     return ret
 
@@ -347,7 +348,7 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
             path = fmt.format(i)
             canvas.export(path, *args, **kwargs)
             paths.append(path)
-        paths = " ".join(paths)
-        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, gifpath)
+        paths = " ".join(map(shlex.quote, paths))
+        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, shlex.quote(gifpath))
         status = subprocess.call(cmd, shell=True)
     return status
-- 
2.43.0


From 69870617327c4a1ae26cba46de95ea726cab9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 43/99] fix: shapefile.Reader reads the measures that a record
 has

They were ignored unless the file's measure range excluded zero, which the
Writer never lets happen for measures of one sign.
---
 coral/shapefile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c789f89..0994d70 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -366,8 +366,9 @@ class Reader:
         if shapeType in (13,15,18,31):
             (zmin, zmax) = unpack("<2d", f.read(16))
             record.z = _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8)))
-        # Read m extremes and values if header m values do not equal 0.0
-        if shapeType in (13,15,18,23,25,28,31) and not 0.0 in self.measure:
+        # Measures are optional: read m extremes and values if the record has
+        # room for them
+        if shapeType in (13,15,18,23,25,28,31) and nPoints and next - f.tell() >= 16 + 8 * nPoints:
             (mmin, mmax) = unpack("<2d", f.read(16))
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
@@ -383,7 +384,7 @@ class Reader:
         if shapeType == 11:
             record.z = unpack("<d", f.read(8))
         # Read a single M value
-        if shapeType in (11,21):
+        if shapeType in (11,21) and next - f.tell() >= 8:
             record.m = unpack("<d", f.read(8))
         # Seek to the end of this record as defined by the record header because
         # the shapefile spec doesn't require the actual content to meet the header
-- 
2.43.0


From 27a3a935cddfea9db4d57d41f78e8d78eeb9c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 44/99] fix: shapefile.Reader accepts the lowest negative index

---
 coral/shapefile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 0994d70..bece427 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -307,8 +307,7 @@ class Reader:
         """Provides list-like handling of a record index with a clearer
         error message if the index is out of bounds."""
         if self.numRecords:
-            rmax = self.numRecords - 1
-            if abs(i) > rmax:
+            if not -self.numRecords <= i < self.numRecords:
                 raise IndexError("Shape or Record index out of range.")
             if i < 0: i = range(self.numRecords)[i]
         return i
-- 
2.43.0


From eeafed8ccf6442354a6aabefcd27372d82946cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 45/99] fix: shapefile iterators are not disturbed by other
 reads

shape(i) or record(i) during an iteration moved the iteration too.
---
 coral/shapefile.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index bece427..9927a4c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -446,9 +446,13 @@ class Reader:
         shp = self.__getFileObj(self.shp)
         shp.seek(0,2)
         self.shpLength = shp.tell()
-        shp.seek(100)
-        while shp.tell() < self.shpLength:
-            yield self.__shape()    
+        # Other methods may move the file between two steps.
+        pos = 100
+        while pos < self.shpLength:
+            shp.seek(pos)
+            shape = self.__shape()
+            pos = shp.tell()
+            yield shape
 
     def __dbfHeaderLength(self):
         """Retrieves the header length of a dbf file header."""
@@ -561,9 +565,12 @@ class Reader:
         if not self.numRecords:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
-        f.seek(self.__dbfHeaderLength())
+        pos = self.__dbfHeaderLength()
         for i in xrange(self.numRecords):
+            # Other methods may move the file between two steps.
+            f.seek(pos)
             r = self.__record()
+            pos = f.tell()
             if r:
                 yield r
 
-- 
2.43.0


From f7048cfce4f70a26f219a0f105c5508fa507a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 46/99] fix: shapefile.Reader reads a dbf without records

Its header was read again, from the wrong position.
---
 coral/shapefile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 9927a4c..5ce4050 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -306,7 +306,7 @@ class Reader:
     def __restrictIndex(self, i):
         """Provides list-like handling of a record index with a clearer
         error message if the index is out of bounds."""
-        if self.numRecords:
+        if self.numRecords is not None:
             if not -self.numRecords <= i < self.numRecords:
                 raise IndexError("Shape or Record index out of range.")
             if i < 0: i = range(self.numRecords)[i]
@@ -490,7 +490,7 @@ class Reader:
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in self.fields])
         fmtSize = calcsize(fmt)
@@ -538,7 +538,7 @@ class Reader:
     def record(self, i=0):
         """Returns a specific dbf record based on the supplied index."""
         f = self.__getFileObj(self.dbf)
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         i = self.__restrictIndex(i)
         recSize = self.__recordFmt()[1]
@@ -548,7 +548,7 @@ class Reader:
 
     def records(self):
         """Returns all records in a dbf file."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         records = []
         f = self.__getFileObj(self.dbf)
@@ -562,7 +562,7 @@ class Reader:
     def iterRecords(self):
         """Serves up records in a dbf file as an iterator.
         Useful for large shapefiles or dbf files."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
         pos = self.__dbfHeaderLength()
-- 
2.43.0


From ca290f357894fc3c7066ac0da91af4c7bd0da3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 47/99] fix: shapeRecords() keeps shapes and records paired
 after a deleted record

---
 coral/shapefile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 5ce4050..503aab7 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -585,7 +585,8 @@ class Reader:
         all records in a shapefile."""
         shapeRecords = []
         return [_ShapeRecord(shape=rec[0], record=rec[1]) \
-                                for rec in zip(self.shapes(), self.records())]
+                                for rec in zip(self.shapes(), map(self.record, range(self.numRecords)))
+                                if rec[1] is not None]
 
 class Writer:
     """Provides write support for ESRI Shapefiles."""
-- 
2.43.0


From 06d2307e4b6b57999ff33cdffffe3a4318cf6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 48/99] fix: a blank dbf value is an empty string, not bytes

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 503aab7..21aca0f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -510,7 +510,7 @@ class Reader:
             if name == 'DeletionFlag':
                 continue
             elif not value.strip():
-                record.append(value)
+                record.append('')
                 continue
             elif typ == "N":
                 value = value.replace(self.b('\0'), self.b('')).strip()
-- 
2.43.0


From 60fb974dad781d5ddd52e84282344b7af6c54ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 49/99] fix: shapefile.Writer saves null shapes

They were given the type of the file, and their missing points made save()
fail.
---
 coral/shapefile.py | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 21aca0f..84bf8af 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -623,6 +623,20 @@ class Writer:
                 os.makedirs(pth)
             return open(f, "wb")
 
+    def __typeOf(self, s):
+        """Returns the type that a shape is saved as: all have the type of the
+        file, but for null shapes and those of a multipatch."""
+        if s.shapeType == NULL or self.shapeType == 31:
+            return s.shapeType
+        return self.shapeType
+
+    def __fileType(self):
+        """Returns the type of the first shape that is not null."""
+        for s in self._shapes:
+            if s.shapeType:
+                return s.shapeType
+        return NULL
+
     def __shpFileLength(self):
         """Calculates the file length of the shp file."""
         # Start with header length
@@ -631,6 +645,7 @@ class Writer:
         for s in self._shapes:
             # Add in record header and shape type fields
             size += 12
+            shapeType = self.__typeOf(s)
             # nParts and nPoints do not apply to all shapes
             #if self.shapeType not in (0,1):
             #       nParts = len(s.parts)
@@ -640,43 +655,43 @@ class Writer:
             if hasattr(s,'points'):
                 nPoints = len(s.points)
             # All shape types capable of having a bounding box
-            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
+            if shapeType in (3,5,8,13,15,18,23,25,28,31):
                 size += 32
             # Shape types with parts
-            if self.shapeType in (3,5,13,15,23,25,31):
+            if shapeType in (3,5,13,15,23,25,31):
                 # Parts count
                 size += 4
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if self.shapeType in (3,5,8,13,15,23,25,31):
+            if shapeType in (3,5,8,13,15,23,25,31):
                 # Points count
                 size += 4
                 # Points array
                 size += 16 * nPoints
             # Calc size of part types for Multipatch (31)
-            if self.shapeType == 31:
+            if shapeType == 31:
                 size += nParts * 4
             # Calc z extremes and values
-            if self.shapeType in (13,15,18,31):
+            if shapeType in (13,15,18,31):
                 # z extremes
                 size += 16
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if self.shapeType in (23,25,31):
+            if shapeType in (23,25,31):
                 # m extremes
                 size += 16
                 # m array
                 size += 8 * nPoints
             # Calc a single point
-            if self.shapeType in (1,11,21):
+            if shapeType in (1,11,21):
                 size += 16
             # Calc a single Z value
-            if self.shapeType == 11:
+            if shapeType == 11:
                 size += 8
             # Calc a single M value
-            if self.shapeType in (11,21):
+            if shapeType in (11,21):
                 size += 8
         # Calculate size as 16-bit words
         size //= 2
@@ -689,9 +704,13 @@ class Writer:
             shapeType = self.shapeType
             if shapeTypes:
                 shapeType = shapeTypes[shapes.index(s)]
+            if not s.points:
+                continue
             px, py = list(zip(*s.points))[:2]
             x.extend(px)
             y.extend(py)
+        if not x:
+            return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
     def __zbox(self, shapes, shapeTypes=[]):
@@ -804,8 +823,7 @@ class Writer:
             recNum += 1
             start = f.tell()
             # Shape Type
-            if self.shapeType != 31:
-                s.shapeType = self.shapeType
+            s.shapeType = self.__typeOf(s)
             f.write(pack("<i", s.shapeType))
             # All shape types capable of having a bounding box
             if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
@@ -1018,7 +1036,7 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shp'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = self.__fileType()
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
@@ -1028,7 +1046,7 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shx'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = self.__fileType()
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
-- 
2.43.0


From e269363dee2235afcf778a832af3f07fe33924c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 50/99] fix: the shp header counts the measures that are
 written

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 84bf8af..d66589a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -679,7 +679,7 @@ class Writer:
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if shapeType in (23,25,31):
+            if shapeType in (13,15,18,23,25,28,31):
                 # m extremes
                 size += 16
                 # m array
-- 
2.43.0


From 7b304f26c9573acc859bb1939e391cb3d91e1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 51/99] fix: shapefile.Writer saves Z shapes made with poly()

Only shapes that come from a Reader have a z attribute.
---
 coral/shapefile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index d66589a..58f1cc5 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -861,7 +861,8 @@ class Writer:
                     raise ShapefileException("Failed to write elevation extremes for record %s. Expected floats." % recNum)
                 try:
                     #[f.write(pack("<d", p[2])) for p in s.points]
-                    f.write(pack("<%sd" % len(s.z), *s.z))
+                    z = s.z if hasattr(s, "z") else [p[2] for p in s.points]
+                    f.write(pack("<%sd" % len(z), *z))
                 except error:
                     raise ShapefileException("Failed to write elevation values for record %s. Expected floats." % recNum)
             # Write m extremes and values
-- 
2.43.0


From 308be315dbb72b8ae26b4ae85c541fb2b4eaca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 52/99] fix: shapes with elevations or measures survive
 shapefile.Editor

Saving them failed, or lost their ranges.
---
 coral/shapefile.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 58f1cc5..9c9b989 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -716,6 +716,10 @@ class Writer:
     def __zbox(self, shapes, shapeTypes=[]):
         z = []
         for s in shapes:
+            # Shapes from a Reader have their elevations apart.
+            if hasattr(s, "z"):
+                z.extend(s.z)
+                continue
             try:
                 for p in s.points:
                     z.append(p[2])
@@ -727,6 +731,10 @@ class Writer:
     def __mbox(self, shapes, shapeTypes=[]):
         m = [0]
         for s in shapes:
+            # Shapes from a Reader have their measures apart.
+            if hasattr(s, "m"):
+                m.extend(v for v in s.m if v is not None)
+                continue
             try:
                 for p in s.points:
                     m.append(p[3])
@@ -734,6 +742,13 @@ class Writer:
                 pass
         return [min(m), max(m)]
 
+    def __measures(self, s):
+        """Returns the measures of a shape, one for each point."""
+        if hasattr(s, "m"):
+            # None stands for "no data": any value below -1e38.
+            return [-10e38 if v is None else v for v in s.m]
+        return [p[3] if len(p) > 3 else 0 for p in s.points]
+
     def bbox(self):
         """Returns the current bounding box for the shapefile which is
         the lower-left and upper-right corners. It does not contain the
@@ -872,7 +887,7 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write measure extremes for record %s. Expected floats" % recNum)
                 try:
-                    [f.write(pack("<d", p[3])) for p in s.points]
+                    [f.write(pack("<d", m)) for m in self.__measures(s)]
                 except error:
                     raise ShapefileException("Failed to write measure values for record %s. Expected floats" % recNum)
             # Write a single point
-- 
2.43.0


From e67e1817fb7f6657d3f9e18323eb49856ae975f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 53/99] fix: shapefile.Writer can save again after more shapes
 are added

The index listed the offsets of the first save before the new ones.
---
 coral/shapefile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 9c9b989..c9a46e8 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -830,6 +830,8 @@ class Writer:
         """Write the shp records"""
         f = self.__getFileObj(self.shp)
         f.seek(100)
+        self._offsets = []
+        self._lengths = []
         recNum = 1
         for s in self._shapes:
             self._offsets.append(f.tell())
-- 
2.43.0


From ed90455da334b5c412f4f7428bdfd199949a099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 54/99] fix: each multipatch gets part types of its own

The default list grew with every shape and was shared by all.
---
 coral/shapefile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c9a46e8..3f3cdc5 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1008,8 +1008,7 @@ class Writer:
                 polyShape.points.append(point)
         if polyShape.shapeType == 31:
             if not partTypes:
-                for part in parts:
-                    partTypes.append(polyShape.shapeType)
+                partTypes = [polyShape.shapeType] * len(parts)
             polyShape.partTypes = partTypes
         self._shapes.append(polyShape)
 
-- 
2.43.0


From be9136455acec8d4c4909d2b34fdf6af189a6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 55/99] fix: shapefile.Writer.record() with some of the fields

The values given moved to the first columns, and the short row shifted all
the rows after it.
---
 coral/shapefile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 3f3cdc5..94aeca9 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -959,7 +959,7 @@ class Writer:
                 if fieldType.upper() == "N":
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
-                    value = str(value)[0].upper()
+                    value = str(value)[:1].upper().ljust(size)
                 else:
                     value = str(value)[:size].ljust(size)
                 assert len(value) == size
@@ -1038,6 +1038,9 @@ class Writer:
                         record.append("")
                     else:
                         record.append(val)
+                elif not field[0].startswith("Deletion"):
+                    # Values that are not given are blank.
+                    record.append("")
         if record:
             self.records.append(record)
 
-- 
2.43.0


From 0bfd02669fc2ba8905d8ab433f22726b58f2e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 56/99] fix: dbf text is cut and padded by its encoded size

Text that is longer in bytes than in characters shifted all that followed.
---
 coral/shapefile.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 94aeca9..7e203b9 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -957,13 +957,16 @@ class Writer:
                 fieldType = fieldType.upper()
                 size = int(size)
                 if fieldType.upper() == "N":
-                    value = str(value).rjust(size)
+                    value = self.b(str(value).rjust(size))
                 elif fieldType == 'L':
-                    value = str(value)[:1].upper().ljust(size)
+                    value = self.b(str(value)[:1].upper().ljust(size))
                 else:
-                    value = str(value)[:size].ljust(size)
+                    value = self.b(str(value))
+                    if len(value) > size:
+                        # Do not leave half a character at the end.
+                        value = self.b(value[:size].decode(self.encoding, "ignore"))
+                    value = value.ljust(size)
                 assert len(value) == size
-                value = self.b(value)
                 f.write(value)
 
     def null(self):
-- 
2.43.0


From 06fd400ae8af1741e0fe7e9e60f360f8e0fee6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 57/99] fix: Editor.point() without z and m can be saved

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 7e203b9..381d31a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1203,7 +1203,7 @@ class Editor(Writer):
             shape, part, point = addr
             self._shapes[shape][part][point] = [x, y, z, m]
         else:
-            Writer.point(self, x, y, z, m)
+            Writer.point(self, x, y, z or 0, m or 0)
         if self.autoBalance:
             self.balance()
 
-- 
2.43.0


From 5ebf9ffc4ccc440e8501e580a8d0e898bfb1eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 58/99] fix: geocentroid stops for regions centred on or near a
 pole

---
 coral/coord.py | 4 +++-
 coral/proj.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 5a7e376..dbcd807 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -215,7 +215,9 @@ def geocentroid(region, bb=None, epsilon=None):
         cx /= sw
         cy /= sw
         c1 = prj.rect2geo(cx, cy)
-        if abs(c1[0] - c0[0]) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:
+        # Near a pole a tiny displacement is a large difference of longitude.
+        dlon = (c1[0] - c0[0]) * math.cos(math.radians(c1[1]))
+        if abs(dlon) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:
             break
         c0 = c1
     return c1
diff --git a/coral/proj.py b/coral/proj.py
index 316b19e..7e1a832 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -388,7 +388,9 @@ class AzimuthalEqualArea(Proj):
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
         sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
-        lat = math.asin(max(-1, min(sinlat, 1)))
+        # The arc tangent keeps its precision near the poles.
+        coslat = math.hypot(x * sinc, p * self.coslat0 * cosc - y * self.sinlat0 * sinc) / p
+        lat = math.atan2(sinlat, coslat)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 57ce6459464f14e974bb40ad25783e3a2c1523d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 59/99] fix: pf writer's box covers a part that is the single
 point (0, 0)

---
 coral/pf.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 87747cd..ffbfd7f 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -183,14 +183,10 @@ class Writer:
                 part = part[:-1]
                 parts[i] = part
         name.encode("ascii") # or fail now, not at close().
-        bb = None
-        partlen = []
-        for part in parts:
-            if bb is None:
-                bb = bbox.BBox(part)
-            else:
-                bb |= bbox.BBox(part)
-            partlen.append(len(part))
+        # One box of all points: a part that is just the point (0, 0) has an
+        # empty box, that a union of boxes would leave out.
+        bb = bbox.BBox(point for part in parts for point in part)
+        partlen = [len(part) for part in parts]
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
-- 
2.43.0


From 5e9c9c000ba37a78abaa5ba417c19e541fecdcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:08 +0000
Subject: [PATCH 60/99] fix: pf writer keeps nothing of an entity with a NaN
 coordinate

---
 coral/pf.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index ffbfd7f..ed02f89 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -199,9 +199,9 @@ class Writer:
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-        self.names.append(name)
-        self.partlens.append(partlen)
-        self.bboxes.append((x0, x1, y0, y1))
+        box = x0, x1, y0, y1
+        errs = []
+        buffers = []
         x0 = x0 * 360 / UMAX2 - 180
         x1 = x1 * 360 / UMAX2 - 180
         y0 = y0 * 180 / UMAX2 - 90
@@ -218,8 +218,14 @@ class Writer:
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
                 err = coord.haversine(lon1, lat1, lon2, lat2)
-                self.errs.append(err)
-                self.buffers.append(data)
+                errs.append(err)
+                buffers.append(data)
+        # A rejected entity must leave nothing behind.
+        self.names.append(name)
+        self.partlens.append(partlen)
+        self.bboxes.append(box)
+        self.errs += errs
+        self.buffers += buffers
 
     def close(self):
         with open(self.path, "wb") as pf:
-- 
2.43.0


From d4c47556adf55116f25de8d495c9bb129e45ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 61/99] fix: Editor drops the shapes of deleted records along
 with them

---
 coral/shapefile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 381d31a..2f6e882 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1122,9 +1122,12 @@ class Editor(Writer):
             if os.path.isfile("%s.shp" % base):
                 r = Reader(base)
                 Writer.__init__(self, r.shapeType)
-                self._shapes = r.shapes()
+                # Deleted records go along with their shapes.
+                rows = [r.record(i) for i in range(r.numRecords)]
+                self._shapes = [s for i, s in enumerate(r.shapes())
+                                if i >= len(rows) or rows[i] is not None]
                 self.fields = r.fields
-                self.records = r.records()
+                self.records = [row for row in rows if row is not None]
 
     def select(self, expr):
         """Select one or more shapes (to be implemented)"""
-- 
2.43.0


From 6aaccd8b995b660dc44f071298407f6b8641de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 62/99] fix: shapefile: read and write the points of
 MultiPointZ and MultiPointM shapes

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 2f6e882..8349586 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -350,7 +350,7 @@ class Reader:
         if shapeType in (3,5,13,15,23,25,31):
             nParts = unpack("<i", f.read(4))[0]
         # Shape types with points
-        if shapeType in (3,5,8,13,15,23,25,31):
+        if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
         if nParts:
@@ -664,7 +664,7 @@ class Writer:
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if shapeType in (3,5,8,13,15,23,25,31):
+            if shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Points count
                 size += 4
                 # Points array
@@ -853,7 +853,7 @@ class Writer:
                 # Number of parts
                 f.write(pack("<i", len(s.parts)))
             # Shape types with multiple points per record
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Number of points
                 f.write(pack("<i", len(s.points)))
             # Write part indexes
@@ -865,7 +865,7 @@ class Writer:
                 for pt in s.partTypes:
                     f.write(pack("<i", pt))
             # Write points for multiple-point records
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 try:
                     [f.write(pack("<2d", *p[:2])) for p in s.points]
                 except error:
-- 
2.43.0


From 9c6622eb0e6da3d41bccf72e3ecf47fc74d3bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:42 +0000
Subject: [PATCH 63/99] fix: shapefile: Reader.load() forgets the file loaded
 before

---
 coral/shapefile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8349586..d9ffbf1 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -273,6 +273,11 @@ class Reader:
         constructor with the file object or file name as an
         argument."""
         if shapefile:
+            # Nothing of a file loaded before holds for this one.
+            self._offsets = []
+            self.numRecords = None
+            self.fields = []
+            self.__dbfHdrLength = 0
             (shapeName, ext) = os.path.splitext(shapefile)
             self.shapeName = shapeName
             try:
-- 
2.43.0


From 0f0d518d513577439c83cb2faca0279273ffdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:17 +0000
Subject: [PATCH 64/99] fix: stats: cache_clear() and cache_info() miss the
 caches of max and min

---
 coral/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/stats.py b/coral/stats.py
index 4145aa7..6887a70 100644
--- a/coral/stats.py
+++ b/coral/stats.py
@@ -89,7 +89,7 @@ def gini_deaton(seq):
     g = (n + 1) / (n - 1) - 2 * s / (n * (n - 1) * u)
     return g
 
-memos = [sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
+memos = [max, min, sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
 
 CacheInfo = collections.namedtuple("CacheInfo", "hits, misses, maxsize, currsize")
 
-- 
2.43.0


From ef85e995bdc789248e5cdc75993258b0f2b6effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 65/99] fix: abbreviations() of names with fewer letters than
 the length asked for

---
 coral/names.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 6bf9d54..ee9519b 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -145,7 +145,8 @@ def abbreviations(names, length, extras=()):
                 ic = (initi, tname[initi])
                 ics.remove(ic)
                 ics.insert(j, ic)
-            for comb in itertools.combinations(ics, length):
+            # Without spaces, the name may be shorter than asked for.
+            for comb in itertools.combinations(ics, min(length, len(ics))):
                 comb = list(comb)
                 comb.sort(key=lambda ic: ic[0])
                 abb = "".join(c for i, c in comb)
-- 
2.43.0


From 4e085255296aad1b63295c229ea4fd211dd0c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:03 +0000
Subject: [PATCH 66/99] fix: anti-aliased lines on a gray canvas

---
 coral/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 0d64c45..2863f77 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -119,11 +119,13 @@ class BaseCanvas:
         if dx == 0:
             return # no length (dy is not larger than dx).
         gradient = dy / dx
+        # Shades of gray may be given as plain numbers.
+        fg = color if isinstance(color, tuple) else (color,)
 
         def plot(x, y, alpha):
             # The pair of the last row or column is out of the canvas.
             if 0 <= x < self.width and 0 <= y < self.height:
-                self[x, y] = color + (alpha,)
+                self[x, y] = fg + (alpha,)
 
         # Line start.
         xend = nearest(x0)
-- 
2.43.0


From 23bdc1902800632db762d20e1b6bccce782ee71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:03 +0000
Subject: [PATCH 67/99] fix: aaline() weighs the last pixel by the part of it
 that the line covers

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 2863f77..ea2c7a5 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -146,7 +146,7 @@ class BaseCanvas:
         # Line end.
         xend = nearest(x1)
         yend = y1 + gradient * (xend - x1)
-        xgap = rfpart(x1 + 0.5)
+        xgap = fpart(x1 + 0.5)
         xpxl2 = xend
         ypxl2 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
-- 
2.43.0


From a387386c486ccb3bc93c9358982cd54946a6f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:14 +0000
Subject: [PATCH 68/99] fix: addroundedpolygon() leaves nothing on the
 PostScript stack

---
 coral/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index fe340bb..11183f7 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -218,7 +218,8 @@ class Canvas:
         line = "{} {} m".format(*startend)
         self.lines.append(line)
         for (x1, y1), (x2, y2) in zip(poly[1:], poly[2:] + poly[:1]):
-            line = "{} {} {} {} {} arcto".format(x1, y1, x2, y2, radius)
+            # arcto leaves the tangent points on the stack.
+            line = "{} {} {} {} {} arcto 4 {{pop}} repeat".format(x1, y1, x2, y2, radius)
             self.lines.append(line)
         self.lines.append("cp")
         if fill is not None:
-- 
2.43.0


From 1b1b45c8aca5b22832b51e04cc5e48a322d831f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:14 +0000
Subject: [PATCH 69/99] fix: animation() leaves the boxes of the frames alone

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 11183f7..2024b93 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -345,6 +345,8 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
         bb = bb.scale(1.05)
         paths = []
         for i, canvas in tqdm.tqdm(enumerate(frames), total=n, desc="anim"):
+            # The frames keep their own boxes.
+            canvas = canvas.copy()
             canvas.bbox = bb
             path = fmt.format(i)
             canvas.export(path, *args, **kwargs)
-- 
2.43.0


From b48eeae8531b781b2bc05945479beed6cb9cecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 70/99] fix: pf writer refuses a name with a NUL, that would
 end it early

---
 coral/pf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index ed02f89..48f33f8 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -182,7 +182,8 @@ class Writer:
             if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
-        name.encode("ascii") # or fail now, not at close().
+        if b'\x00' in name.encode("ascii"): # fail now, not at close().
+            raise ValueError("NUL in name: {!r}".format(name))
         # One box of all points: a part that is just the point (0, 0) has an
         # empty box, that a union of boxes would leave out.
         bb = bbox.BBox(point for part in parts for point in part)
-- 
2.43.0


From 05b7debaf7b1437d98d1b92df64070f7a464711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 71/99] fix: RangeGrid writer refuses an id with a line break

---
 coral/rg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index 6a790e6..2debf96 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -184,6 +184,9 @@ class Writer:
         rg = self.rg
         if id_ is None:
             id_ = len(self.index)
+        # The index has a line for each ID.
+        if '\n' in str(id_) or '\r' in str(id_):
+            raise ValueError("line break in id: {!r}".format(id_))
         lens = []
         buffers = []
         for rows in segs:
-- 
2.43.0


From 40711e4881a9977e3e75792a6c1675e1999663f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 72/99] fix: RangeGrid reader opens data sets with any column
 names

---
 coral/rg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 2debf96..7ce4db8 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -259,7 +259,9 @@ class Reader:
             else:
                 raise TypeError
         self.row = GRow(*fields)
-        self.nt = collections.namedtuple("Row", (field.name for field in fields))
+        names = [field.name for field in fields]
+        # Names that can not be attributes are replaced by "_0", "_1" etc.
+        self.nt = collections.namedtuple("Row", names, rename=True)
         self.datapos = rg.tell()
 
     def read(self, id_=None):
-- 
2.43.0


From ad5e011f2dc7941cd46614af07cf574d6d0774b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 73/99] fix: geocentroid() of regions with polygons without
 area

---
 coral/coord.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index dbcd807..f3ec0fb 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -203,14 +203,12 @@ def geocentroid(region, bb=None, epsilon=None):
                 cx += (x0 + x1) * f
                 cy += (y0 + y1) * f
                 sa += f
-            d = 3 * sa
-            cx /= d
-            cy /= d
-            cw.append(((cx, cy), sa))
+            cw.append(((cx / 3, cy / 3), sa))
+        # A polygon may have no area, so its own centroid is not needed.
         cx = cy = sw = 0
         for (x, y), w in cw:
-            cx += x * w
-            cy += y * w
+            cx += x
+            cy += y
             sw += w
         cx /= sw
         cy /= sw
-- 
2.43.0


From 64fdcca50f1a19e3da2fae6625d1e3b20bfed1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 74/99] fix: loadnames() keeps the white space at the end of
 names

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b75a229..01678f1 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -116,7 +116,7 @@ class Frame:
         with open("{}.names".format(key), "r") as f:
             names = []
             for line in f:
-                names.append(line.rstrip())
+                names.append(line.rstrip("\n"))
         return names
 
 def load(path):
-- 
2.43.0


From 3320bd76d87942280a1fecc26b491947d141c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 75/99] fix: shapefile.Reader keeps no part of an index that is
 cut off

---
 coral/shapefile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index d9ffbf1..8249f57 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -409,10 +409,12 @@ class Reader:
             numRecords = shxRecordLength // 8
             # Jump to the first record.
             shx.seek(100)
+            offsets = []
             for r in range(numRecords):
                 # Offsets are 16-bit words just like the file length
-                self._offsets.append(unpack(">i", shx.read(4))[0] * 2)
+                offsets.append(unpack(">i", shx.read(4))[0] * 2)
                 shx.seek(shx.tell() + 4)
+            self._offsets = offsets
         if not i == None:
             return self._offsets[i]
 
-- 
2.43.0


From 84b100ed11da45e8ae385b252dae746b73e34498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 76/99] fix: Editor.delete removes a shape with its record, the
 first shape too

---
 coral/shapefile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8249f57..a9384de 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1150,9 +1150,11 @@ class Editor(Writer):
         # shape, part
         elif shape and part and not point:
             del self._shapes[shape][part]
-        # shape
-        elif shape and not part and not point:
-            del self._shapes[shape]
+        # shape, with its record
+        elif shape is not None and not part and not point:
+            i = range(len(self._shapes))[shape]
+            del self._shapes[i]
+            del self.records[i:i+1]
         # point
         elif not shape and not part and point:
             for s in self._shapes:
-- 
2.43.0


From 65727fe9cb0bbcdd56cabff2a7fe8ab725ee6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 77/99] fix: field types are written in upper case, the only
 one that the Reader knows

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a9384de..b7f8a36 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -826,7 +826,7 @@ class Writer:
             name = self.b(name)
             name = name.replace(self.b(' '), self.b('_'))
             name = name.ljust(11).replace(self.b(' '), self.b('\x00'))
-            fieldType = self.b(fieldType)
+            fieldType = self.b(fieldType.upper())
             size = int(size)
             fld = pack('<11sc4xBB14x', name, fieldType, size, decimal)
             f.write(fld)
-- 
2.43.0


From 416fb7f99b7cfe690350d15798eaf49b6e51d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 78/99] fix: ObliqMercator raises a ProjectionError at the ends
 of its axis

---
 coral/proj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index 7e1a832..cbe0921 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -196,6 +196,9 @@ class ObliqMercator(Proj):
         lon, lat = math.radians(lon), math.radians(lat)
         c, s = math.cos(self.lat0), math.sin(self.lat0)
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
+        if abs(a) >= 1:
+            lon, lat = math.degrees(lon), math.degrees(lat)
+            raise ProjectionError("Invalid coordinates for this projection: {}, {}.".format(lon, lat))
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
         x = self.r * math.atan2(v, h)
-- 
2.43.0


From d6a9f6cc5ad8277df76a461d96c1e276ecbc5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 79/99] fix: azimuthal projections do not put the antipode near
 their origin

---
 coral/proj.py | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index cbe0921..c66b62d 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -35,6 +35,13 @@ def corangle(a):
 
 class ProjectionError(Exception): pass
 
+def polarsin(x, y, cosc):
+    "Sine of the distance from the origin of an azimuthal projection."
+    sinc = math.hypot(x, y)
+    if not sinc and cosc < 0:
+        raise ProjectionError("Invalid coordinates for this projection: antipode of the origin.")
+    return sinc
+
 # See http://www.epsg-registry.org/ for datums.
 
 # a = equatorial radius (meters)
@@ -272,11 +279,13 @@ class Stereographic(Proj):
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
-        k = 2 / (1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon)
-        x = y = self.r * k
-        x *= coslat * sinlon
-        y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
-        return x, y
+        cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
+        x = coslat * sinlon
+        y = self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        sinc = polarsin(x, y, cosc)
+        c = math.atan2(sinc, cosc)
+        k = 2 * math.tan(c / 2) / sinc if sinc else 1
+        return self.r * k * x, self.r * k * y
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
@@ -321,12 +330,12 @@ class AzimuthalEquidistant(Proj):
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(max(-1, min(cosc, 1)))
-        k = c / math.sin(c) if c else 1
-        x = y = self.r * k
-        x *= coslat * sinlon
-        y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
-        return x, y
+        x = coslat * sinlon
+        y = self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        sinc = polarsin(x, y, cosc)
+        c = math.atan2(sinc, cosc)
+        k = c / sinc if sinc else 1
+        return self.r * k * x, self.r * k * y
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
@@ -367,17 +376,22 @@ class AzimuthalEqualArea(Proj):
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
-        k = math.sqrt(2 / (1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon))
-        x = y = self.r * k
-        x *= coslat * sinlon
-        y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
-        return x, y
+        cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
+        x = coslat * sinlon
+        y = self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        sinc = polarsin(x, y, cosc)
+        c = math.atan2(sinc, cosc)
+        k = 2 * math.sin(c / 2) / sinc if sinc else 1
+        return self.r * k * x, self.r * k * y
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
         if p == 0:
             return math.degrees(self.lon0), math.degrees(self.lat0)
-        c = 2 * math.asin(p / (2 * self.r))
+        sinhalfc = p / (2 * self.r)
+        if 1 < sinhalfc < 1 + 1e-9:
+            sinhalfc = 1 # rounding may push it past 1 near the antipode.
+        c = 2 * math.asin(sinhalfc)
         cosc = math.cos(c)
         sinc = math.sin(c)
         if self.lat0 == math.pi / 2:
-- 
2.43.0


From dfc98e5edce2965553b160903f4949ab39d611cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 80/99] fix: null shapes become P entities without points
 instead of failing

---
 coral/pf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 48f33f8..4392417 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -145,7 +145,9 @@ def sf2pf(sfpath, pfpath, getname, size=4):
     for sr in sf.shapeRecords():
         name = getname(sr.record)
         points = sr.shape.points
-        offsets = list(sr.shape.parts) + [len(points)]
+        # A null shape has no parts.
+        starts = list(sr.shape.parts) if points else []
+        offsets = starts + [len(points)]
         parts = [points[a:b] for a, b in zip(offsets[:-1], offsets[1:])]
         pf.write(name, parts)
     return pf.close()
@@ -186,7 +188,8 @@ class Writer:
             raise ValueError("NUL in name: {!r}".format(name))
         # One box of all points: a part that is just the point (0, 0) has an
         # empty box, that a union of boxes would leave out.
-        bb = bbox.BBox(point for part in parts for point in part)
+        points = [point for part in parts for point in part]
+        bb = bbox.BBox(points or [(0, 0)])
         partlen = [len(part) for part in parts]
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
-- 
2.43.0


From 1f771f740e60155d0bfe022612775546e246829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 81/99] fix: measures below -1e38 are no data

---
 coral/shapefile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index b7f8a36..a259b38 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -374,10 +374,10 @@ class Reader:
         # room for them
         if shapeType in (13,15,18,23,25,28,31) and nPoints and next - f.tell() >= 16 + 8 * nPoints:
             (mmin, mmax) = unpack("<2d", f.read(16))
-            # Measure values less than -10e38 are nodata values according to the spec
+            # Measure values less than -1e38 are nodata values according to the spec
             record.m = []
             for m in _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8))):
-                if m > -10e38:
+                if m >= -1e38:
                     record.m.append(m)
                 else:
                     record.m.append(None)
-- 
2.43.0


From 51ffb37bc4dda889dbd15f0c6c2e6c13113f1102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 82/99] fix: the measure range of a shapefile is that of its
 measures

---
 coral/shapefile.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a259b38..ac2f2c4 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -736,17 +736,9 @@ class Writer:
         return [min(z), max(z)]
 
     def __mbox(self, shapes, shapeTypes=[]):
-        m = [0]
-        for s in shapes:
-            # Shapes from a Reader have their measures apart.
-            if hasattr(s, "m"):
-                m.extend(v for v in s.m if v is not None)
-                continue
-            try:
-                for p in s.points:
-                    m.append(p[3])
-            except IndexError:
-                pass
+        # What stands for "no data" is no extreme.
+        m = [v for s in shapes for v in self.__measures(s) if v >= -1e38]
+        if not m: m.append(0)
         return [min(m), max(m)]
 
     def __measures(self, s):
-- 
2.43.0


From b05d216252769201c6a6067631989f760549354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 83/99] fix: a shapefile header has no elevation or measure
 range where its shapes have none

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index ac2f2c4..34a6beb 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -785,10 +785,10 @@ class Writer:
                 raise ShapefileException("Failed to write shapefile bounding box. Floats required.")
         else:
             f.write(pack("<4d", 0,0,0,0))
-        # Elevation
-        z = self.zbox()
-        # Measure
-        m = self.mbox()
+        # Elevation, if shapes of this type have one
+        z = self.zbox() if self.shapeType in (11,13,15,18,31) else [0, 0]
+        # Measure, likewise
+        m = self.mbox() if self.shapeType in (11,13,15,18,21,23,25,28,31) else [0, 0]
         try:
             f.write(pack("<4d", z[0], z[1], m[0], m[1]))
         except error:
-- 
2.43.0


From d3aa7b8ee0a6df3c295e83ecf5d25dc5b303f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 84/99] fix: None is a blank in shapefile records given by
 position too

---
 coral/shapefile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 34a6beb..15926b4 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1031,7 +1031,8 @@ class Writer:
         # Compensate for deletion flag
         if self.fields[0][0].startswith("Deletion"): fieldCount -= 1
         if recordList:
-            [record.append(recordList[i]) for i in range(fieldCount)]
+            # As by name, None is a blank.
+            record = ["" if recordList[i] is None else recordList[i] for i in range(fieldCount)]
         elif recordDict:
             for field in self.fields:
                 if field[0] in recordDict:
-- 
2.43.0


From 83aeedcb8c24bc330515d63a825e7b5d82bc1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 85/99] fix: reals are written to the decimals of their
 shapefile field

---
 coral/shapefile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 15926b4..eefc942 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -956,6 +956,10 @@ class Writer:
                 fieldType = fieldType.upper()
                 size = int(size)
                 if fieldType.upper() == "N":
+                    # Do not write more decimals than an integer field has, or
+                    # than a field has room for.
+                    if isinstance(value, float) and (not dec or len(str(value)) > size):
+                        value = "{:.{}f}".format(value, int(dec))
                     value = self.b(str(value).rjust(size))
                 elif fieldType == 'L':
                     value = self.b(str(value)[:1].upper().ljust(size))
-- 
2.43.0


From 902f250bf32ac64a26ce339070f0f97980c7af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 86/99] fix: keep attribute fields whose name begins with
 Deletion

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index eefc942..cffebf7 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -803,7 +803,7 @@ class Writer:
         year -= 1900
         # Remove deletion flag placeholder from fields
         for field in self.fields:
-            if field[0].startswith("Deletion"):
+            if field[0] == "DeletionFlag":
                 self.fields.remove(field)
         numRecs = len(self.records)
         numFields = len(self.fields)
@@ -950,7 +950,7 @@ class Writer:
         """Writes the dbf records."""
         f = self.__getFileObj(self.dbf)
         for record in self.records:
-            if not self.fields[0][0].startswith("Deletion"):
+            if self.fields[0][0] != "DeletionFlag":
                 f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
@@ -1033,7 +1033,7 @@ class Writer:
         record = []
         fieldCount = len(self.fields)
         # Compensate for deletion flag
-        if self.fields[0][0].startswith("Deletion"): fieldCount -= 1
+        if self.fields[0][0] == "DeletionFlag": fieldCount -= 1
         if recordList:
             # As by name, None is a blank.
             record = ["" if recordList[i] is None else recordList[i] for i in range(fieldCount)]
@@ -1045,7 +1045,7 @@ class Writer:
                         record.append("")
                     else:
                         record.append(val)
-                elif not field[0].startswith("Deletion"):
+                elif field[0] != "DeletionFlag":
                     # Values that are not given are blank.
                     record.append("")
         if record:
-- 
2.43.0


From 613ce8deb9e1b8850b8ccd0e5ec6e36cd0cd0624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:00 +0000
Subject: [PATCH 87/99] fix: refuse infinite coordinates in P files instead of
 never returning

---
 coral/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 4392417..0039948 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -169,6 +169,8 @@ class Writer:
         parts = [[None] * len(polygon) for polygon in polygons]
         for i, polygon in enumerate(polygons):
             for j, (lon, lat) in enumerate(polygon):
+                # Whole turns first; an infinite angle is refused here.
+                lon, lat = math.fmod(lon, 360), math.fmod(lat, 180)
                 while lon < -180:
                     lon += 360
                 while lon > 180:
-- 
2.43.0


From fbed2229e379946600c0416d15746f292b606968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 88/99] fix: text tables end rows at line ends only, not at
 every Unicode separator

---
 coral/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 6e7c877..0a3d2f5 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -80,7 +80,8 @@ def delkeys(table, keys_to_del):
 
 def readfile(path, keys=None, sep=',', comm='#'):
     table = []
-    with codecs.open(path, "r", "utf8") as f:
+    # (codecs.open() also ends lines at characters like U+2028.)
+    with open(path, "r", encoding="utf8") as f:
         # Spaces around a line are ignored, unless they are separators.
         blank = "".join(c for c in " \t\r\n" if c not in sep)
         line = ""
-- 
2.43.0


From 44cd5ce26869a8bb60710e12db71c9917fb8ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:02 +0000
Subject: [PATCH 89/99] fix: the columns of joined tables come in the same
 order in every run

---
 coral/table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index 0a3d2f5..f9567d3 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -25,9 +25,10 @@ def join(t1, t2, pivots=None, keys=None):
     keys1 = t1[0]._fields
     keys2 = t2[0]._fields
     if pivots is None:
-        pivots = list(set(keys1) & set(keys2))
+        pivots = [key for key in keys1 if key in keys2]
     if keys is None:
-        keys = list(set(keys1) | set(keys2))
+        # In this order, whatever the hash seed is.
+        keys = list(keys1) + [key for key in keys2 if key not in keys1]
     Row = collections.namedtuple("Row", keys)
     table = []
     for r1 in t1:
-- 
2.43.0


From b136f79ae9848dc5c26ae0123abb92bdb0d1528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:02 +0000
Subject: [PATCH 90/99] fix: the index of a RangeGrid data set does not depend
 on the locale

---
 coral/rg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 7ce4db8..3886434 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -123,7 +123,7 @@ def readsvlv(f):
     return v
 
 def _writeindex(path, index):
-    with open(path, "w") as md:
+    with open(path, "w", encoding="utf8") as md:
         n = len(index)
         md.write("{}\n".format(n))
         for eid, elens in index:
@@ -132,7 +132,7 @@ def _writeindex(path, index):
 
 def _readindex(path):
     index = []
-    with open(path, "r") as md:
+    with open(path, "r", encoding="utf8") as md:
         n = int(md.readline())
         for i in range(n):
             eid, ensegs = md.readline().rsplit(" ", 1)
-- 
2.43.0


From 49b6a84e347faebf1bc14130a731817943389b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 91/99] fix: a shapefile part saved to a path is whole when the
 call returns

---
 coral/shapefile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index cffebf7..246be7d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1067,6 +1067,8 @@ class Writer:
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
+        if self.shp is not target: # opened here.
+            self.shp.close()
 
     def saveShx(self, target):
         """Save an shx file."""
@@ -1077,6 +1079,8 @@ class Writer:
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
+        if self.shx is not target: # opened here.
+            self.shx.close()
 
     def saveDbf(self, target):
         """Save a dbf file."""
@@ -1085,6 +1089,8 @@ class Writer:
         self.dbf = self.__getFileObj(target)
         self.__dbfHeader()
         self.__dbfRecords()
+        if self.dbf is not target: # opened here.
+            self.dbf.close()
 
     def save(self, target=None, shp=None, shx=None, dbf=None):
         """Save the shapefile data to three files or
-- 
2.43.0


From d071007be5481f1294be9b98623267b41829037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 92/99] fix: pages with other letters are saved the same in
 every locale

---
 coral/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 2024b93..5e06c12 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -314,7 +314,7 @@ class Canvas:
             line = "{} {} translate".format(-cx, -cy)
             pre.append(line)
         pre.append("")
-        with open(path, "w") as f:
+        with open(path, "w", encoding="utf8") as f:
             for line in pre + self.lines:
                 f.write(line + '\n')
 
-- 
2.43.0


From 7cfea0a8794d21d556f677405658ac0d33487f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:08 +0000
Subject: [PATCH 93/99] fix: poly() leaves the parts and points that it is
 given as they are

---
 coral/shapefile.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 246be7d..cac122b 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -997,17 +997,14 @@ class Writer:
         polyShape = _Shape(shapeType)
         polyShape.parts = []
         polyShape.points = []
-        # Make sure polygons are closed
-        if shapeType in (5,15,25,31):
-            for part in parts:
-                    if part[0] != part[-1]:
-                        part.append(part[0])
         for part in parts:
             polyShape.parts.append(len(polyShape.points))
+            # Work on copies: what was given is still needed by the caller.
+            part = [list(point) for point in part]
+            # Make sure polygons are closed
+            if shapeType in (5,15,25,31) and part[0] != part[-1]:
+                part.append(list(part[0]))
             for point in part:
-                # Ensure point is list
-                if not isinstance(point, list):
-                    point = list(point)
                 # Make sure point has z and m values
                 while len(point) < 4:
                     point.append(0)
-- 
2.43.0


From 888bc87c6efb35a56e617f61b870ebd021ef0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:58 +0000
Subject: [PATCH 94/99] fix: saving a shapefile leaves a list of fields that is
 a Reader's as it is

---
 coral/shapefile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index cac122b..5cc4eef 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -802,9 +802,8 @@ class Writer:
         year, month, day = time.localtime()[:3]
         year -= 1900
         # Remove deletion flag placeholder from fields
-        for field in self.fields:
-            if field[0] == "DeletionFlag":
-                self.fields.remove(field)
+        # (in a new list: this one may be that of a Reader)
+        self.fields = [field for field in self.fields if field[0] != "DeletionFlag"]
         numRecs = len(self.records)
         numFields = len(self.fields)
         headerLength = numFields * 32 + 33
-- 
2.43.0


From 55e0cbb4c9d3e7c761a795aeba3ee5e20d163a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:28 +0000
Subject: [PATCH 95/99] fix: points read without measures can be saved with
 types that have one

---
 coral/shapefile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 5cc4eef..8d9e280 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -923,9 +923,8 @@ class Writer:
                         raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)    
                 else:                                
                     try:
-                        if len(s.points[0])<4:
-                            s.points[0].append(0)
-                        f.write(pack("<1d", s.points[0][3]))
+                        # (Points read from a file may have none.)
+                        f.write(pack("<1d", self.__measures(s)[0]))
                     except error:
                         raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)
             # Finalize record length as 16-bit words
-- 
2.43.0


From 27cd7e56c9429e1167479ea1e18ed13370ea63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 96/99] fix: a shape without points read from a file has an
 empty list of parts

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8d9e280..c11ad19 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -358,7 +358,7 @@ class Reader:
         if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
-        if nParts:
+        if nParts is not None:
             record.parts = _Array('i', unpack("<%si" % nParts, f.read(nParts * 4)))
         # Read part types for Multipatch - 31
         if shapeType == 31:
-- 
2.43.0


From 92e11d5c928563e86263358383bb8c3373515e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 97/99] fix: GeoJSON of lines and polygons without parts

---
 coral/shapefile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c11ad19..8a4e572 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -138,7 +138,7 @@ class _Shape:
             'coordinates': tuple([tuple(p) for p in self.points])
             }
         elif self.shapeType in [POLYLINE, POLYLINEM, POLYLINEZ]:
-            if len(self.parts) == 1:
+            if len(self.parts) <= 1:
                 return {
                 'type': 'LineString',
                 'coordinates': tuple([tuple(p) for p in self.points])
@@ -160,7 +160,12 @@ class _Shape:
                 'coordinates': tuple(coordinates)
                 }
         elif self.shapeType in [POLYGON, POLYGONM, POLYGONZ]:
-            if len(self.parts) == 1:
+            if not self.parts:
+                return {
+                'type': 'Polygon',
+                'coordinates': ()
+                }
+            elif len(self.parts) == 1:
                 return {
                 'type': 'Polygon',
                 'coordinates': (tuple([tuple(p) for p in self.points]),)
-- 
2.43.0


From 767f89d9fd8e6685d23d442da5834a11f74f178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 98/99] fix: every entity is looked for in the frame by its own
 polygons, whatever its name

---
 coral/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index 01678f1..f24a279 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -101,8 +101,9 @@ class Frame:
 
     def cachenames(self, key, pff):
         lines = []
-        for name in tqdm.tqdm(pff.names):
-            for points in pff.get(name):
+        # By number: entities may have the same name.
+        for i, name in enumerate(tqdm.tqdm(pff.names)):
+            for points in pff.read(i):
                 xys = [self.projection.geo2rect(lon, lat) for lon, lat in points]
                 bb = bbox.BBox(xys)
                 if self.bounding.collide(bb):
-- 
2.43.0


From e2534ba722aaa8d1707772fd1a4ec94a794181db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:13 +0000
Subject: [PATCH 99/99] fix: polygons without vertices do not stop the search
 for visible entities

---
 coral/frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/frame.py b/coral/frame.py
index f24a279..9a39791 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -104,6 +104,8 @@ class Frame:
         # By number: entities may have the same name.
         for i, name in enumerate(tqdm.tqdm(pff.names)):
             for points in pff.read(i):
+                if not points:
+                    continue # a polygon without vertices is nowhere.
                 xys = [self.projection.geo2rect(lon, lat) for lon, lat in points]
                 bb = bbox.BBox(xys)
                 if self.bounding.collide(bb):
-- 
2.43.0

