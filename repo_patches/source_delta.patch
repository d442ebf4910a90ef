From 9a644c9205373d5121f39a031117b68ec7915245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 001/175] fix: mirror at the line with the given direction, not
 with its negative

---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 60223a4..d4997f8 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -42,8 +42,8 @@ def _mmatrix(angle):
     phi = math.pi*angle/180.0
 
     return ( (math.cos(phi)*math.cos(phi)-math.sin(phi)*math.sin(phi),
-              -2*math.sin(phi)*math.cos(phi)                ),
-             (-2*math.sin(phi)*math.cos(phi),
+              2*math.sin(phi)*math.cos(phi)                 ),
+             (2*math.sin(phi)*math.cos(phi),
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
-- 
2.43.0


From ba6bf03be7565ca2600a56dce329ead749bcbb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 002/175] fix: do not convert the vector of a slant around a
 point to points twice

---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index d4997f8..32f3ed4 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -234,12 +234,12 @@ class slant_pt(trafo_pt):
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
-class slant(trafo):
+class slant(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
         t = ( rotate(-angle, x, y) *
               trafo(matrix=((1, a), (0, 1))) *
               rotate(angle, x, y) )
-        trafo.__init__(self, t.matrix, t.vector)
+        trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class translate_pt(trafo_pt):
-- 
2.43.0


From f96b46ad555db54b0d3867ef82d100e6b6e2bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 003/175] fix: slant in the direction of the given angle, not
 of its negative

---
 pyx/trafo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 32f3ed4..0d01a7f 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -228,17 +228,17 @@ class scale(trafo):
 
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate_pt(-angle, x, y) *
+        t = ( rotate_pt(angle, x, y) *
               trafo(matrix=((1, a), (0, 1))) *
-              rotate_pt(angle, x, y) )
+              rotate_pt(-angle, x, y) )
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class slant(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate(-angle, x, y) *
+        t = ( rotate(angle, x, y) *
               trafo(matrix=((1, a), (0, 1))) *
-              rotate(angle, x, y) )
+              rotate(-angle, x, y) )
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
-- 
2.43.0


From 5ec6938012c7b7c158e47a0913fb88f6f44721a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 004/175] fix: the intersection of disjoint bounding boxes is
 empty

---
 pyx/bbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 70562fd..1f4281a 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -75,7 +75,7 @@ class bbox_pt:
 
     def __mul__(self, other):
         """return intersection of two bboxes"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             return bbox_pt(max(self.llx_pt, other.llx_pt), max(self.lly_pt, other.lly_pt),
                            min(self.urx_pt, other.urx_pt), min(self.ury_pt, other.ury_pt))
         else:
@@ -83,13 +83,13 @@ class bbox_pt:
 
     def __imul__(self, other):
         """intersect two bboxes in place"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             self.llx_pt = max(self.llx_pt, other.llx_pt)
             self.lly_pt = max(self.lly_pt, other.lly_pt)
             self.urx_pt = min(self.urx_pt, other.urx_pt)
             self.ury_pt = min(self.ury_pt, other.ury_pt)
-        elif other.llx_pt is None:
-            self.llx_pt = None
+        else:
+            self.llx_pt = self.lly_pt = self.urx_pt = self.ury_pt = None
         return self
 
     def copy(self):
-- 
2.43.0


From 7d51110bb853c7f1bda13915d7f0749a88f8160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 005/175] fix: write PDF pages without any content

---
 pyx/pdfwriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 88194f9..7bbc06b 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -291,7 +291,9 @@ class PDFpage(PDFobject):
         if paperformat:
             file.write("/MediaBox [0 0 %f %f]\n" % (unit.topt(paperformat.width), unit.topt(paperformat.height)))
         else:
-            file.write("/MediaBox [%f %f %f %f]\n" % self.pdfcontent.bbox.highrestuple_pt())
+            # the media box is mandatory, even when there is nothing on the page
+            mediabbox = self.pdfcontent.bbox or bbox.bbox_pt(0, 0, 0, 0)
+            file.write("/MediaBox [%f %f %f %f]\n" % mediabbox.highrestuple_pt())
         if self.pdfcontent.bbox and writer.writebbox:
             file.write("/CropBox [%f %f %f %f]\n" % self.pdfcontent.bbox.highrestuple_pt())
         if self.page.rotated:
-- 
2.43.0


From 19061f57982df7403ebd5b65eaa40e20b584a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 006/175] fix: slant around the given point, not around the
 origin

---
 pyx/trafo.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 0d01a7f..1035bd9 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -228,17 +228,25 @@ class scale(trafo):
 
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate_pt(angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate_pt(-angle, x, y) )
+        t = ( rotate_pt(angle) *
+              trafo_pt(matrix=((1, a), (0, 1))) *
+              rotate_pt(-angle) )
+        if x is not None or y is not None:
+            if x is None or y is None:
+                raise TrafoException("either specify both x and y or none of them")
+            t = translate_pt(x, y) * t * translate_pt(-x, -y)
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class slant(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate(angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate(-angle, x, y) )
+        t = ( rotate_pt(angle) *
+              trafo_pt(matrix=((1, a), (0, 1))) *
+              rotate_pt(-angle) )
+        if x is not None or y is not None:
+            if x is None or y is None:
+                raise TrafoException("either specify both x and y or none of them")
+            t = translate(x, y) * t * translate(-x, -y)
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
-- 
2.43.0


From a8a7d1b212f226def9345fde8e86d69e673bd890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 007/175] fix: an arc of a multiple of 360 degrees against its
 direction is empty

PostScript adds multiples of 360 degrees to the end angle until it is not
smaller than the start angle. Bounding box, PDF and SVG output drew a full
circle where the PostScript output draws nothing.
---
 pyx/path.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 063a557..e927600 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -93,14 +93,15 @@ def _arctobcurve(x_pt, y_pt, r_pt, phi1, phi2):
 def _arctobezierpath(x_pt, y_pt, r_pt, phi1, phi2, dphimax=45):
     apath = []
 
+    if phi2<phi1:
+        # guarantee that phi2>=phi1 (multiples of 360 give an empty arc as in PostScript) ...
+        phi2 = phi2 + math.ceil((phi1-phi2)/360)*360
+
     phi1 = radians(phi1)
     phi2 = radians(phi2)
     dphimax = radians(dphimax)
 
-    if phi2<phi1:
-        # guarantee that phi2>phi1 ...
-        phi2 = phi2 + (math.floor((phi1-phi2)/(2*pi))+1)*2*pi
-    elif phi2>phi1+2*pi:
+    if phi2>phi1+2*pi:
         # ... or remove unnecessary multiples of 2*pi
         phi2 = phi2 - (math.floor((phi2-phi1)/(2*pi))-1)*2*pi
 
@@ -120,9 +121,6 @@ def _arcpoint(x_pt, y_pt, r_pt, angle):
     return x_pt+r_pt*cos(radians(angle)), y_pt+r_pt*sin(radians(angle))
 
 def _arcbboxdata(x_pt, y_pt, r_pt, angle1, angle2):
-    phi1 = radians(angle1)
-    phi2 = radians(angle2)
-
     # starting end end point of arc segment
     sarcx_pt, sarcy_pt = _arcpoint(x_pt, y_pt, r_pt, angle1)
     earcx_pt, earcy_pt = _arcpoint(x_pt, y_pt, r_pt, angle2)
@@ -132,9 +130,12 @@ def _arcbboxdata(x_pt, y_pt, r_pt, angle1, angle2):
     # in the interval [phi1, phi2]. These can either be located
     # on the borders of this interval or in the interior.
 
-    if phi2 < phi1:
-        # guarantee that phi2>phi1
-        phi2 = phi2 + (math.floor((phi1-phi2)/(2*pi))+1)*2*pi
+    if angle2 < angle1:
+        # guarantee that angle2>=angle1 (multiples of 360 give an empty arc as in PostScript)
+        angle2 = angle2 + math.ceil((angle1-angle2)/360)*360
+
+    phi1 = radians(angle1)
+    phi2 = radians(angle2)
 
     # next minimum of cos(phi) looking from phi1 in counterclockwise
     # direction: 2*pi*floor((phi1-pi)/(2*pi)) + 3*pi
@@ -664,9 +665,9 @@ class arc_pt(pathitem):
         angle1 = self.angle1
         angle2 = self.angle2
 
-        # make 0 < angle2-angle1 < 2*360
+        # make 0 <= angle2-angle1 < 2*360
         if angle2 < angle1:
-            angle2 += (math.floor((angle1-angle2)/360)+1)*360
+            angle2 += math.ceil((angle1-angle2)/360)*360
         elif angle2 > angle1 + 360:
             angle2 -= (math.floor((angle2-angle1)/360)-1)*360
         # svg arcs become unstable when close to 360 degree and cannot
@@ -761,9 +762,9 @@ class arcn_pt(pathitem):
         angle1 = self.angle1
         angle2 = self.angle2
 
-        # make 0 < angle1-angle2 < 2*360
+        # make 0 <= angle1-angle2 < 2*360
         if angle1 < angle2:
-            angle1 += (math.floor((angle2-angle1)/360)+1)*360
+            angle1 += math.ceil((angle2-angle1)/360)*360
         elif angle1 > angle2 + 360:
             angle1 -= (math.floor((angle1-angle2)/360)-1)*360
         # svg arcs become unstable when close to 360 degree and cannot
-- 
2.43.0


From 2fa852ccbc408a4ff2ce83be008c7ee706a9cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 008/175] fix: arct with collinear tangents is a line

Collinear tangents raised a math domain error depending on rounding of the
scalar product, and led to a line of a length of 1e16 when the second
tangent points back.
---
 pyx/path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/path.py b/pyx/path.py
index e927600..10c3ab8 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -821,6 +821,11 @@ class arct_pt(pathitem):
         l2_pt = math.hypot(dx2_pt, dy2_pt)
         dx2, dy2 = dx2_pt/l2_pt, dy2_pt/l2_pt
 
+        # for (numerically) collinear tangents, we just return a line as specified
+        # by the PS language reference
+        if abs(dx1*dy2-dy1*dx2) < 1e-7:
+            return [lineto_pt(self.x1_pt, self.y1_pt)]
+
         # intersection angle between two tangents in the range (-pi, pi).
         # We take the orientation from the sign of the vector product.
         # Negative (positive) angles alpha corresponds to a turn to the right (left)
-- 
2.43.0


From 92fc24b84ea97ef096cda9ea65e0acc0f3ef129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 009/175] fix: continue a path after closepath with a new
 subpath

As in PostScript, a lineto and the like after a closepath starts a new
subpath at the beginning of the closed one. The normpath raised, and the
PDF output drew the additional lines within the closed subpath.
---
 pyx/path.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 10c3ab8..d230a08 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -176,6 +176,17 @@ def _arcbboxdata(x_pt, y_pt, r_pt, angle1, angle2):
 # path context and pathitem base class
 ################################################################################
 
+def _appendtonormpath(normpath, anormsubpathitem):
+    """append normsubpathitem to the current subpath of the normpath
+
+    After a closepath, a new subpath starts at the beginning of the closed
+    subpath."""
+    if normpath.normsubpaths[-1].closed:
+        normpath.append(normsubpath([anormsubpathitem], epsilon=normpath.normsubpaths[-1].epsilon))
+    else:
+        normpath.normsubpaths[-1].append(anormsubpathitem)
+
+
 class context:
 
     """context for pathitem"""
@@ -395,8 +406,8 @@ class lineto_pt(pathitem):
         context.y_pt = self.y_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normline_pt(context.x_pt, context.y_pt,
-                                                     self.x_pt, self.y_pt))
+        _appendtonormpath(normpath, normline_pt(context.x_pt, context.y_pt,
+                                                self.x_pt, self.y_pt))
         context.x_pt = self.x_pt
         context.y_pt = self.y_pt
 
@@ -439,10 +450,10 @@ class curveto_pt(pathitem):
         context.y_pt = self.y3_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normcurve_pt(context.x_pt, context.y_pt,
-                                                      self.x1_pt, self.y1_pt,
-                                                      self.x2_pt, self.y2_pt,
-                                                      self.x3_pt, self.y3_pt))
+        _appendtonormpath(normpath, normcurve_pt(context.x_pt, context.y_pt,
+                                                 self.x1_pt, self.y1_pt,
+                                                 self.x2_pt, self.y2_pt,
+                                                 self.x3_pt, self.y3_pt))
         context.x_pt = self.x3_pt
         context.y_pt = self.y3_pt
 
@@ -523,8 +534,8 @@ class rlineto_pt(pathitem):
         context.y_pt += self.dy_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normline_pt(context.x_pt, context.y_pt,
-                                                     context.x_pt + self.dx_pt, context.y_pt + self.dy_pt))
+        _appendtonormpath(normpath, normline_pt(context.x_pt, context.y_pt,
+                                                context.x_pt + self.dx_pt, context.y_pt + self.dy_pt))
         context.x_pt += self.dx_pt
         context.y_pt += self.dy_pt
 
@@ -573,10 +584,10 @@ class rcurveto_pt(pathitem):
         context.y_pt += self.dy3_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normcurve_pt(context.x_pt, context.y_pt,
-                                                      context.x_pt + self.dx1_pt, context.y_pt + self.dy1_pt,
-                                                      context.x_pt + self.dx2_pt, context.y_pt + self.dy2_pt,
-                                                      context.x_pt + self.dx3_pt, context.y_pt + self.dy3_pt))
+        _appendtonormpath(normpath, normcurve_pt(context.x_pt, context.y_pt,
+                                                 context.x_pt + self.dx1_pt, context.y_pt + self.dy1_pt,
+                                                 context.x_pt + self.dx2_pt, context.y_pt + self.dy2_pt,
+                                                 context.x_pt + self.dx3_pt, context.y_pt + self.dy3_pt))
         context.x_pt += self.dx3_pt
         context.y_pt += self.dy3_pt
 
@@ -1013,7 +1024,7 @@ class multilineto_pt(pathitem):
     def updatenormpath(self, normpath, context):
         x0_pt, y0_pt = context.x_pt, context.y_pt
         for point_pt in self.points_pt:
-            normpath.normsubpaths[-1].append(normline_pt(x0_pt, y0_pt, *point_pt))
+            _appendtonormpath(normpath, normline_pt(x0_pt, y0_pt, *point_pt))
             x0_pt, y0_pt = point_pt
         context.x_pt, context.y_pt = x0_pt, y0_pt
 
@@ -1055,7 +1066,7 @@ class multicurveto_pt(pathitem):
     def updatenormpath(self, normpath, context):
         x0_pt, y0_pt = context.x_pt, context.y_pt
         for point_pt in self.points_pt:
-            normpath.normsubpaths[-1].append(normcurve_pt(x0_pt, y0_pt, *point_pt))
+            _appendtonormpath(normpath, normcurve_pt(x0_pt, y0_pt, *point_pt))
             x0_pt, y0_pt = point_pt[4:]
         context.x_pt, context.y_pt = x0_pt, y0_pt
 
-- 
2.43.0


From ee277b7264cea4206fd96e322fba06409873c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 010/175] fix: append a path item to an empty normpath

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index f0da965..e9247ed 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1629,7 +1629,7 @@ class normpath:
                                          self.normsubpaths[-1].atbegin_pt()))
                 item.updatenormpath(self, context)
             else:
-                self.normsubpaths = item.createnormpath(self).normsubpaths
+                self.normsubpaths = item.createnormpath().normsubpaths
 
     def arclen_pt(self, upper=False):
         """return arc length in pts
-- 
2.43.0


From 704b555ea83f25349ddb2425d4a9c6dfaa68d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 011/175] fix: direction of arcs and current point in the SVG
 data of paths

---
 pyx/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index d230a08..b478373 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -324,6 +324,8 @@ class closepath(pathitem):
         file.write("closepath\n")
 
     def returnSVGdata(self, inverse_y, first, context):
+        context.x_pt = context.subfirstx_pt
+        context.y_pt = context.subfirsty_pt
         return "Z"
 
 
@@ -691,10 +693,9 @@ class arc_pt(pathitem):
             x_pt, y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, angle1 + (i+1)*(angle2-angle1)/subdivisions)
             if inverse_y:
                 y_pt = -y_pt
-            data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
+            data.append("A%g %g 0 %s %s %g %g" % (self.r_pt, self.r_pt, large, "0" if inverse_y else "1", x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
@@ -788,10 +789,9 @@ class arcn_pt(pathitem):
             x_pt, y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, angle1 + (i+1)*(angle2-angle1)/subdivisions)
             if inverse_y:
                 y_pt = -y_pt
-            data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
+            data.append("A%g %g 0 %s %s %g %g" % (self.r_pt, self.r_pt, large, "1" if inverse_y else "0", x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
-- 
2.43.0


From 57ea9822d495cf5e943d7840114ae99f7edf25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 012/175] fix: no graphics state operators within a PDF path
 object

---
 pyx/deco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 8586b44..9773158 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -235,8 +235,6 @@ class decoratedpath(baseclasses.canvasitem):
             _writestyles(self.styles, context, registry)
 
         if self.fillstyles is not None:
-            fillpath.outputPDF(file, writer)
-
             if self.strokestyles is not None and strokepath is fillpath:
                 # do efficient stroking + filling
                 file.write("q\n") # gsave
@@ -247,6 +245,7 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
+                fillpath.outputPDF(file, writer)
                 if context.fillrule:
                     file.write("B*\n")
                 else:
@@ -261,6 +260,7 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("q\n") # gsave
                     _writefillstyles(self.fillstyles, context(), registry)
 
+                fillpath.outputPDF(file, writer)
                 if context.fillrule:
                     file.write("f*\n")
                 else:
-- 
2.43.0


From f557e5325a61fd3a817e69fee8b9efa087a72ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 013/175] fix: respect the fill rule given to the filled
 decorator

---
 pyx/deco.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 9773158..165c9bb 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -147,10 +147,11 @@ class decoratedpath(baseclasses.canvasitem):
                 # do efficient stroking + filling if respective paths are identical
                 file.write("gsave\n")
 
+                acontext = context()
                 if self.fillstyles:
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -169,11 +170,12 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("grestore\n")
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("gsave\n")
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -246,7 +248,7 @@ class decoratedpath(baseclasses.canvasitem):
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
                 fillpath.outputPDF(file, writer)
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("B*\n")
                 else:
                     file.write("B\n") # both stroke and fill
@@ -256,12 +258,13 @@ class decoratedpath(baseclasses.canvasitem):
                 file.write("Q\n") # grestore
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("q\n") # gsave
-                    _writefillstyles(self.fillstyles, context(), registry)
+                    _writefillstyles(self.fillstyles, acontext, registry)
 
                 fillpath.outputPDF(file, writer)
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("f*\n")
                 else:
                     file.write("f\n") # fill
-- 
2.43.0


From 371d7115f2eeab0056c5ada217e66bce90d301b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 014/175] fix: fill before stroke in SVG output, each with its
 own opacity

---
 pyx/deco.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 165c9bb..a087843 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -321,15 +321,6 @@ class decoratedpath(baseclasses.canvasitem):
             xml.startSVGElement("g", gattrs)
 
         if strokepath is not fillpath:
-            if self.strokestyles is not None:
-                attrs = {"d": strokepath.returnSVGdata()}
-                _writestrokestyles(attrs, acontext)
-                attrs["stroke"] = acontext.strokecolor
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
                 _writefillstyles(attrs, acontext)
@@ -339,6 +330,15 @@ class decoratedpath(baseclasses.canvasitem):
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
                 bbox += fillpath.bbox()
+            if self.strokestyles is not None:
+                attrs = {"d": strokepath.returnSVGdata()}
+                _writestrokestyles(attrs, acontext)
+                attrs["stroke"] = acontext.strokecolor
+                if acontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.strokeopacity
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
+                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
         else:
             attrs = {"d": fillpath.returnSVGdata()}
             _writestrokestyles(attrs, acontext)
@@ -348,18 +348,19 @@ class decoratedpath(baseclasses.canvasitem):
             if self.fillstyles is not None:
                 attrs["fill"] = acontext.fillcolor
             if acontext.strokeopacity != acontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                attrs["stroke"] = acontext.strokecolor
-                attrs["fill"] = "none"
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
                 if acontext.fillopacity != 1:
                     attrs["opacity"] = "%f" % acontext.fillopacity
                 attrs["stroke"] = "none"
                 attrs["fill"] = acontext.fillcolor
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
+                attrs.pop("opacity", None)
+                if acontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.strokeopacity
+                attrs["stroke"] = acontext.strokecolor
+                attrs["fill"] = "none"
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
             else:
                 if acontext.strokeopacity != 1 and self.strokestyles is not None:
                     attrs["opacity"] = "%f" % acontext.strokeopacity
-- 
2.43.0


From 8a8787aebdaa7712b23181870079b97db63c8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 015/175] fix: do not apply stroke and fill styles to ornaments
 in SVG output

---
 pyx/deco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index a087843..41def84 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -320,6 +320,9 @@ class decoratedpath(baseclasses.canvasitem):
         if gattrs:
             xml.startSVGElement("g", gattrs)
 
+        # the stroke and fill styles do not apply to the ornaments
+        ornamentscontext = acontext()
+
         if strokepath is not fillpath:
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
@@ -373,7 +376,7 @@ class decoratedpath(baseclasses.canvasitem):
             else:
                 bbox += strokepath.bbox()
 
-        self.ornaments.processSVG(xml, writer, acontext, registry, bbox)
+        self.ornaments.processSVG(xml, writer, ornamentscontext, registry, bbox)
 
         if gattrs:
             xml.endSVGElement("g")
-- 
2.43.0


From 08f328f6224d7c36435c80a064c9ac01aeb987b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 016/175] fix: division of path parameters

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index e9247ed..3b7992b 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1494,7 +1494,7 @@ class normpathparam:
 
     __rmul__ = __mul__
 
-    def __div__(self, divisor):
+    def __truediv__(self, divisor):
         return self.normpath.arclentoparam_pt(self.normpath.paramtoarclen_pt(self) / divisor)
 
     def __neg__(self):
-- 
2.43.0


From 566c7c8f655274d3db4189f3e7e41022a1df8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 017/175] fix: lengths in pts for rotation_pt and trafo_pt of
 paths

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index b478373..b3a138f 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -1269,7 +1269,7 @@ class path:
 
     def rotation_pt(self, params):
         """return rotation at param(s) or arc length(s) in pts"""
-        return self.normpath().rotation(params)
+        return self.normpath().rotation_pt(params)
 
     def rotation(self, params):
         """return rotation at param(s) or arc length(s)"""
@@ -1301,7 +1301,7 @@ class path:
 
     def trafo_pt(self, params):
         """return transformation at param(s) or arc length(s) in pts"""
-        return self.normpath().trafo(params)
+        return self.normpath().trafo_pt(params)
 
     def trafo(self, params):
         """return transformation at param(s) or arc length(s)"""
-- 
2.43.0


From 81ccac19a96752ba93593b20377cbc3dc8e93923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 018/175] fix: arc lengths for a list of params in any order

---
 pyx/normpath.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 3b7992b..67f7fbd 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -582,10 +582,15 @@ class normcurve_pt(normsubpathitem):
                             x_pt, y_pt)
 
     def _paramtoarclen_pt(self, params, epsilon):
-        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + list(params) + [1])]
+        # the arc lengths of the segments add up in ascending order of the params only
+        indices = sorted(range(len(params)), key=lambda i: params[i])
+        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + [params[i] for i in indices] + [1])]
         for i in range(1, len(arclens_pt)):
             arclens_pt[i] += arclens_pt[i-1]
-        return arclens_pt[:-1], arclens_pt[-1]
+        result = [None] * len(params)
+        for i, arclen_pt in zip(indices, arclens_pt):
+            result[i] = arclen_pt
+        return result, arclens_pt[-1]
 
     def pathitem(self):
         from . import path
-- 
2.43.0


From 087b5c3c0346b8ff13f1fb6185130b67c8a0dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 019/175] fix: subtract a path parameter from a length within
 the path

---
 pyx/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/unit.py b/pyx/unit.py
index f1fa6bf..461d297 100644
--- a/pyx/unit.py
+++ b/pyx/unit.py
@@ -165,7 +165,7 @@ class length:
             try:
                 other = length(other)
             except Exception:
-                return -other + self
+                return NotImplemented
         result = length()
         result.t = self.t - other.t
         result.u = self.u - other.u
-- 
2.43.0


From 76f1c77a0393966f198283c36062d4ff4eea814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 020/175] fix: do not share subpaths between joined or split
 normpaths and their operands

---
 pyx/normpath.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 67f7fbd..dac3594 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1799,7 +1799,7 @@ class normpath:
         if not other.normsubpaths:
             raise NormpathException("cannot join empty path")
         self.normsubpaths[-1].join(other.normsubpaths[0])
-        self.normsubpaths.extend(other.normsubpaths[1:])
+        self.normsubpaths.extend(normsubpath.copy() for normsubpath in other.normsubpaths[1:])
 
     def joined(self, other):
         """return joined self and other
@@ -1900,14 +1900,14 @@ class normpath:
                     # gap to the forthcoming index
                     if param.normsubpathindex > collectindex:
                         for i in range(collectindex+1, param.normsubpathindex):
-                            result[-1].append(self.normsubpaths[i])
+                            result[-1].append(self.normsubpaths[i].copy())
                         collectparams = [0]
                     else:
                         for i in range(collectindex-1, param.normsubpathindex, -1):
                             result[-1].append(self.normsubpaths[i].reversed())
                         collectparams = [len(self.normsubpaths[param.normsubpathindex])]
                 else:
-                    result = [normpath(self.normsubpaths[:param.normsubpathindex])]
+                    result = [normpath([normsubpath.copy() for normsubpath in self.normsubpaths[:param.normsubpathindex]])]
                     collectparams = [0]
                 collectindex = param.normsubpathindex
             collectparams.append(param.normsubpathparam)
@@ -1916,7 +1916,7 @@ class normpath:
         segments = self.normsubpaths[collectindex].segments(collectparams)
         result[-1].append(segments[0])
         result.extend([normpath([segment]) for segment in segments[1:]])
-        result[-1].extend(self.normsubpaths[collectindex+1:])
+        result[-1].extend([normsubpath.copy() for normsubpath in self.normsubpaths[collectindex+1:]])
         return result
 
     def split_pt(self, params):
-- 
2.43.0


From 60d44c7d9ac5464ce5de75cd82c2a9f71a463aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 021/175] fix: middle of a short line in intersections

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index dac3594..aa9c4ac 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -225,7 +225,7 @@ class normline_pt(normsubpathitem):
                 # account.
                 if short_self:
                     sx_pt = 0.5*(self.x0_pt + self.x1_pt)
-                    sy_pt = 0.5*(self.y0_pt + self.x1_pt)
+                    sy_pt = 0.5*(self.y0_pt + self.y1_pt)
                 if short_other:
                     ox_pt = 0.5*(other.x0_pt + other.x1_pt)
                     oy_pt = 0.5*(other.y0_pt + other.y1_pt)
-- 
2.43.0


From 8bdc30338d9e5f889d2332b3459e0b11b1eb34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 022/175] fix: a rejected canvas layer call leaves the canvas
 unchanged

---
 pyx/canvas.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 3bd4fb9..dac7b48 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -300,32 +300,45 @@ class canvas(baseclasses.canvasitem):
         try:
             group, layer = name.split(".", 1)
         except ValueError:
+            # identify the reference layer before changing anything
+            if above is not None:
+                reference = self.layers[above]
+            elif below is not None:
+                reference = self.layers[below]
+            else:
+                reference = None
+
             if name in self.layers:
-                if above is not None or below is not None:
+                if reference is self.layers[name]:
+                    raise ValueError("a layer cannot be positioned relative to itself")
+                if reference is not None:
                     # remove for repositioning
                     self.items.remove(self.layers[name])
             else:
                 # create new layer
                 self.layers[name] = canvas(textengine=self.textengine)
-                if above is None and below is None:
+                if reference is None:
                     self.items.append(self.layers[name])
 
             # (re)position layer
             if above is not None:
-                self.items.insert(self.items.index(self.layers[above])+1, self.layers[name])
+                self.items.insert(self.items.index(reference)+1, self.layers[name])
             elif below is not None:
-                self.items.insert(self.items.index(self.layers[below]), self.layers[name])
+                self.items.insert(self.items.index(reference), self.layers[name])
 
             return self.layers[name]
         else:
-            if not group in self.layers:
-                self.layers[group] = self.insert(canvas(textengine=self.textengine))
+            for reference in (above, below):
+                if reference is not None and not reference.startswith(group + "."):
+                    raise ValueError("layers can be positioned within their group only")
             if above is not None:
-                abovegroup, above = above.split(".", 1)
-                assert abovegroup == group
+                above = above.split(".", 1)[1]
             if below is not None:
-                belowgroup, below = below.split(".", 1)
-                assert belowgroup == group
+                below = below.split(".", 1)[1]
+            if not group in self.layers:
+                if above is not None or below is not None:
+                    raise KeyError(group)
+                self.layers[group] = self.insert(canvas(textengine=self.textengine))
             return self.layers[group].layer(layer, above=above, below=below)
 
     def insert(self, item, attrs=None):
-- 
2.43.0


From ca5d0d8e235e698a2ac6943a55fc07e5abbc1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 023/175] fix: a TeX request following a timeout is not blocked
 by the outdated expectation

---
 pyx/text.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index fb36bb4..dcc18b2 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -655,6 +655,12 @@ class MonitorOutput(threading.Thread):
         :type s: str or None
 
         """
+        try:
+            # drop an expectation, which has not been taken into account yet
+            # (the output might be stuck or completed in the meantime)
+            self._expect.get_nowait()
+        except queue.Empty:
+            pass
         self._expect.put_nowait(s)
 
     def read(self):
@@ -777,11 +783,10 @@ class MonitorOutput(threading.Thread):
         expect = None
         while True:
             line = self._readline()
-            if expect is None:
-                try:
-                    expect = self._expect.get_nowait()
-                except queue.Empty:
-                    pass
+            try:
+                expect = self._expect.get_nowait()
+            except queue.Empty:
+                pass
             if not line:
                 break
             self._output.put(line)
-- 
2.43.0


From 6c6a525ff188a44eacd044898cd2e4a0bfcd26a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 024/175] fix: texts following a failed text read their own dvi
 page

---
 pyx/text.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index dcc18b2..516ba72 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1024,8 +1024,9 @@ class SingleEngine:
         self.executeid = 0
         self.page = 0
 
-        self.needdvitextboxes = [] # when texipc-mode off
+        self.needdvitextboxes = [] # when texipc-mode off (tuples of box and page)
         self.dvifile = None
+        self.dvipage = 0 # number of pages already read from the dvifile
 
     def _cleanup(self):
         """Clean-up TeX interpreter and tmp directory.
@@ -1246,16 +1247,28 @@ class SingleEngine:
         if self.needdvitextboxes:
             dvifilename = os.path.join(self.tmpdir, "texput.dvi")
             self.dvifile = dvifile.DVIfile(dvifilename, debug=self.dvitype)
-            page = 1
-            for box in self.needdvitextboxes:
-                box.readdvipage(self.dvifile, page)
-                page += 1
+            for box, page in self.needdvitextboxes:
+                self._readdvipage(box, page)
+        if self.dvifile is not None:
+            self._skipdvipages(self.page)
         if self.dvifile is not None and self.dvifile.readpage(None) is not None:
             raise ValueError("end of dvifile expected but further pages follow")
         if cleanup:
             atexit.unregister(self._cleanup)
             self._cleanup()
 
+    def _skipdvipages(self, page):
+        """Skip the dvi pages of failed texts up to and including page."""
+        while self.dvipage < page:
+            self.dvifile.readpage(None)
+            self.dvipage += 1
+
+    def _readdvipage(self, box, page):
+        """Read the dvi page for the box skipping the pages of failed texts."""
+        self._skipdvipages(page-1)
+        box.readdvipage(self.dvifile, page)
+        self.dvipage = page
+
     def preamble(self, expr, texmessages=[]):
         """Execute a preamble.
 
@@ -1306,9 +1319,8 @@ class SingleEngine:
             expr = expr.tex
         for ta in textattrs[::-1]:
             expr = ta.apply(expr)
-        first = self.state < STATE_TYPESET
         left_pt, right_pt, height_pt, depth_pt = self.do_typeset(expr, self.texmessages_run_default + self.texmessages_run + texmessages)
-        if self.texipc and first:
+        if self.texipc and self.dvifile is None:
             self.dvifile = dvifile.DVIfile(os.path.join(self.tmpdir, "texput.dvi"), debug=self.dvitype)
         box = textextbox_pt(x_pt, y_pt, left_pt, right_pt, height_pt, depth_pt, self.do_finish, fontmap, singlecharmode, fillstyles)
         for t in trafos:
@@ -1316,9 +1328,9 @@ class SingleEngine:
                                 #       this is quite different from what we do elsewhere!!!
                                 #       see https://sourceforge.net/mailarchive/forum.php?thread_id=9137692&forum_id=23700
         if self.texipc:
-            box.readdvipage(self.dvifile, self.page)
+            self._readdvipage(box, self.page)
         else:
-            self.needdvitextboxes.append(box)
+            self.needdvitextboxes.append((box, self.page))
         return box
 
     def text(self, x, y, *args, **kwargs):
-- 
2.43.0


From aa39e7a77936da0041552e5e83d9da52acd2fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 025/175] fix: quit TeX in the cleanup when it does not respond
 anymore

---
 pyx/text.py | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 516ba72..84761cd 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1037,33 +1037,45 @@ class SingleEngine:
         """
         try:
             if self.state > STATE_START:
-                if self.state < STATE_DONE:
-                    self.do_finish(cleanup=False)
-                    if self.state < STATE_DONE: # cleanup while TeX is still running?
+                try:
+                    if self.state < STATE_DONE:
+                        self.do_finish(cleanup=False)
+                finally:
+                    if self.texoutput.is_alive(): # cleanup while TeX is still running?
                         self.texoutput.expect(None)
-                        self.force_done()
-                        for f, msg in [(self.texinput.close, "We tried to communicate to %s to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
+                        for f, msg in [(self._force_done, "We tried to communicate to %s to quit itself, but this seem to have failed. Trying by terminate signal now ..." % self.name),
                                        (self.popen.terminate, "Failed, too. Trying by kill signal now ..."),
-                                       (self.popen.kill, "We tried very hard to get rid of the %s process, but we ultimately failed (as far as we can tell). Sorry.".format(self.name))]:
+                                       (self.popen.kill, "We tried very hard to get rid of the %s process, but we ultimately failed (as far as we can tell). Sorry." % self.name)]:
                             f()
                             if self.texoutput.done():
                                 break
                             logger.warning(msg)
-                self.popen.wait()
-                for usefile in self.usefiles:
-                    extpos = usefile.rfind(".")
-                    try:
-                        shutil.move(os.path.join(self.tmpdir, "texput" + usefile[extpos:]), usefile)
-                    except EnvironmentError:
-                        logger.warning("Could not save '{}'.".format(usefile))
-                        if os.path.isfile(usefile):
-                            try:
-                                os.unlink(usefile)
-                            except EnvironmentError:
-                                logger.warning("Failed to remove spurious file '{}'.".format(usefile))
+                    self.popen.wait()
+                    for usefile in self.usefiles:
+                        extpos = usefile.rfind(".")
+                        try:
+                            shutil.move(os.path.join(self.tmpdir, "texput" + usefile[extpos:]), usefile)
+                        except EnvironmentError:
+                            logger.warning("Could not save '{}'.".format(usefile))
+                            if os.path.isfile(usefile):
+                                try:
+                                    os.unlink(usefile)
+                                except EnvironmentError:
+                                    logger.warning("Failed to remove spurious file '{}'.".format(usefile))
         finally:
             shutil.rmtree(self.tmpdir, ignore_errors=True)
 
+    def _force_done(self):
+        """Ask TeX to quit and close its input."""
+        try:
+            self.force_done()
+        except (OSError, ValueError):
+            pass # the input is closed already
+        try:
+            self.texinput.close()
+        except OSError:
+            pass
+
     def _execute(self, expr, texmessages, oldstate, newstate):
         """Execute TeX expression.
 
-- 
2.43.0


From 72fbb2a6c34c2755ce24f7c47919ea8f3d02b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 026/175] fix: remove the temporary directory when TeX cannot
 be started

---
 pyx/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 84761cd..dd1c72f 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1190,7 +1190,12 @@ class SingleEngine:
         cmd = self.cmd + ['--output-directory', tex_tmpdir]
         if self.texipc:
             cmd.append("--ipc")
-        self.popen = config.Popen(cmd, stdin=config.PIPE, stdout=config.PIPE, stderr=config.STDOUT, bufsize=0)
+        try:
+            self.popen = config.Popen(cmd, stdin=config.PIPE, stdout=config.PIPE, stderr=config.STDOUT, bufsize=0)
+        except Exception:
+            atexit.unregister(self._cleanup)
+            self._cleanup()
+            raise
         self.texinput = io.TextIOWrapper(self.popen.stdin, encoding=self.texenc)
         if self.copyinput:
             try:
-- 
2.43.0


From b9bcd74432a158804d36a265ab2999cdd5266a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 027/175] fix: ignore several graphics file loading messages in
 one output

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index dd1c72f..9a4140a 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -332,7 +332,7 @@ class texmessage:
             while m:
                 if not os.path.isfile(config.get("text", "chroot", "") + m.group("filename")):
                     return msg
-                r, m = remove_pattern(texmessage.quoted_file_pattern, r)
+                r, m = remove_pattern(p, r)
         return r
 
     @staticmethod
-- 
2.43.0


From dbdb9cc8cd5535c638b1c9a6cbc7b3ec2ae8e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 028/175] fix: rational numbers compare properly for negative
 denominators and reject zero denominators

---
 pyx/graph/axis/tick.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 29000a6..be6f95b 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -156,6 +156,14 @@ class rational:
             else:
                 self.num = int(self.num) ** power
                 self.denom = int(self.denom) ** power
+        self._normsign()
+
+    def _normsign(self):
+        "the comparision expects the denominator to be positive"
+        if not self.denom: raise ZeroDivisionError("zero denominator")
+        if self.denom < 0:
+            self.num = -self.num
+            self.denom = -self.denom
 
     def __lt__(self, other):
         try:
@@ -190,8 +198,8 @@ class rational:
     __truediv__ = __div__
 
     def __idiv__(self, other):
-        self.num *= other.denom
-        self.denom *= other.num
+        self.num, self.denom = self.num * other.denom, self.denom * other.num
+        self._normsign()
         return self
 
     __itruediv__ = __idiv__
-- 
2.43.0


From be558d368ad999fb7f0769504e7d0b086d0d2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 029/175] fix: extend the proper end of the range of a negative
 logarithmic axis

---
 pyx/graph/axis/parter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 08f123e..2812e35 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -234,6 +234,7 @@ class logarithmic(linear):
         neglog = max < 0
         if neglog:
             min, max = -max, -min
+            extendmin, extendmax = extendmax, extendmin
         minpower = None
         maxpower = None
         for i in range(len(preexp.pres)):
-- 
2.43.0


From aa672d63eb44c0d187f6cbdcae31cc7433cd84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 030/175] fix: partitioners can be called to modify their
 parameters

---
 pyx/graph/axis/parter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 2812e35..79187b5 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -22,6 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import math
+from pyx import utils
 from pyx.graph.axis import tick
 
 
@@ -66,6 +67,8 @@ class linear(_parter):
     """partitioner to create a single linear partition"""
 
     def __init__(self, tickdists=None, labeldists=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickdists = tickdists
+        self.labeldists = labeldists
         if tickdists is None and labeldists is not None:
             self.ticklist = [tick.rational(labeldists[0])]
         else:
@@ -211,6 +214,8 @@ class logarithmic(linear):
     #  ^- we always include 1 in order to get extendto(tick|label)level to work as expected
 
     def __init__(self, tickpreexps=None, labelpreexps=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickpreexps = tickpreexps
+        self.labelpreexps = labelpreexps
         if tickpreexps is None and labelpreexps is not None:
             self.ticklist = [labelpreexps[0]]
         else:
-- 
2.43.0


From a155107be4dfe9a216ba9d108af8742a661a367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 031/175] fix: take rationals exactly when initializing a
 rational from them

---
 pyx/graph/axis/tick.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index be6f95b..6f4f916 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -139,8 +139,12 @@ class rational:
                 if len(fraction) == 2:
                     self /= rational(fraction[1])
         else:
-            # x is a number
-            self.initfromfloat(x, floatprecision)
+            if isinstance(x, rational):
+                # a rational also behaves like a number, but is to be taken exactly
+                self.num, self.denom = x.num, x.denom
+            else:
+                # x is a number
+                self.initfromfloat(x, floatprecision)
         if not self.denom: raise ZeroDivisionError("zero denominator")
         if power == -1:
             self.num, self.denom = self.denom, self.num
-- 
2.43.0


From 17ff2fe31a0d8ebff70853853466835321fb167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 032/175] fix: take integers and fractions exactly when
 initializing a rational from them

---
 pyx/graph/axis/tick.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 6f4f916..40c9089 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -22,7 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 
-import sys, functools
+import sys, functools, numbers
 
 # test automatic long conversion
 try:
@@ -142,6 +142,9 @@ class rational:
             if isinstance(x, rational):
                 # a rational also behaves like a number, but is to be taken exactly
                 self.num, self.denom = x.num, x.denom
+            elif isinstance(x, numbers.Rational):
+                # integers and fractions are exact as well
+                self.num, self.denom = int(x.numerator), int(x.denominator)
             else:
                 # x is a number
                 self.initfromfloat(x, floatprecision)
-- 
2.43.0


From 3371e4fdd8ac72096dab4cfa959c5c5a3a19e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 033/175] fix: pass arguments for the exponent texter

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index c9ba480..b05cc88 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -184,7 +184,7 @@ class default(_texter):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["mantissatexter", "basetexter", "exponenttexter"], allow_only_split=True)
         if "mantissatexter" in split_kwargs: mantissatexter = decimal(**split_kwargs["mantissatexter"])
         if "basetexter" in split_kwargs: basetexter = decimal(**split_kwargs["basetexter"])
-        if "exponenttexter" in split_kwargs: texter = decimal(**split_kwargs["exponenttexter"])
+        if "exponenttexter" in split_kwargs: exponenttexter = decimal(**split_kwargs["exponenttexter"])
 
         self.multiplicationtex = multiplicationtex
         self.multiplicationunicode = multiplicationunicode
-- 
2.43.0


From b92ef5e0f4306fc11c840a2ade20252981b399ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 034/175] fix: rational texters can be called to modify their
 parameters

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index b05cc88..b91f0fe 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -345,7 +345,7 @@ class rational(_texter):
         return rational(**utils.merge_members_kwargs(self, [kwargs],
                                                     ["prefix", "infix", "suffix", "numprefix", "numinfix", "numsuffix",
                                                      "denomprefix", "denominfix", "denomsuffix", "plus", "minus", "minuspos",
-                                                     "over", "equaldenom", "skip1", "skipnum0", "skinum1", "skipdenom1", "labelattrs"]))
+                                                     "over", "equaldenom", "skip1", "skipnum0", "skipnum1", "skipdenom1", "labelattrs"]))
 
     def gcd(self, *n):
         """returns the greates common divisor of all elements in n
-- 
2.43.0


From 7bac61498dc6e2e877e6bfc7b950921cdc31ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 035/175] fix: ignore ticks without a label for the common
 denominator

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index b91f0fe..2169658 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -396,7 +396,7 @@ class rational(_texter):
                 gcd = self.gcd(tick.temp_rationalnum, tick.temp_rationaldenom)
                 (tick.temp_rationalnum, dummy1), (tick.temp_rationaldenom, dummy2) = divmod(tick.temp_rationalnum, gcd), divmod(tick.temp_rationaldenom, gcd)
         if self.equaldenom:
-            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in ticks if tick.label is None])
+            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in labeledticks])
             if equaldenom is not None:
                 for tick in labeledticks:
                     factor, dummy = divmod(equaldenom, tick.temp_rationaldenom)
-- 
2.43.0


From f7acd6fa495a3a3e043fe55ffbf0c3e5a78c11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 036/175] fix: proper position of the separators in zeros added
 for equal precision

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 2169658..14707bd 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -126,7 +126,7 @@ class decimal(_texter):
                     if tick.temp_decprecision == 0 and maxdecprecision > 0:
                         tick.label += self.decimalsep
                     for i in range(tick.temp_decprecision, maxdecprecision):
-                        if not ((i - 1) % 3) and i > 1:
+                        if not (i % 3) and i > 0:
                             tick.label += self.thousandthpartsep
                         tick.label += "0"
         for tick in labeledticks:
-- 
2.43.0


From cb8072e6b95a4e019629ea19859104a7bac7c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 037/175] fix: mark the period properly when separators are
 used

---
 pyx/graph/axis/texter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 14707bd..1f9b999 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -103,12 +103,13 @@ class decimal(_texter):
                 if remainder:
                     tick.label += self.decimalsep
                 oldremainders = []
+                digitstarts = []
                 tick.temp_decprecision = 0
                 while (remainder):
                     tick.temp_decprecision += 1
                     if remainder in oldremainders:
                         tick.temp_decprecision = None
-                        periodstart = len(tick.label) - (len(oldremainders) - oldremainders.index(remainder))
+                        periodstart = digitstarts[oldremainders.index(remainder)]
                         tick.label = tick.label[:periodstart] + self.period % tick.label[periodstart:]
                         break
                     oldremainders += [remainder]
@@ -116,6 +117,7 @@ class decimal(_texter):
                     quotient, remainder = divmod(remainder, n)
                     if not ((tick.temp_decprecision - 1) % 3) and tick.temp_decprecision > 1:
                         tick.label += self.thousandthpartsep
+                    digitstarts.append(len(tick.label))
                     tick.label += str(quotient)
                 else:
                     if maxdecprecision < tick.temp_decprecision:
-- 
2.43.0


From 60c8deff7a794cc4a35460ed73761b70e772d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 038/175] fix: manual ticks are not changed by the creation of
 an axis

---
 pyx/graph/axis/axis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 496275a..e189fb2 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import functools, logging, math
+import copy, functools, logging, math
 from pyx import attr, unit, text, utils
 from pyx.graph.axis import painter, parter, positioner, rater, texter, tick
 
@@ -137,6 +137,10 @@ class _regularaxis(_axis):
         else:
             convert_tick = lambda x: x
 
+        def manualticks():
+            # the ticks are modified by the layout and need to be copied (except for special tick classes like time ticks)
+            return [copy.copy(t) if isinstance(t, tick.tick) else t for t in self.manualticks]
+
         def layout(data):
             if data.ticks:
                 self.adjustaxis(data, [convert_tick(data.ticks[0]), convert_tick(data.ticks[-1])], graphtextengine, errorname)
@@ -150,7 +154,7 @@ class _regularaxis(_axis):
             return canvas
 
         if parter is None:
-            data.ticks = self.manualticks
+            data.ticks = manualticks()
             return layout(data)
 
         # a variant is a data copy with local modifications to test several partitions
@@ -196,7 +200,7 @@ class _regularaxis(_axis):
                 ticks = partfunction()
                 if ticks is None:
                     break
-                ticks = tick.mergeticklists(self.manualticks, ticks, mergeequal=0)
+                ticks = tick.mergeticklists(manualticks(), ticks, mergeequal=0)
                 if ticks:
                     rate = rater.rateticks(self, ticks)
                     if rate is not None:
-- 
2.43.0


From cfd297373bcf8a5e2976f7ca2a717ebe450f4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 039/175] fix: no endless loop for axes with nothing to be
 painted

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index e189fb2..4c3e083 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -228,7 +228,7 @@ class _regularaxis(_axis):
         for variant in variants:
             variant.storedcanvas = None
         variants.sort()
-        while not variants[0].storedcanvas:
+        while variants[0].storedcanvas is None:
             variants[0].storedcanvas = layout(variants[0])
             ratelayout = rater.ratelayout(variants[0].storedcanvas)
             if ratelayout is None:
-- 
2.43.0


From bfeec7b78fc3da068c62c7e079a2b434ff3e628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 040/175] fix: logarithmic axes can be called to modify their
 parameters

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 4c3e083..d41c40b 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -307,7 +307,7 @@ class logarithmic(_regularaxis):
         self.kwargs = kwargs
 
     def __call__(self, **kwargs):
-        return linear(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
+        return logarithmic(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
 
     def convert(self, data, value):
         """axis coordinates -> graph coordinates"""
-- 
2.43.0


From a00d3d765e7b7c47d63f06f1dfa0f6a89cf14469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 041/175] fix: pass painter and parter arguments through bar
 and autosized axes

---
 pyx/graph/axis/axis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index d41c40b..46d7127 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -374,8 +374,8 @@ class bar(_axis):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["defaultsubaxis", "painter", "linkpainter"], allow_only_split=True)
 
         if "defaultsubaxis" in split_kwargs: defaultsubaxis = linear(**split_kwargs["defaultsubaxis"])
-        if "painter" in split_kwargs: painter = painter.bar(**split_kwargs["painter"])
-        if "linkpainter" in split_kwargs: linkpainter = painter.linkedbar(**split_kwargs["linkpainter"])
+        if "painter" in split_kwargs: painter = painter(**split_kwargs["painter"])
+        if "linkpainter" in split_kwargs: linkpainter = linkpainter(**split_kwargs["linkpainter"])
 
         self.subaxes = subaxes
         self.defaultsubaxis = defaultsubaxis
@@ -546,7 +546,7 @@ class autosizedlinear(linear):
 
     def __init__(self, parter=parter.autolinear(extendtick=None), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["parter"])
-        if "parter" in split_kwargs: parter = parter.autolinear(**split_kwargs["parter"])
+        if "parter" in split_kwargs: parter = parter(**split_kwargs["parter"])
 
         linear.__init__(self, parter=parter, **rest_kwargs)
 
-- 
2.43.0


From 3cea8f42581d500a01edca288c9f925c8e3637f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 042/175] fix: vtickpoint of axes

---
 pyx/graph/axis/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 46d7127..acf7c9e 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -644,7 +644,8 @@ class anchoredaxis:
         return self.positioner.vtickpoint_pt(v)
 
     def vtickpoint(self, v):
-        return self.positioner.vtickpoint_pt(v) * unit.t_pt
+        x_pt, y_pt = self.positioner.vtickpoint_pt(v)
+        return x_pt * unit.t_pt, y_pt * unit.t_pt
 
     def tickpoint_pt(self, x):
         self.docreate()
-- 
2.43.0


From 973e2d9aa9fb2b1acb69fc12b10f782a54875c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 043/175] fix: bar axes keep their parameters when called to
 modify some of them

---
 pyx/graph/axis/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index acf7c9e..eb76439 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -380,6 +380,7 @@ class bar(_axis):
         self.subaxes = subaxes
         self.defaultsubaxis = defaultsubaxis
         self.dist = dist
+        self.distkwargs = {"firstdist": firstdist, "lastdist": lastdist}
         if firstdist is not None:
             self.firstdist = firstdist
         else:
@@ -396,7 +397,8 @@ class bar(_axis):
         self.kwargs = kwargs
 
     def __call__(self, **kwargs):
-        return bar(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["defaultsubaxis", "painter", "linkpainter"]))
+        return bar(**utils.merge_members_kwargs(self, [self.distkwargs, self.kwargs, kwargs],
+                                                ["subaxes", "defaultsubaxis", "dist", "title", "reverse", "epsilon", "painter", "linkpainter"]))
 
     def createdata(self, errorname):
         data = axisdata(size=self.firstdist+self.lastdist-self.dist, subaxes={}, names=[])
-- 
2.43.0


From 688d7d39ba5ac08ad8822ad9b2190734dae005fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 044/175] fix: label attributes might turn off the labels of a
 level

---
 pyx/graph/axis/painter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/axis/painter.py b/pyx/graph/axis/painter.py
index 8f55b0d..3edd740 100644
--- a/pyx/graph/axis/painter.py
+++ b/pyx/graph/axis/painter.py
@@ -188,6 +188,7 @@ class regular(_title):
 
         # create & align t.temp_labelbox
         for t in data.ticks:
+            t.temp_labelbox = None
             if t.labellevel is not None:
                 labelattrs = attr.selectattrs(self.labelattrs, t.labellevel, maxlabellevel)
                 if labelattrs is not None:
@@ -206,12 +207,12 @@ class regular(_title):
             equaldirection = 0
         if equaldirection and ((not data.ticks[0].temp_dx and self.labelvequalize) or
                                (not data.ticks[0].temp_dy and self.labelhequalize)):
-            if self.labelattrs is not None:
-                box.linealignequal_pt([t.temp_labelbox for t in data.ticks if t.labellevel is not None],
-                                      labeldist_pt, -data.ticks[0].temp_dx, -data.ticks[0].temp_dy)
+            labelboxes = [t.temp_labelbox for t in data.ticks if t.temp_labelbox is not None]
+            if labelboxes:
+                box.linealignequal_pt(labelboxes, labeldist_pt, -data.ticks[0].temp_dx, -data.ticks[0].temp_dy)
         else:
             for t in data.ticks:
-                if t.labellevel is not None and self.labelattrs is not None:
+                if t.temp_labelbox is not None:
                     t.temp_labelbox.linealign_pt(labeldist_pt, -t.temp_dx, -t.temp_dy)
 
         for t in data.ticks:
@@ -240,7 +241,7 @@ class regular(_title):
                 gridattrs = attr.selectattrs(self.defaultgridattrs + self.gridattrs, t.ticklevel, maxticklevel)
                 if gridattrs is not None:
                     canvas.layer("grid").stroke(axispos.vgridpath(t.temp_v), gridattrs)
-            if t.labellevel is not None and self.labelattrs is not None:
+            if t.temp_labelbox is not None:
                 canvas.layer("labels").insert(t.temp_labelbox)
                 canvas.labels.append(t.temp_labelbox)
                 extent_pt = t.temp_labelbox.extent_pt(t.temp_dx, t.temp_dy) + labeldist_pt
-- 
2.43.0


From a694131e06b18e44ed85a24a5d7c95b99de40b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 045/175] fix: text_pt of a canvas takes the keyword arguments
 of the text engine

---
 pyx/canvas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index dac7b48..eed0b44 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -427,14 +427,14 @@ class canvas(baseclasses.canvasitem):
         return self.insert(self.textengine.text(x, y, atext, *args, **kwargs))
 
 
-    def text_pt(self, x, y, atext, *args):
+    def text_pt(self, x, y, atext, *args, **kwargs):
         """insert a text into the canvas
 
         inserts a textbox created by self.textengine.text_pt into the canvas
 
         returns the inserted textbox"""
 
-        return self.insert(self.textengine.text_pt(x, y, atext, *args))
+        return self.insert(self.textengine.text_pt(x, y, atext, *args, **kwargs))
 
     writeEPSfile = _wrappedindocument(document.document.writeEPSfile)
     writePSfile = _wrappedindocument(document.document.writePSfile)
-- 
2.43.0


From 898afa34e7957577d941b8f28e237cf945707739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 046/175] fix: graph shortcuts xvtickpoint and zvtickpoint_pt
 take graph coordinates

---
 pyx/graph/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index c337591..8997b67 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -382,7 +382,7 @@ class graphxy(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -849,7 +849,7 @@ class graphxyz(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -870,7 +870,7 @@ class graphxyz(graph):
             self.zgridpath = self.axes["z"].gridpath
             self.ztickpoint_pt = self.axes["z"].tickpoint_pt
             self.ztickpoint = self.axes["z"].tickpoint
-            self.zvtickpoint_pt = self.axes["z"].vtickpoint
+            self.zvtickpoint_pt = self.axes["z"].vtickpoint_pt
             self.zvtickpoint = self.axes["z"].vtickpoint
             self.ztickdirection = self.axes["z"].tickdirection
             self.zvtickdirection = self.axes["z"].vtickdirection
-- 
2.43.0


From 9767e67898ca2474e5c2ff9b976b848ed06f423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 047/175] fix: grid paths of flipped and vertical one
 dimensional graphs

---
 pyx/graph/graph.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 8997b67..5c9f840 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -408,18 +408,22 @@ class graphxy(graph):
                 self.axesnames[1].append(axisname)
             aaxis.setcreatecall(self.doaxiscreate, axisname)
 
+        # the grid paths of the axes drawn horizontally and vertically
+        hvgridpath, vvgridpath = self.xvgridpath, self.yvgridpath
+        if self.flipped:
+            hvgridpath, vvgridpath = vvgridpath, hvgridpath
         self.axespositioners = dict(x=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt,
                                                                 self.xpos_pt + self.width_pt, self.ypos_pt,
-                                                                (0, 1), self.xvgridpath),
+                                                                (0, 1), hvgridpath),
                                     x2=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt + self.height_pt,
                                                                  self.xpos_pt + self.width_pt, self.ypos_pt + self.height_pt,
-                                                                 (0, -1), self.xvgridpath),
+                                                                 (0, -1), hvgridpath),
                                     y=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt,
                                                                 self.xpos_pt, self.ypos_pt + self.height_pt,
-                                                                (1, 0), self.yvgridpath),
+                                                                (1, 0), vvgridpath),
                                     y2=positioner.lineaxispos_pt(self.xpos_pt + self.width_pt, self.ypos_pt,
                                                                  self.xpos_pt + self.width_pt, self.ypos_pt + self.height_pt,
-                                                                 (-1, 0), self.yvgridpath))
+                                                                 (-1, 0), vvgridpath))
         if self.flipped:
             self.axespositioners = dict(x=self.axespositioners["y2"],
                                         y2=self.axespositioners["x2"],
@@ -506,12 +510,10 @@ class graphxy(graph):
             raise ValueError("direction invalid")
 
     def xvgridpath(self, vx):
-        return path.line_pt(self.xpos_pt + vx*self.width_pt, self.ypos_pt,
-                            self.xpos_pt + vx*self.width_pt, self.ypos_pt + self.height_pt)
+        return graphxy.vgeodesic(self, vx, 0, vx, 1)
 
     def yvgridpath(self, vy):
-        return path.line_pt(self.xpos_pt, self.ypos_pt + vy*self.height_pt,
-                            self.xpos_pt + self.width_pt, self.ypos_pt + vy*self.height_pt)
+        return graphxy.vgeodesic(self, 0, vy, 1, vy)
 
     def autokeygraphattrs(self):
         return dict(direction="vertical", length=self.height)
@@ -572,12 +574,12 @@ class graphxy(graph):
                 y_pt = self.axes[dependsonaxisname].positioner.y1_pt - sign * (self.axes[dependsonaxisname].canvas.extent_pt + self.axesdist_pt)
                 self.axes[axisname].setpositioner(positioner.lineaxispos_pt(self.xpos_pt, y_pt,
                                                                             self.xpos_pt + self.width_pt, y_pt,
-                                                                            (0, sign), self.xvgridpath))
+                                                                            (0, sign), self.flipped and self.yvgridpath or self.xvgridpath))
             else:
                 x_pt = self.axes[dependsonaxisname].positioner.x1_pt - sign * (self.axes[dependsonaxisname].canvas.extent_pt + self.axesdist_pt)
                 self.axes[axisname].setpositioner(positioner.lineaxispos_pt(x_pt, self.ypos_pt,
                                                                             x_pt, self.ypos_pt + self.height_pt,
-                                                                            (sign, 0), self.yvgridpath))
+                                                                            (sign, 0), self.flipped and self.xvgridpath or self.yvgridpath))
 
     def dolayout(self):
         if self.did(self.dolayout):
-- 
2.43.0


From 6b6540fe2b2857bfee67e23462ca84f7c42bc6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 048/175] fix: arguments of vgeodesic_el of one dimensional
 graphs

---
 pyx/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 5c9f840..1b32ef2 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -666,7 +666,7 @@ class graphx(graphxy):
     def vgeodesic(self, vx1, vx2):
         return graphxy.vgeodesic(self, vx1, 0.5, vx2, 0.5)
 
-    def vgeodesic_el(self, vx1, vy1, vx2, vy2):
+    def vgeodesic_el(self, vx1, vx2):
         return graphxy.vgeodesic_el(self, vx1, 0.5, vx2, 0.5)
 
     def vcap_pt(self, coordinate, length_pt, vx):
-- 
2.43.0


From 05ce9f1409140666e68895e9ff5628ed6e2a9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 049/175] fix: plotting data from an iterator

---
 pyx/graph/graph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 1b32ef2..20df91a 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -200,13 +200,10 @@ class graph(canvas.canvas):
             raise RuntimeError("can't plot further data after dostyles() has been executed")
         singledata = 0
         try:
-            for d in data:
-                pass
+            usedata = list(data)
         except Exception:
             usedata = [data]
             singledata = 1
-        else:
-            usedata = data
         if styles is None:
             for d in usedata:
                 if styles is None:
-- 
2.43.0


From 9dfa6f9e0e08da3377ed9a864c38b301cf6baecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 050/175] fix: data plotted after dokey of an empty graph were
 lost in the key

---
 pyx/graph/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 20df91a..874f4df 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -609,6 +609,7 @@ class graphxy(graph):
         if self.did(self.dokey):
             return
         self.dobackground()
+        self.dostyles()
         for plotitem in self.plotitems:
             self.dokeyitem(plotitem)
         if self.key is not None:
@@ -1137,6 +1138,7 @@ class graphxyz(graph):
         if self.did(self.dokey):
             return
         self.dobackground()
+        self.dostyles()
         for plotitem in self.plotitems:
             self.dokeyitem(plotitem)
         if self.key is not None:
-- 
2.43.0


From d49e1f93b802f65680f296af54cfcd704fd98ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 051/175] fix: tick direction of xyz graph axes moved by
 xy12axesat

---
 pyx/graph/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 874f4df..1a8e233 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -1028,7 +1028,7 @@ class graphxyz(graph):
             xy12axesatv = 0
         if axisname == "x":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vx: self.vpos_pt(vx, self.xorder, xy12axesatv),
-                                                                            lambda vx: self.vtickdirection(vx, self.xorder, 0, vx, 1-self.xorder, xy12axesatv),
+                                                                            lambda vx: self.vtickdirection(vx, self.xorder, xy12axesatv, vx, 1-self.xorder, xy12axesatv),
                                                                             self.xvgridpath))
             if self.xorder:
                 self.axes[axisname].hidden = not self.py1show and not self.pz0show
@@ -1036,7 +1036,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.py0show and not self.pz0show
         elif axisname == "x2":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vx: self.vpos_pt(vx, 1-self.xorder, xy12axesatv),
-                                                                            lambda vx: self.vtickdirection(vx, 1-self.xorder, 0, vx, self.xorder, xy12axesatv),
+                                                                            lambda vx: self.vtickdirection(vx, 1-self.xorder, xy12axesatv, vx, self.xorder, xy12axesatv),
                                                                             self.xvgridpath))
             if self.xorder:
                 self.axes[axisname].hidden = not self.py0show and not self.pz0show
@@ -1060,7 +1060,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.py1show and not self.pz1show
         elif axisname == "y":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vy: self.vpos_pt(self.yorder, vy, xy12axesatv),
-                                                                            lambda vy: self.vtickdirection(self.yorder, vy, 0, 1-self.yorder, vy, xy12axesatv),
+                                                                            lambda vy: self.vtickdirection(self.yorder, vy, xy12axesatv, 1-self.yorder, vy, xy12axesatv),
                                                                             self.yvgridpath))
             if self.yorder:
                 self.axes[axisname].hidden = not self.px1show and not self.pz0show
@@ -1068,7 +1068,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.px0show and not self.pz0show
         elif axisname == "y2":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vy: self.vpos_pt(1-self.yorder, vy, xy12axesatv),
-                                                                            lambda vy: self.vtickdirection(1-self.yorder, vy, 0, self.yorder, vy, xy12axesatv),
+                                                                            lambda vy: self.vtickdirection(1-self.yorder, vy, xy12axesatv, self.yorder, vy, xy12axesatv),
                                                                             self.yvgridpath))
             if self.yorder:
                 self.axes[axisname].hidden = not self.px0show and not self.pz0show
-- 
2.43.0


From 3f67e9b3b6ad55705ff745ff26bdc5c1db4fbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 052/175] fix: painting a key emptied the list of plot items
 passed

---
 pyx/graph/key.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/key.py b/pyx/graph/key.py
index 92ea984..107445c 100644
--- a/pyx/graph/key.py
+++ b/pyx/graph/key.py
@@ -101,6 +101,7 @@ class key:
         c = canvas.canvas()
         itemspercolumn = (len(plotitems) + self.columns - 1) // self.columns
         x_pt = 0
+        plotitems = list(plotitems)
         while plotitems:
             subc = self.paintcolumn(plotitems[:itemspercolumn])
             c.insert(subc, [trafo.translate_pt(x_pt, 0)])
-- 
2.43.0


From 7337461a6aadb2d1438d9c92bc03aa63af4fb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 053/175] fix: further graph axes without the axis next to the
 graph

---
 pyx/graph/graph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 1a8e233..70caeb8 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -559,10 +559,16 @@ class graphxy(graph):
         if axisname in ["x", "x2", "y", "y2"]:
             self.axes[axisname].setpositioner(self.axespositioners[axisname])
         else:
-            if axisname[1:] == "3":
-                dependsonaxisname = axisname[0]
-            else:
-                dependsonaxisname = "%s%d" % (axisname[0], int(axisname[1:]) - 2)
+            # find the next axis at the same side, which might not be the one two numbers below
+            dependsonaxisnumber = int(axisname[1:]) - 2
+            while dependsonaxisnumber > 2 and "%s%d" % (axisname[0], dependsonaxisnumber) not in self.axes:
+                dependsonaxisnumber -= 2
+            dependsonaxisname = axisname[0]
+            if dependsonaxisnumber > 1:
+                dependsonaxisname += str(dependsonaxisnumber)
+            if dependsonaxisname not in self.axes:
+                self.axes[axisname].setpositioner(self.axespositioners[dependsonaxisname])
+                return
             self.doaxiscreate(dependsonaxisname)
             sign = 2*(int(axisname[1:]) % 2) - 1
             if axisname[0] == "x" and self.flipped:
-- 
2.43.0


From 4707655fbe454645fbd5fbe79bb01f8e4c5f4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 054/175] fix: an empty comment line in front of the data hid
 the column names

---
 pyx/graph/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 81f2582..38e5bff 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -296,7 +296,8 @@ class file(data):
                 match = commentpattern.match(line)
                 if match:
                     if not len(columndata):
-                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0)
+                        # empty comment lines do not hide the column names in front of them
+                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0) or columns
                 else:
                     linedata = []
                     for value in self.splitline(line, stringpattern, columnpattern, tofloat=1):
-- 
2.43.0


From a70111abad2d7aa17321719afca271b1362a73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 055/175] fix: skiptail of data files counts lines like
 skiphead also together with every

---
 pyx/graph/data.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 38e5bff..b715b9b 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -290,7 +290,6 @@ class file(data):
             columns = []
             columndata = []
             linenumber = 0
-            maxcolumns = 0
             for line in file.readlines():
                 line = line.strip()
                 match = commentpattern.match(line)
@@ -304,14 +303,11 @@ class file(data):
                         linedata.append(value)
                     if len(linedata):
                         if linenumber >= skiphead and not ((linenumber - skiphead) % every):
-                            linedata = [linenumber + 1] + linedata
-                            if len(linedata) > maxcolumns:
-                                maxcolumns = len(linedata)
-                            columndata.append(linedata)
+                            columndata.append([linenumber + 1] + linedata)
                         linenumber += 1
-            if skiptail >= every:
-                skip, x = divmod(skiptail, every)
-                del columndata[-skip:]
+            while columndata and columndata[-1][0] > linenumber - skiptail:
+                del columndata[-1]
+            maxcolumns = max([len(linedata) for linedata in columndata], default=0)
             for i in range(len(columndata)):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
-- 
2.43.0


From e212a789aeafabdb2c1f20ce0c676e084099143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 056/175] fix: last column name lost for data files without
 data lines

---
 pyx/graph/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index b715b9b..0874383 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -312,7 +312,7 @@ class file(data):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
             return points(columndata, title=title, addlinenumbers=0,
-                          **dict([(column, i+1) for i, column in enumerate(columns[:maxcolumns-1])]))
+                          **dict([(column, i+1) for i, column in enumerate(columns) if not columndata or i+1 < maxcolumns]))
 
         try:
             filename.readlines
-- 
2.43.0


From 42688a9d29fd4f1b864886c073cc60a9d4973831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 057/175] fix: config file data with options first occurring in
 later sections

---
 pyx/graph/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 0874383..d2de8dd 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -367,6 +367,9 @@ class conffile(data):
                     else:
                         point[index] = value
                 columndata[i] = point
+            # fill up the columns missing in the sections in front of their first occurrence
+            for point in columndata:
+                point.extend([None]*(maxcolumns-len(point)))
             # wrap result into a data instance to remove column numbers
             result = data(points(columndata, addlinenumbers=0, **columns), title=title)
             # ... but reinsert sections as linenumbers
-- 
2.43.0


From aa1477937a91586c46286566360afcfbd2b1bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 058/175] fix: reading cbd files

---
 pyx/graph/data.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index d2de8dd..a873ba5 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -435,21 +435,21 @@ class cbdfile(data):
                 oln, olt = self.orgx, self.orgy
                 self.points = [(olt, oln)]
                 for i in range(self.nstrokes):
-                    c1, c2 = struct.unpack("2c", file.read(2))
-                    if ord(c2) & 0x40:
-                        if c1 > "\177":
-                            dy = ord(c1) - 256
+                    c1, c2 = struct.unpack("2B", file.read(2))
+                    if c2 & 0x40:
+                        if c1 > 127:
+                            dy = c1 - 256
                         else:
-                            dy = ord(c1)
-                        if c2 > "\177":
-                            dx = ord(c2) - 256
+                            dy = c1
+                        if c2 > 127:
+                            dx = c2 - 256
                         else:
-                            dx = ord(c2) - 64
+                            dx = c2 - 64
                     else:
-                        c3, c4, c5, c6, c7, c8 = struct.unpack("6c", file.read(6))
-                        if c2 > "\177":
-                            c2 = chr(ord(c2) | 0x40)
-                        dx, dy = struct.unpack("<2i", c3+c4+c1+c2+c7+c8+c5+c6)
+                        c3, c4, c5, c6, c7, c8 = struct.unpack("6B", file.read(6))
+                        if c2 > 127:
+                            c2 |= 0x40
+                        dx, dy = struct.unpack("<2i", bytes([c3, c4, c1, c2, c7, c8, c5, c6]))
                     oln += dx
                     olt += dy
                     self.points.append((olt, oln))
-- 
2.43.0


From 6af5d88293255e7d6dc857ea8ceb23775369d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 059/175] fix: comparisons in the expression of a parametric
 function

---
 pyx/graph/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index a873ba5..b530adc 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -571,7 +571,7 @@ class paramfunction(_data):
             self.title = expression
         else:
             self.title = title
-        varlist, expression = expression.split("=")
+        varlist, expression = expression.split("=", 1)
         expression = compile(expression.strip(), "<string>", "eval")
         keys = [key.strip() for key in varlist.split(",")]
         self.columns = dict([(key, []) for key in keys])
-- 
2.43.0


From ef18802856bd93fd84612674997e289360627d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 060/175] fix: no operation command within a page of a DVI file

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ebe938e..50616a6 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -447,7 +447,7 @@ class DVIfile:
                 continue
             if cmd == _DVI_NOP:
                 pass
-            if cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
+            elif cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
                 self.putchar(cmd, True, 0, fontmap)
             elif cmd >= _DVI_SET1234 and cmd < _DVI_SET1234 + 4:
                 self.putchar(afile.readint(cmd - _DVI_SET1234 + 1), True, cmd-_DVI_SET1234+1, fontmap)
-- 
2.43.0


From dbccc223fd8eb9382325c8a0c6f28acca76cb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 061/175] fix: font definitions between the pages of a DVI file

---
 pyx/dvi/dvifile.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 50616a6..62ec48c 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -400,6 +400,23 @@ class DVIfile:
             else:
                 raise DVIError
 
+    def _read_fntdef(self, cmd):
+        if cmd == _DVI_FNTDEF1234:
+            num = self.file.readuchar()
+        elif cmd == _DVI_FNTDEF1234+1:
+            num = self.file.readuint16()
+        elif cmd == _DVI_FNTDEF1234+2:
+            num = self.file.readuint24()
+        elif cmd == _DVI_FNTDEF1234+3:
+            # Cool, here we have according to docu a signed int. Why?
+            num = self.file.readint32()
+        self.definefont(cmd-_DVI_FNTDEF1234+1,
+                        num,
+                        self.file.readint32(),
+                        self.file.readint32(),
+                        self.file.readint32(),
+                        self.file.read(self.file.readuchar()+self.file.readuchar()).decode("ascii"))
+
     def readpage(self, pageid=None, fontmap=None, singlecharmode=False, attrs=[]):
         """ reads a page from the dvi file
 
@@ -422,6 +439,8 @@ class DVIfile:
                     self.debugfile.write("%d: beginning of page %i\n" % (self.filepos, ispageid[0]))
                 self.file.readuint32()
                 break
+            elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
+                self._read_fntdef(cmd)
             elif cmd == _DVI_POST:
                 self.file.close()
                 return None # nothing left
@@ -597,20 +616,6 @@ class DVIfile:
             elif cmd >= _DVI_SPECIAL1234 and cmd < _DVI_SPECIAL1234 + 4:
                 self.special(afile.read(afile.readint(cmd - _DVI_SPECIAL1234 + 1)).decode("ascii"), fontmap)
             elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
-                if cmd == _DVI_FNTDEF1234:
-                    num = afile.readuchar()
-                elif cmd == _DVI_FNTDEF1234+1:
-                    num = afile.readuint16()
-                elif cmd == _DVI_FNTDEF1234+2:
-                    num = afile.readuint24()
-                elif cmd == _DVI_FNTDEF1234+3:
-                    # Cool, here we have according to docu a signed int. Why?
-                    num = afile.readint32()
-                self.definefont(cmd-_DVI_FNTDEF1234+1,
-                                num,
-                                afile.readint32(),
-                                afile.readint32(),
-                                afile.readint32(),
-                                afile.read(afile.readuchar()+afile.readuchar()).decode("ascii"))
+                self._read_fntdef(cmd)
             else:
                 raise DVIError
-- 
2.43.0


From 42b3a3bf0fb0848c94d4f2bb48b62e8aa7adfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 062/175] fix: advance after rules in characters of virtual
 fonts was scaled twice

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 62ec48c..4df9180 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -154,7 +154,7 @@ class DVIfile:
             if self.debug:
                 self.debugfile.write(" h:=%d+%d=%d, hh:=???\n" %
                                      (self.pos[_POS_H], width, self.pos[_POS_H]+width))
-            self.pos[_POS_H] += width * self.scale
+            self.pos[_POS_H] += width
 
     def putchar(self, char, advancepos, id1234, fontmap):
         dx = advancepos and self.activefont.getwidth_dvi(char) or 0
-- 
2.43.0


From 3ab47d211913c576d3f79923183b8d8b3f87a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 063/175] fix: initial font and movement registers of
 characters of virtual fonts

---
 pyx/dvi/dvifile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 4df9180..eb827fc 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -346,7 +346,13 @@ class DVIfile:
         self.stack = []
         self.filepos = 0
 
-        self.usefont(0, 0, fontmap)
+        # w, x, y and z are zero at the beginning of a character of a virtual font
+        # and the font is the first one defined in the virtual font
+        self.pos = self.pos[:_POS_W] + [0, 0, 0, 0]
+        if fonts:
+            self.usefont(next(iter(fonts)), 0, fontmap)
+        else:
+            self.activefont = None
 
     def _pop_dvistring(self, fontmap):
         self.flushtext(fontmap)
-- 
2.43.0


From 4e9722b8873cea86842460aa30c7534e6ac55f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 064/175] fix: stack of a DVI file is empty at the beginning of
 a page

---
 pyx/dvi/dvifile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index eb827fc..85b9a98 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -456,6 +456,7 @@ class DVIfile:
         self.actpage = canvas.canvas(attrs)
         self.actpage.markers = {}
         self.pos = [0, 0, 0, 0, 0, 0]
+        self.stack = []
 
         # tuple (hpos, vpos, codepoints) to be output, or None if no output is pending
         self.activetext = None
-- 
2.43.0


From a70799f5ad0b0adbf14a5149b810a833f49bf94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 065/175] fix: font size in magnified DVI files

---
 pyx/dvi/texfont.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/texfont.py b/pyx/dvi/texfont.py
index 33c148f..e78c53a 100644
--- a/pyx/dvi/texfont.py
+++ b/pyx/dvi/texfont.py
@@ -61,10 +61,9 @@ class TeXfont:
 
     def getsize_pt(self):
         """ return size of font in (PS) points """
-        # The factor 16L/16777216L=2**(-20) converts a fix_word (here self.q)
-        # to the corresponding float. Furthermore, we have to convert from TeX
-        # points to points, hence the factor 72/72.27.
-        return 72/72.27 * 16*self.q/16777216
+        # self.q*self.tfmconv is the size of the font in DVI units; their
+        # conversion to points includes the magnification of the DVI file
+        return self.q*self.tfmconv*self.pyxconv
 
     def _convert_tfm_to_dvi(self, length):
         # doing the integer math with long integers will lead to different roundings
-- 
2.43.0


From d44707928272ccf1a78517cdfe486287f85144d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 066/175] fix: reading font metrics with additional header
 words printed them

---
 pyx/dvi/tfmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/tfmfile.py b/pyx/dvi/tfmfile.py
index b9829f1..4f92732 100644
--- a/pyx/dvi/tfmfile.py
+++ b/pyx/dvi/tfmfile.py
@@ -126,7 +126,7 @@ class TFMfile:
 
             if self.lh > 18:
                 # just ignore the rest
-                print(file.read((self.lh-18)*4))
+                file.read((self.lh-18)*4)
 
             #
             # read char_info
-- 
2.43.0


From a40abb11fe70eadbf7483923516f58358a8c0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 067/175] fix: accent position and width of composite
 characters in Type 1 fonts

---
 pyx/font/t1file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index a5fcd17..9e15b37 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -183,9 +183,13 @@ class _T1seac(T1cmd):
         achar = context.t1stack.pop(0)
         aglyph = adobestandardencoding[achar]
         bglyph = adobestandardencoding[bchar]
+        # the left sidebearing point of the accent is positioned relative to the
+        # left sidebearing point of the composite character, which also defines the width
+        sbx, wx, wy = context.x, context.wx, context.wy
         context.t1font.updateglyphpath(bglyph, path, atrafo, context)
-        atrafo = atrafo * trafo.translate_pt(adx-sab, ady)
+        atrafo = atrafo * trafo.translate_pt(sbx+adx-sab, ady)
         context.t1font.updateglyphpath(aglyph, path, atrafo, context)
+        context.wx, context.wy = wx, wy
 
     def gathercalls(self, seacglyphs, subrs, context):
         achar = context.t1stack.pop()
-- 
2.43.0


From 29e0c2dbae201b6a974ddb4635eec4bc23b43acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 068/175] fix: div in Type 1 fonts is not an integer division

---
 pyx/font/t1file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 9e15b37..afc1d43 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -511,12 +511,12 @@ class _T1div(T1cmd):
     def updatepath(self, path, trafo, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        context.t1stack.append(num1/num2)
 
     def gathercalls(self, seacglyphs, subrs, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        context.t1stack.append(num1/num2)
 
 T1div = _T1div()
 
-- 
2.43.0


From 5b8d65c274f2c30e49f93e8449a940c60ce1b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 069/175] fix: smallest number in Type 1 charstrings

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index afc1d43..43a2fb7 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -813,7 +813,7 @@ class T1File:
                 cmds.append(-((x - 251)*256) - code.pop(0) - 108)
             else: # x = 255, i.e. full size ints
                 y = ((code.pop(0)*256+code.pop(0))*256+code.pop(0))*256+code.pop(0)
-                if y > (1 << 31):
+                if y >= (1 << 31):
                     cmds.append(y - (1 << 32))
                 else:
                     cmds.append(y)
-- 
2.43.0


From 45137107cb50c6518f994762c046a4993cd55d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 070/175] fix: flex after counter control hints in Type 1 fonts

---
 pyx/font/t1file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 43a2fb7..8b69078 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -558,6 +558,9 @@ class _T1callothersubr(T1cmd):
             path.pathitems.pop()
             context.psstack.append(context.x)
             context.psstack.append(context.y)
+        elif othersubrnumber in (12, 13):
+            # counter control hints do not return anything
+            context.psstack = []
 
     def gathercalls(self, seacglyphs, subrs, context):
         othersubrnumber = context.t1stack.pop()
-- 
2.43.0


From 8c32a24bdfcb03aa7208a35dff77a41974ae2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 071/175] fix: reading Type 1 fonts in PFA format

---
 pyx/font/t1file.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 8b69078..ea2564c 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1170,13 +1170,18 @@ class T1File:
     def from_PFA_bytes(cls, bytes):
         """create a T1File instance from a string of bytes corresponding to a PFA file"""
         try:
-            m1 = bytes.index("eexec") + 6
-            m2 = bytes.index("0"*40)
+            m1 = bytes.index(b"eexec") + 6
+            # do not take zeros at the end of the encrypted part for the 512 zeros
+            m2 = re.search(rb"(0\s*){512}cleartomark", bytes)
+            if m2:
+                m2 = m2.start()
+            else:
+                m2 = bytes.index(b"0"*40)
         except ValueError:
            raise FontFormatError
 
         data1 = bytes[:m1].decode("ascii", errors="surrogateescape")
-        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(" ", "").replace("\r", "").replace("\n", ""))
+        data2eexec = binascii.a2b_hex(b"".join(bytes[m1: m2].split()))
         data3 = bytes[m2:].decode("ascii", errors="surrogateescape")
         return cls(data1, data2eexec, data3)
 
-- 
2.43.0


From 7c16d3bfb5bda7e365f2dc2ef9372be0a92357b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 072/175] fix: writing Type 1 fonts in PFB format

---
 pyx/font/t1file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index ea2564c..f320633 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1123,17 +1123,17 @@ class T1File:
             l, x1 = divmod(l, 256)
             l, x2 = divmod(l, 256)
             x4, x3 = divmod(l, 256)
-            return chr(x1) + chr(x2) + chr(x3) + chr(x4)
-        file.write("\200\1")
-        file.write(pfblength(self.data1))
+            return bytes([x1, x2, x3, x4])
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data1))
         file.write(self.data1)
-        file.write("\200\2")
-        file.write(pfblength(data2eexec))
-        file.write(data2eexec)
-        file.write("\200\1")
-        file.write(pfblength(self.data3))
+        file.write_bytes(b"\200\2")
+        file.write_bytes(pfblength(data2eexec))
+        file.write_bytes(data2eexec)
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data3))
         file.write(self.data3)
-        file.write("\200\3")
+        file.write_bytes(b"\200\3")
 
     def outputPS(self, file, writer):
         """output the PostScript code for the T1File to the file file"""
-- 
2.43.0


From 88fa8b8a440a1231b1bd9653c314843f0843a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 073/175] fix: encoding of Type 1 charstrings with lenIV larger
 than four

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index f320633..9eb8294 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -686,7 +686,7 @@ class T1File:
 
     def _charstringencode(self, data):
         """eexec encoding of data"""
-        return encoder(data, self.charstringr, b"PyX!"[:self.lenIV])
+        return encoder(data, self.charstringr, (b"PyX!"*(self.lenIV//4+1))[:self.lenIV])
 
     def _encoding(self):
         """helper method to lookup the encoding in the font"""
-- 
2.43.0


From 898655b6020ade4fa9ed798feeb336cb91e8f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 074/175] fix: size of slanted builtin fonts in PostScript
 output

---
 pyx/font/font.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index b3a1b3e..689386d 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -563,6 +563,8 @@ class T1text_pt(text_pt):
                 newfontmatrix = trafo.trafo_pt(matrix=((1, self.slant), (0, 1)))
                 if self.font.t1file is not None:
                     newfontmatrix = newfontmatrix * self.font.t1file.fontmatrix
+                else:
+                    newfontmatrix = newfontmatrix.scaled_pt(0.001)
                 newfontname = "%s-slant%f" % (fontname, self.slant)
                 registry.add(_ChangeFontMatrix)
                 registry.add(PSchangefontmatrix(fontname, newfontname, newfontmatrix))
-- 
2.43.0


From 18f5d1eb3357a05084393cead659b816bf4c9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 075/175] fix: comments in the encrypted part of Type 1 fonts

---
 pyx/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index 3718d07..c689358 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -167,7 +167,7 @@ class PSbytes_tokenizer(PStokenizer):
 
     def __init__(self, data, startstring=None, eattokensep=1,
                  tokenseps=b" \t\r\n", tokenstarts=b"()<>[]{}/%",
-                 commentchar=b"%", newlinechars=b"\r\n"):
+                 commentchar=b"%"[0], newlinechars=b"\r\n"):
         super().__init__(data, startstring=startstring, eattokensep=eattokensep,
                          tokenseps=tokenseps, tokenstarts=tokenstarts,
                          commentchar=commentchar, newlinechars=newlinechars)
-- 
2.43.0


From d90107ec6754d13454027db785c08a915b32ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 076/175] fix: Type 1 fonts with an empty encoding

---
 pyx/font/t1file.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 9eb8294..179cf27 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -698,10 +698,11 @@ class T1File:
         else:
             self.encoding = [None]*256
             while True:
-                self.encodingstart = c.pos
-                if c.gettoken() == "dup":
+                self.encodingstart = self.encodingend = c.pos
+                token = c.gettoken()
+                if token in ["dup", "readonly", "def"]:
                     break
-            while True:
+            while token == "dup":
                 i = c.getint()
                 glyph = c.gettoken()
                 if 0 <= i < 256:
@@ -709,9 +710,7 @@ class T1File:
                 token = c.gettoken(); assert token == "put"
                 self.encodingend = c.pos
                 token = c.gettoken()
-                if token == "readonly" or token == "def":
-                    break
-                assert token == "dup"
+                assert token in ["dup", "readonly", "def"]
 
     lenIVpattern = re.compile(rb"/lenIV\s+(\d+)\s+def\s+")
     flexhintsubrs = [[3, 0, T1callothersubr, T1pop, T1pop, T1setcurrentpoint, T1return],
-- 
2.43.0


From c900ad47df65a0b5fcd6c33e9f9ca9ef5617d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 077/175] fix: Type 1 fonts without subroutines

---
 pyx/font/t1file.py | 49 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 179cf27..2f499df 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -735,28 +735,33 @@ class T1File:
         self.emptysubr = self._charstringencode(b"\x0b") # 11, i.e. return
 
         # extract Subrs
-        c = reader.PSbytes_tokenizer(self._data2, b"/Subrs")
-        self.subrsstart = c.pos
-        arraycount = c.getint()
-        token = c.gettoken(); assert token == b"array"
         self.subrs = []
-        for i in range(arraycount):
-            token = c.gettoken(); assert token == b"dup"
-            token = c.getint(); assert token == i
-            size = c.getint()
-            if not i:
-                self.subrrdtoken = c.gettoken()
-            else:
-                token = c.gettoken(); assert token == self.subrrdtoken
-            self.subrs.append(c.getbytes(size))
-            token = c.gettoken()
-            if token == b"noaccess":
-                token = token + b" " + c.gettoken()
-            if not i:
-                self.subrnptoken = token
-            else:
-                assert token == self.subrnptoken
-        self.subrsend = c.pos
+        # a font without any Subrs does not need to define the array
+        self.hassubrs = b"/Subrs" in self._data2
+        if self.hassubrs:
+            c = reader.PSbytes_tokenizer(self._data2, b"/Subrs")
+            self.subrsstart = c.pos
+            arraycount = c.getint()
+            token = c.gettoken(); assert token == b"array"
+            for i in range(arraycount):
+                token = c.gettoken(); assert token == b"dup"
+                token = c.getint(); assert token == i
+                size = c.getint()
+                if not i:
+                    self.subrrdtoken = c.gettoken()
+                else:
+                    token = c.gettoken(); assert token == self.subrrdtoken
+                self.subrs.append(c.getbytes(size))
+                token = c.gettoken()
+                if token == b"noaccess":
+                    token = token + b" " + c.gettoken()
+                if not i:
+                    self.subrnptoken = token
+                else:
+                    assert token == self.subrnptoken
+            self.subrsend = c.pos
+        else:
+            arraycount = self.subrsstart = self.subrsend = 0
 
         # hasflexhintsubrs is a boolean indicating that the font uses flex or
         # hint replacement subrs as specified by Adobe (tm). When it does, the
@@ -937,6 +942,8 @@ class T1File:
         w = writer.writer(io.BytesIO())
 
         def addsubrs(subrs):
+            if not self.hassubrs:
+                return
             if subrs is not None:
                 # some adjustments to the subrs dict
                 if subrs:
-- 
2.43.0


From f6ffd75b5e3eae4446a4f059ffe3f2821f29e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 078/175] fix: Type 1 fonts with noaccess def after the glyphs

---
 pyx/font/t1file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 2f499df..3e57e9e 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -794,10 +794,13 @@ class T1File:
                 token = c.gettoken(); assert token == self.glyphrdtoken
             self.glyphlist.append(chartoken[1:])
             self.glyphs[chartoken[1:]] = c.getbytes(size)
+            token = c.gettoken()
+            if token == b"noaccess":
+                token = token + b" " + c.gettoken()
             if first:
-                self.glyphndtoken = c.gettoken()
+                self.glyphndtoken = token
             else:
-                token = c.gettoken(); assert token == self.glyphndtoken
+                assert token == self.glyphndtoken
             first = False
         self.charstringsend = c.pos
         assert not self.subrs or self.subrrdtoken == self.glyphrdtoken
-- 
2.43.0


From 934729132664dd902fa37dc07ed77dd7b89155ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 079/175] fix: subroutines used by .notdef in stripped Type 1
 fonts

---
 pyx/font/t1file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 3e57e9e..96a19d9 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1028,6 +1028,9 @@ class T1File:
         for charcode in charcodes:
             glyphs.add(self.encoding[charcode])
 
+        # the .notdef glyph is always needed (including the subrs it uses)
+        glyphs.add(".notdef")
+
         # collect information about used glyphs and subrs
         seacglyphs = set()
         subrs = set()
@@ -1036,7 +1039,6 @@ class T1File:
         # while we have gathered all subrs for the seacglyphs alreadys, we
         # might have missed the glyphs themself (when they are not used stand-alone)
         glyphs.update(seacglyphs)
-        glyphs.add(".notdef")
 
         # strip data1
         if self.encoding is adobestandardencoding:
-- 
2.43.0


From f4920fa714530c68e59bd64c47d43c2a85fde220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 080/175] fix: glyph widths of Type 1 fonts with an offset in
 the font matrix

---
 pyx/font/t1file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 96a19d9..b5b3f11 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -929,7 +929,9 @@ class T1File:
                 self.path = p
                 self.wx_pt = wx_pt
                 self.wy_pt = wy_pt
-        return glyphpath(p, *t.apply_pt(context.wx, context.wy))
+        wx_pt, wy_pt = t.apply_pt(context.wx, context.wy)
+        x0_pt, y0_pt = t.apply_pt(0, 0)
+        return glyphpath(p, wx_pt - x0_pt, wy_pt - y0_pt)
 
     def getdata2(self, subrs=None, glyphs=None):
         """makes a data2 string
-- 
2.43.0


From 09c7c0e4591fcc6a3060d08af2c81bcba0860b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 081/175] fix: Type 1 fonts with a skewed font matrix

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index b5b3f11..ff4b204 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -670,7 +670,7 @@ class T1File:
 
         self.name, = self.fontnamepattern.search(self.data1).groups()
         m11, m12, m21, m22, v1, v2 = list(map(float, self.fontmatrixpattern.search(self.data1).groups()[:6]))
-        self.fontmatrix = trafo.trafo_pt(matrix=((m11, m12), (m21, m22)), vector=(v1, v2))
+        self.fontmatrix = trafo.trafo_pt(matrix=((m11, m21), (m12, m22)), vector=(v1, v2))
 
     def _eexecdecode(self, code):
         """eexec decoding of code"""
-- 
2.43.0


From 4545293a18d6c848639743f351c18f46f4f1a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 082/175] fix: slanted text in textpath and text as path

---
 pyx/font/font.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 689386d..ab82e4b 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -532,8 +532,14 @@ class T1text_pt(text_pt):
                     self._textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
+            if self.slant:
+                self._textpath = self._textpath.transformed(self._slanttrafo())
         return self._textpath
 
+    def _slanttrafo(self):
+        """slanting keeps the baseline of the text"""
+        return trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0))
+
     def processPS(self, file, writer, context, registry, bbox):
         if not self.ignorebbox:
             bbox += self.bbox()
-- 
2.43.0


From ea7b64981741a8d91b30cfc1b5ab844cc9e2a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 083/175] fix: slanted text in SVG output

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index ab82e4b..91f29bc 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -739,7 +739,7 @@ class T1text_pt(text_pt):
             if context.fillopacity:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
-                trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
+                self._slanttrafo().processSVGattrs(attrs, writer, context, registry)
             xml.startSVGElement("text", attrs)
             tspan = False
             for i, value in enumerate(data):
-- 
2.43.0


From e728a6f5a1367a20224a12177b7e90d1ce37137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 084/175] fix: completely transparent text in SVG output

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 91f29bc..9b15d05 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -736,7 +736,7 @@ class T1text_pt(text_pt):
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
                      "fill": context.fillcolor}
-            if context.fillopacity:
+            if context.fillopacity != 1:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
                 self._slanttrafo().processSVGattrs(attrs, writer, context, registry)
-- 
2.43.0


From 9cd7823308bdeab4177a899191862eeddd7986c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 085/175] fix: tile for directions not being normalized

---
 pyx/box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index c09ed7f..9b2e254 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -283,6 +283,8 @@ def tile_pt(polygons, a, dx, dy):
         if extent > maxextent:
             maxextent = extent
     delta = maxextent + a
+    n = math.hypot(dx, dy)
+    dx, dy = dx / n, dy / n
     d = 0
     for p in polygons:
         p.transform(trafo.translate_pt(d*dx, d*dy))
-- 
2.43.0


From 24054c230f5da4887bcdcbb96959e24afca5afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 086/175] fix: distance of a box being inside of another box

---
 pyx/box.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index 9b2e254..aa666a5 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -221,6 +221,12 @@ class polygon_pt:
     def pointdistance(self, x, y):
         return self.pointdistance_pt(unit.topt(x), unit.topt(y)) * unit.t_pt
 
+    def _contains_pt(self, x, y):
+        """whether the point is inside of the (convex) box"""
+        sides = [(p2[0] - p1[0]) * (y - p1[1]) - (p2[1] - p1[1]) * (x - p1[0])
+                 for p1, p2 in self.successivepoints() if tuple(p1) != tuple(p2)]
+        return bool(sides) and (min(sides) > 0 or max(sides) < 0)
+
     def boxdistance_pt(self, other, epsilon=1e-10):
         # XXX: boxes crossing and distance calculation is O(N^2)
         for p1, p2 in self.successivepoints():
@@ -232,6 +238,9 @@ class polygon_pt:
                     a / c > -epsilon and a / c < 1 + epsilon and
                     b / c > -epsilon and b / c < 1 + epsilon):
                     raise BoxCrossError
+        # without crossing edges one box might still be completely inside of the other
+        if self._contains_pt(*other.corners[0]) or other._contains_pt(*self.corners[0]):
+            raise BoxCrossError
         result = None
         for x, y in other.corners:
             new = self.pointdistance_pt(x, y)
-- 
2.43.0


From 927e132685bd0ac8c4f5b6c0b4ecbca81b5c118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 087/175] fix: two-line connectors with a right angle and end
 distances without intersection

---
 pyx/connector.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyx/connector.py b/pyx/connector.py
index 3ff0faa..68820a0 100644
--- a/pyx/connector.py
+++ b/pyx/connector.py
@@ -58,7 +58,8 @@ class connector_pt(normpath.normpath):
             pass
         else:
             sp = self.intersect(cutpath)[0]
-            self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
+            if sp:
+                self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
 
         # cut off the end of self
         center = self.atend_pt()
@@ -317,7 +318,11 @@ class twolines_pt(connector_pt):
     def _missinglength(self, lenA, lenB, angleA):
         # calculate lenC, where side A and angleA are opposite
         tmp1 = lenB * cos(angleA)
-        tmp2 = sqrt(tmp1**2 - lenB**2 + lenA**2)
+        tmp2 = tmp1**2 - lenB**2 + lenA**2
+        # the discriminant vanishes for a right angle opposite to lenB
+        if -1e-10*lenB**2 < tmp2 < 0:
+            tmp2 = 0
+        tmp2 = sqrt(tmp2)
         if tmp1 > tmp2: return tmp1 - tmp2
         return tmp1 + tmp2
 
-- 
2.43.0


From 8902fd5f656dd7b8c84d8636d4dbe5b3ff351b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 088/175] fix: sign and daylight saving of the time zone in the
 PDF creation date

---
 pyx/pdfwriter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 7bbc06b..813ac30 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -172,14 +172,16 @@ class PDFinfo(PDFobject):
             creation_date = time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH')))
             timezone = "Z00'00'"
         else:
-            if time.timezone < 0:
+            creation_date = time.localtime()
+            # the offset of the local time (including daylight saving) from UT; positive when being later than UT
+            offset = creation_date.tm_gmtoff//60
+            if offset < 0:
                 # divmod on positive numbers, otherwise the minutes have a different sign from the hours
-                timezone = "-%02i'%02i'" % divmod(-time.timezone/60, 60)
-            elif time.timezone > 0:
-                timezone = "+%02i'%02i'" % divmod(time.timezone/60, 60)
+                timezone = "-%02i'%02i'" % divmod(-offset, 60)
+            elif offset > 0:
+                timezone = "+%02i'%02i'" % divmod(offset, 60)
             else:
                 timezone = "Z00'00'"
-            creation_date = time.localtime()
 
         def pdfstring(s):
             r = ""
-- 
2.43.0


From 090aaf0e9a17771a7f7a8fbddedb9d0c9a394122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 089/175] fix: characters beyond Latin 1 in PDF document
 information

---
 pyx/pdfwriter.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 813ac30..609a574 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -33,6 +33,22 @@ from . import bbox, config, style, unit, version, trafo, writer
 
 
 
+def pdfstring(s):
+    """ return the text s as the content of a PDF literal string """
+    if all(c in "\t\n\r" or 0x20 <= ord(c) <= 0x7e or 0xa1 <= ord(c) <= 0xff and ord(c) != 0xad for c in s):
+        # PDFDocEncoding agrees to Latin 1 for those characters
+        data = s.encode("latin1")
+    else:
+        data = b"\xfe\xff" + s.encode("utf-16-be")
+    r = ""
+    for c in data:
+        if 32 <= c <= 126 and chr(c) not in "()[]<>\\":
+            r += chr(c)
+        else:
+            r += "\\%03o" % c
+    return r
+
+
 class PDFregistry:
 
     def __init__(self):
@@ -183,15 +199,6 @@ class PDFinfo(PDFobject):
             else:
                 timezone = "Z00'00'"
 
-        def pdfstring(s):
-            r = ""
-            for c in s:
-                if 32 <= ord(c) <= 127 and c not in "()[]<>\\":
-                    r += c
-                else:
-                    r += "\\%03o" % ord(c)
-            return r
-
         file.write("<<\n")
         if writer.title:
             file.write("/Title (%s)\n" % pdfstring(writer.title))
-- 
2.43.0


From bcb56517c3133684fddc39f04e43dfa3c1337a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 090/175] fix: parentheses, backslashes and special characters
 in the strings of PDF form fields

---
 pyx/pdfextra.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index aa64e5e..21c5400 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -125,6 +125,9 @@ def _simplestring(text): # <<<
             result += x
     return result
 # >>>
+def _escape(text): # <<<
+    return text.replace("\\", "\\\\").replace("(", "\\(").replace(")", "\\)")
+# >>>
 def _sizetrafo(s, tr): # <<<
     x1, y1 = tr.apply_pt(s, s)
     x0, y0 = tr.apply_pt(0, 0)
@@ -264,11 +267,11 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
             file.write("/AP <</N %d 0 R >>\n" % registry.getrefno(self.defaulttext)) # appearance dictionary
         ### the dictionary entries for the form field
         file.write("/FT /Tx\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
-        file.write("/V (%s)\n" % self.defaultvalue) # starting value
-        file.write("/DV (%s)\n" % self.defaultvalue) # reset value
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
+        file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
+        file.write("/DV (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # reset value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR ")
@@ -314,9 +317,9 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
     def write(self, file, awriter, registry):
         contentfile = writer.writer(io.BytesIO())
-        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self.texts[0]))
+        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, _escape(self.texts[0])))
         for text in self.texts[1:]:
-            contentfile.write(" (%s)'" % (text))
+            contentfile.write(" (%s)'" % _escape(text))
         contentfile.write(" ET Q EMC\n")
 
         content = contentfile.file.getvalue()
@@ -479,9 +482,9 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         ### the dictionary entries for the form field
         file.write("/FT /Btn\n") # type of the form field
         file.write("/Kids [%s]\n" % " ".join(["%d 0 R" % registry.getrefno(x) for x in self.checkboxes]))
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
         file.write("/V /%s\n" % self.defaultvalue)
         file.write(">>\n")
@@ -686,11 +689,11 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         #ile.write("/AP <</N  >>\n") # appearance dictionary TODO
         ### the dictionary entries for the form field
         file.write("/FT /Ch\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         if self.defaultvalue in self.values:
-            file.write("/V (%s)\n" % self.defaultvalue) # starting value
+            file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR <</Font <</%s %d 0 R >> >>\n" % (self.font.name, registry.getrefno(self.font))) # default resources for appearance
@@ -698,7 +701,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         file.write("/Q %d\n" % self.alignflag)
         file.write("/Opt [")
         for value in self.values:
-            file.write(" (%s)" % value)
+            file.write(" (%s)" % pdfwriter.pdfstring(value))
         file.write(" ]\n")
         file.write(">>\n")
 # >>>
-- 
2.43.0


From c531af77752f1850a9223c2f63633d162f81d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 091/175] fix: fill styles for PDF text fields

---
 pyx/pdfextra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 21c5400..49f3fde 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -247,7 +247,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
                 cont = pdfwriter.context()
                 cont.fillattr = 1
                 cont.strokeattr = 0
-                attr.processPDF(fillstring, writer, cont, self.registry, bbox)
+                attr.processPDF(fillstring, writer, cont, self.registry)
         self.fillstyles = fillstring.getvalue()
         fillstring.close()
 
-- 
2.43.0


From fa269e1a759b52b906901ed368e8a69b7dbdd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 092/175] fix: PDF text fields with a default value of blank
 lines only

---
 pyx/pdfextra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 49f3fde..7c4a215 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -294,7 +294,7 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
         self.registry.add(self.font)
 
         self.bb = (0, 0, bb[2] - bb[0], bb[3] - bb[1])
-        self.texts = [t for t in texts if t]
+        self.texts = [t for t in texts if t] or [""]
 
         self.borderwidth = borderwidth
         # try to imitate the shifting of PDF:
-- 
2.43.0


From 257b5cd412a79bdcaf19c4904151705447142979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 093/175] fix: initial value of PDF radio buttons

---
 pyx/pdfextra.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 7c4a215..2824219 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -486,7 +486,12 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
         file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
-        file.write("/V /%s\n" % self.defaultvalue)
+        for chbox in self.checkboxes:
+            if chbox.defaultvalue != "Off":
+                file.write("/V /%s\n" % chbox.defaultvalue)
+                break
+        else:
+            file.write("/V /Off\n")
         file.write(">>\n")
 # >>>
 class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
-- 
2.43.0


From 61e5914829220a4df1f68ec0a1c530a51651510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 094/175] fix: fill styles leaking into PDF text fields outside
 of the canvas

---
 pyx/pdfwriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 609a574..7010526 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -418,6 +418,7 @@ class context:
 
     def __call__(self, **kwargs):
         newcontext = copy.copy(self)
+        newcontext.fillstyles = list(self.fillstyles)
         for key, value in list(kwargs.items()):
             setattr(newcontext, key, value)
         return newcontext
-- 
2.43.0


From ce007c8db6ea73708019bccabf66608ee1175dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 095/175] fix: compresslevel ignored in PDF output

---
 pyx/pdfwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 7010526..bdbffa8 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -329,7 +329,7 @@ class PDFcontent(PDFobject):
 
     def write(self, file, awriter, registry):
         if awriter.compress:
-            content = zlib.compress(self.content)
+            content = zlib.compress(self.content, awriter.compresslevel)
         else:
             content = self.content
         file.write("<<\n"
-- 
2.43.0


From fe754bae2358db866766ae604dc23fe7d4ead39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 096/175] fix: annotations of all pages assigned to each page
 in PDF output

---
 pyx/pdfwriter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index bdbffa8..0ac3f35 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -290,6 +290,12 @@ class PDFpage(PDFobject):
 
         self.pdfcontent = PDFcontent(page, writer, self.pageregistry)
         self.pageregistry.add(self.pdfcontent)
+        # the annotations need to be kept separately for each page
+        self.pdfannotations = None
+        for object in self.pageregistry.objects:
+            if object.type == "annotations":
+                object.id = self.id
+                self.pdfannotations = object
         registry.mergeregistry(self.pageregistry)
 
     def write(self, file, writer, registry):
@@ -308,9 +314,8 @@ class PDFpage(PDFobject):
         if self.page.rotated:
             file.write("/Rotate 90\n")
 
-        pdfannotations = PDFannotations([])
-        if pdfannotations in registry:
-            file.write("/Annots %i 0 R\n" % registry.getrefno(pdfannotations))
+        if self.pdfannotations is not None:
+            file.write("/Annots %i 0 R\n" % registry.getrefno(self.pdfannotations))
         file.write("/Contents %i 0 R\n" % registry.getrefno(self.pdfcontent))
         file.write("/Resources ")
         self.pageregistry.writeresources(file)
-- 
2.43.0


From 399ebea59f448f2e568b60e35f49b0491a3fd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 097/175] fix: deprecated arguments of the writers

---
 pyx/pdfwriter.py | 4 ++--
 pyx/pswriter.py  | 4 ++--
 pyx/svgwriter.py | 6 ++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 0ac3f35..75e61f1 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -377,11 +377,11 @@ class PDFwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("PDFwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PDFwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 69a4701..477877e 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -110,11 +110,11 @@ class _PSwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("(E)PSwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 19d168c..3b1d665 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -19,9 +19,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, xml.sax.saxutils
+import io, copy, logging, time, xml.sax.saxutils
 from . import bbox, config, style, version, unit, trafo
 
+logger = logging.getLogger("pyx")
+
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
 
@@ -183,7 +185,7 @@ class SVGwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap_resolution is not None:
             logger.warning("SVGwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
-- 
2.43.0


From 9c003244776ba543b6128bea8e4f0ecb2298dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 098/175] fix: meshes as bitmaps in PostScript output

---
 pyx/pswriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 477877e..43ef984 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -115,6 +115,7 @@ class _PSwriter:
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
             meshasbitmapresolution = mesh_as_bitmap_resolution
+        self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
-- 
2.43.0


From 76206525886614590b26c91b2a89ef3c9224f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 099/175] fix: PDF document information starting like an UTF-16
 byte order mark

---
 pyx/pdfwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 75e61f1..56b492b 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -35,7 +35,7 @@ from . import bbox, config, style, unit, version, trafo, writer
 
 def pdfstring(s):
     """ return the text s as the content of a PDF literal string """
-    if all(c in "\t\n\r" or 0x20 <= ord(c) <= 0x7e or 0xa1 <= ord(c) <= 0xff and ord(c) != 0xad for c in s):
+    if not s.startswith("\xfe\xff") and all(c in "\t\n\r" or 0x20 <= ord(c) <= 0x7e or 0xa1 <= ord(c) <= 0xff and ord(c) != 0xad for c in s):
         # PDFDocEncoding agrees to Latin 1 for those characters
         data = s.encode("latin1")
     else:
-- 
2.43.0


From 2792f8cae59b4aca5e97852ae1251f9a90477cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 100/175] fix: different images with the same data merged into
 one

---
 pyx/bitmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6adba06..6dc101c 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -430,7 +430,10 @@ class bitmap_trafo(baseclasses.canvasitem):
             else:
                 alpha = alpha.tobytes()
 
-        imagehash = hashlib.sha1(data).hexdigest()[0:15]
+        # the same data describe a different image for another size, mode, palette or alpha channel
+        imagehash = hashlib.sha1(data)
+        imagehash.update(repr((self.imagewidth, self.imageheight, mode, palettemode, palettedata, alpha)).encode("ascii"))
+        imagehash = imagehash.hexdigest()[0:15]
 
         return mode, data, alpha, palettemode, palettedata, imagehash
 
-- 
2.43.0


From 050c8809322a7b559de51a4e0ebfa266da9eb128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 101/175] fix: optimize and progression options for DCT
 compression of bitmaps

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6dc101c..d5702d8 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -418,7 +418,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         if self.compressmode == "Flate":
             data = zlib.compress(data.tobytes(), self.flatecompresslevel)
         elif self.compressmode == "DCT":
-            data = data.tobytes("jpeg", mode, self.dctquality, self.dctoptimize, self.dctprogression)
+            data = data.tobytes("jpeg", mode, self.dctquality, self.dctprogression, 0, self.dctoptimize)
         else:
             data = data.tobytes()
         if alpha and not interleavealpha:
@@ -426,7 +426,7 @@ class bitmap_trafo(baseclasses.canvasitem):
             if self.compressmode == "Flate":
                 alpha = zlib.compress(alpha.tobytes(), self.flatecompresslevel)
             elif self.compressmode == "DCT":
-                alpha = alpha.tobytes("jpeg", mode, self.dctquality, self.dctoptimize, self.dctprogression)
+                alpha = alpha.tobytes("jpeg", "L", self.dctquality, self.dctprogression, 0, self.dctoptimize)
             else:
                 alpha = alpha.tobytes()
 
-- 
2.43.0


From 5adbd6fa565f59e0cd3cc4a60070e70da4df818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 102/175] fix: number of data lines for stored bitmaps in
 PostScript

---
 pyx/bitmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index d5702d8..0be8117 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -43,7 +43,7 @@ decodestrings = {"L": "[0 1]",
 def ascii85lines(datalen):
     if datalen < 4:
         return 1
-    return (datalen + 56)/60
+    return (datalen + 56)//60
 
 def ascii85stream(file, data):
     """Encodes the string data in ASCII85 and writes it to
@@ -84,7 +84,7 @@ def ascii85stream(file, data):
 
 _asciihexlinelength = 64
 def asciihexlines(datalen):
-    return (datalen*2 + _asciihexlinelength - 1) / _asciihexlinelength
+    return (datalen*2 + _asciihexlinelength - 1) // _asciihexlinelength
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
@@ -234,7 +234,7 @@ class PSimagedata(pswriter.PSresource):
             datalen = len(self.data)
             tailpos = datalen - datalen % self.maxstrlen
             file.write("%%%%BeginData: %i ASCII Lines\n" %
-                       ((tailpos/self.maxstrlen) * ascii85lines(self.maxstrlen) +
+                       ((tailpos//self.maxstrlen) * ascii85lines(self.maxstrlen) +
                         ascii85lines(datalen-tailpos)))
             file.write("[ ")
             for i in range(0, tailpos, self.maxstrlen):
-- 
2.43.0


From e5149721f880c6ec330c3e9531f1f0abe43cd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 103/175] fix: hexadecimal encoding of bitmaps in PostScript

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 0be8117..bae63db 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -88,8 +88,8 @@ def asciihexlines(datalen):
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
-    for i in range((len(hexdata)-1)/_asciihexlinelength + 1):
-        file.write(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
+    for i in range((len(hexdata)-1)//_asciihexlinelength + 1):
+        file.write_bytes(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
         file.write("\n")
 
 
-- 
2.43.0


From 8303ee4b1ffd4fb9d2bdc99b4341da43cde4e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 104/175] fix: number of entries of gray and cmyk palettes

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index bae63db..28021f1 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -304,7 +304,7 @@ class PDFimage(pdfwriter.PDFobject):
                    "/Width %d\n" % self.width)
         file.write("/Height %d\n" % self.height)
         if self.palettedata is not None:
-            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)/3-1))
+            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)//len(self.palettemode)-1))
             file.write("%d 0 R\n" % registry.getrefno(self.PDFpalettedata))
             file.write("]\n")
         else:
@@ -466,7 +466,7 @@ class bitmap_trafo(baseclasses.canvasitem):
 
         file.write("gsave\n")
         if palettedata is not None:
-            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)/3-1))
+            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)//len(palettemode)-1))
             file.write("%%%%BeginData: %i ASCII Lines\n" % ascii85lines(len(palettedata)))
             file.write("<~")
             ascii85stream(file, palettedata)
-- 
2.43.0


From b7e7424da23cbf96448f4dce19bca75340df0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 105/175] fix: resource comments of stored bitmaps in
 PostScript

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 28021f1..6a39383 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -223,7 +223,7 @@ class PSimagedata(pswriter.PSresource):
         self.maxstrlen = maxstrlen
 
     def output(self, file, writer, registry):
-        file.write("%%%%BeginRessource: %s\n" % self.id)
+        file.write("%%%%BeginResource: %s\n" % self.id)
         if self.singlestring:
             file.write("%%%%BeginData: %i ASCII Lines\n"
                        "<~" % ascii85lines(len(self.data)))
@@ -248,7 +248,7 @@ class PSimagedata(pswriter.PSresource):
             file.write("]\n"
                        "%%EndData\n")
         file.write("/%s exch def\n" % self.id)
-        file.write("%%EndRessource\n")
+        file.write("%%EndResource\n")
 
 
 class PDFimagepalettedata(pdfwriter.PDFobject):
-- 
2.43.0


From bb08c2054460810229dd9c21978ad687e5d426e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 106/175] fix: vertical resolution of JPEG files in dots per cm

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6a39383..fb4c06d 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -200,7 +200,7 @@ class jpegimage(image):
                         if dpikind == 1:
                             self.info = {"dpi": (xdpi, ydpi)}
                         elif dpikind == 2:
-                            self.info = {"dpi": (xdpi*2.54, ydpi*2.45)}
+                            self.info = {"dpi": (xdpi*2.54, ydpi*2.54)}
                         # else do not provide dpi information
                         pos += l+1
                 pos += 1
-- 
2.43.0


From 9079660f8e5fa4b5d57718b6f001f8ecbc1aaa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 107/175] fix: bitmaps with a palette and an alpha channel in
 PostScript

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index fb4c06d..5265ec9 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -108,7 +108,7 @@ class image:
     def __init__(self, width, height, mode, data, compressed=None, palette=None):
         if width <= 0 or height <= 0:
             raise ValueError("valid image size")
-        if mode not in ["L", "RGB", "CMYK", "LA", "RGBA", "CMYKA", "AL", "ARGB", "ACMYK", "P"]:
+        if mode not in ["L", "RGB", "CMYK", "LA", "RGBA", "CMYKA", "AL", "ARGB", "ACMYK", "P", "AP"]:
             raise ValueError("invalid mode")
         if compressed is None and len(mode)*width*height != len(data):
             raise ValueError("wrong size of uncompressed data")
-- 
2.43.0


From e3807615a7222f577d75e929817b16c6faee9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 108/175] fix: JPEG files with markers within comments,
 thumbnails and other segments

---
 pyx/bitmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 5265ec9..0db96b1 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -195,7 +195,7 @@ class jpegimage(image):
                         except KeyError:
                             raise ValueError("invalid number of components")
                         pos += l+1
-                    elif data[pos+1] == 0o340:
+                    elif data[pos+1] == 0o340 and data[pos+4:pos+9] == b"JFIF\000":
                         l, id, major, minor, dpikind, xdpi, ydpi = struct.unpack(">H5sBBBHH", data[pos+2:pos+16])
                         if dpikind == 1:
                             self.info = {"dpi": (xdpi, ydpi)}
@@ -203,6 +203,10 @@ class jpegimage(image):
                             self.info = {"dpi": (xdpi*2.54, ydpi*2.54)}
                         # else do not provide dpi information
                         pos += l+1
+                    elif data[pos+1] != 1 and not 0o320 <= data[pos+1] <= 0o327:
+                        # skip the content of all other segments
+                        l, = struct.unpack(">H", data[pos+2:pos+4])
+                        pos += l+1
                 pos += 1
         except IndexError:
             raise ValueError("end marker expected")
-- 
2.43.0


From 30e0dae44bac3841485c17b68b330ef7a0189908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 109/175] fix: deprecated arguments of the PostScript writers
 and merging of PostScript registries

---
 pyx/pswriter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 43ef984..075593f 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -20,9 +20,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, math, os
+import io, copy, time, math, os, logging
 from . import bbox, config, style, version, unit, trafo, writer
 
+logger = logging.getLogger("pyx")
+
 
 class PSregistry:
 
@@ -43,7 +45,7 @@ class PSregistry:
            self.resourceslist.append(resource)
 
     def mergeregistry(self, registry):
-        for resource in registry.resources:
+        for resource in registry.resourceslist:
             self.add(resource)
 
     def output(self, file, writer):
-- 
2.43.0


From c0e1b3a49495b564b7945dbba13df9b012479048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 110/175] fix: number of data lines of hexadecimal encoded
 bitmaps in PostScript

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 0db96b1..1ec207f 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -531,7 +531,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             if self.PSbinexpand == 2:
                 file.write("%%%%BeginData: %i ASCII Lines\n"
-                           "image\n" % (asciihexlines(len(data)) + 1))
+                           "image\n" % (asciihexlines(len(data)) + 2))
                 asciihexstream(file, data)
                 file.write(">\n")
             else:
-- 
2.43.0


From c1c41282c32ef62085f7db8583310e7daa87e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 111/175] fix: merging of SVG registries

---
 pyx/svgwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 3b1d665..4f73323 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -46,7 +46,7 @@ class SVGregistry:
            self.resourceslist.append(resource)
 
     def mergeregistry(self, registry):
-        for resource in registry.resources:
+        for resource in registry.resourceslist:
             self.add(resource)
 
     def output(self, xml, writer):
-- 
2.43.0


From 2a82982c7c33d42e4910f4c6f7d87304944881cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 112/175] fix: titles and page names with line breaks, spaces
 and characters beyond ASCII in PostScript comments

---
 pyx/pswriter.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 075593f..7116948 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -26,6 +26,21 @@ from . import bbox, config, style, version, unit, trafo, writer
 logger = logging.getLogger("pyx")
 
 
+def dsctext(s, line=False):
+    """text argument of a document structuring comment
+
+    For line being set, the argument is a textline, i.e. extends to the end of
+    the line and might contain spaces. Otherwise the argument ends at the first
+    space. In both cases strings enclosed by parentheses can contain anything."""
+    if all(" " < c <= "~" or (line and c == " ") for c in s) and not (set(s) & set("()\\") and (not line or s.startswith("("))) and (s or line):
+        return s
+    try:
+        data = s.encode("latin1")
+    except UnicodeEncodeError:
+        data = b"\xfe\xff" + s.encode("utf-16-be", errors="replace")
+    return "(%s)" % "".join("\\%03o" % c if not 32 <= c < 127 else "\\%c" % c if c in b"()\\" else chr(c) for c in data)
+
+
 class PSregistry:
 
     def __init__(self):
@@ -130,7 +145,7 @@ class _PSwriter:
             creation_date = time.localtime()
         file.write("%%%%Creator: PyX %s\n" % version.version)
         if self.title is not None:
-            file.write("%%%%Title: %s\n" % self.title)
+            file.write("%%%%Title: %s\n" % dsctext(self.title, line=True))
         file.write("%%%%CreationDate: %s\n" %
                    time.asctime(creation_date))
 
@@ -203,7 +218,7 @@ class PSwriter(_PSwriter):
 
             documentbbox += pagebbox
 
-            pagesfile.write("%%%%Page: %s %d\n" % (page.pagename is None and str(nr+1) or page.pagename, nr+1))
+            pagesfile.write("%%%%Page: %s %d\n" % (page.pagename is None and str(nr+1) or dsctext(page.pagename), nr+1))
             if page.paperformat:
                 pagesfile.write("%%%%PageMedia: %s\n" % page.paperformat.name)
             pagesfile.write("%%%%PageOrientation: %s\n" % (page.rotated and "Landscape" or "Portrait"))
-- 
2.43.0


From 1bd6afa383038d9aba15a082f7d4243dd12bba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 113/175] fix: bounding box in the trailer of EPS files

---
 pyx/epsfile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index c6c663a..df3f3cb 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -102,7 +102,7 @@ class linefilereader:
             if EOFmsg is not None and not len(self.buffer):
                 raise IOError(EOFmsg)
             result = self.buffer
-            self.buffer = ""
+            self.buffer = b""
             return result
 
     def readline(self, EOFmsg="unexpected end of file"):
@@ -152,7 +152,7 @@ def _readbbox(file):
             break
         if line.startswith(b"%%BoundingBox:") and not bboxatend:
             values = line.split(b":", 1)[1].split()
-            if values == ["(atend)"]:
+            if values == [b"(atend)"]:
                 bboxatend = 1
             else:
                 if len(values) != 4:
@@ -170,7 +170,7 @@ def _readbbox(file):
     while True:
         line = file.readline()
         if line.startswith(b"%%BeginData:"):
-            values = line.split(":", 1)[1].split()
+            values = line.split(b":", 1)[1].split()
             if len(values) > 3:
                 raise IOError("invalid number of arguments")
             if len(values) == 3:
@@ -185,12 +185,12 @@ def _readbbox(file):
                 file.read(int(values[0]))
             line = file.readline()
             # ignore tailing whitespace/newline for binary data
-            if (len(values) < 3 or values[2] != "Lines") and not len(line.strip()):
+            if (len(values) < 3 or values[2] != b"Lines") and not len(line.strip()):
                 line = file.readline()
             if line.rstrip() != b"%%EndData":
                 raise IOError("missing EndData")
         elif line.startswith(b"%%BeginBinary:"):
-            file.read(int(line.split(":", 1)[1]))
+            file.read(int(line.split(b":", 1)[1]))
             line = file.readline()
             # ignore tailing whitespace/newline
             if not len(line.strip()):
@@ -211,7 +211,7 @@ def _readbbox(file):
     line = True
     while line:
         line = file.readline(EOFmsg=None)
-        if line.startswith("%%BoundingBox:"):
+        if line.startswith(b"%%BoundingBox:"):
             values = line.split(b":", 1)[1].split()
             if len(values) != 4:
                 raise IOError("invalid number of bounding box values")
-- 
2.43.0


From c0d005461a6af5f0cb535a348db1354f9da0f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 114/175] fix: end of the header of EPS files at lines with a
 blank as second character

---
 pyx/epsfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index df3f3cb..7fe428a 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import logging, os, string, tempfile
+import logging, os, tempfile
 from . import baseclasses, bbox, config, unit, trafo, pswriter
 
 logger = logging.getLogger("pyx")
@@ -159,7 +159,7 @@ def _readbbox(file):
                     raise IOError("invalid number of bounding box values")
                 return bbox.bbox_pt(*list(map(int, values)))
         elif (line.rstrip() == b"%%EndComments" or
-              (len(line) >= 2 and chr(line[0]) != "%" and chr(line[1]) not in string.whitespace)):
+              (line.strip() and not line.startswith(b"%"))):
             # implicit end of comments section
             break
     if not bboxatend:
-- 
2.43.0


From a7af7c4695cb0cf7639d5c838de49f0ce84da9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 115/175] fix: inclusion of EPS files with spaces and
 characters beyond ASCII in the filename

---
 pyx/epsfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index 7fe428a..880c3e9 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import logging, os, tempfile
+import logging
 from . import baseclasses, bbox, config, unit, trafo, pswriter
 
 logger = logging.getLogger("pyx")
@@ -332,7 +332,7 @@ class epsfile(baseclasses.canvasitem):
 
         self.trafo.processPS(file, writer, context, registry)
 
-        file.write("%%%%BeginDocument: %s\n" % self.filename)
+        file.write("%%%%BeginDocument: %s\n" % pswriter.dsctext(self.filename))
 
         with self.open() as epsfile:
             file.write_bytes(epsfile.read())
-- 
2.43.0


From 238639a4248f5326d672a1e250568aa436d53c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 116/175] fix: inclusion of EPS files not ending by a newline

---
 pyx/epsfile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index 880c3e9..5e2086d 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -335,7 +335,11 @@ class epsfile(baseclasses.canvasitem):
         file.write("%%%%BeginDocument: %s\n" % pswriter.dsctext(self.filename))
 
         with self.open() as epsfile:
-            file.write_bytes(epsfile.read())
+            data = epsfile.read()
+        file.write_bytes(data)
+        if not data.endswith((b"\n", b"\r")):
+            # comments need to start on a new line
+            file.write("\n")
 
         file.write("%%EndDocument\n")
         file.write("EndEPSF\n")
-- 
2.43.0


From 28b5e437fbcccc2faceb9e3a024debf8d5af4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 117/175] fix: bitmaps in patterns in PostScript

---
 pyx/bitmap.py   | 15 +++++++++------
 pyx/pattern.py  |  5 ++++-
 pyx/pswriter.py |  1 +
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 1ec207f..2ad070f 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -453,18 +453,21 @@ class bitmap_trafo(baseclasses.canvasitem):
         mode, data, alpha, palettemode, palettedata, imagehash = self.imagedata(True)
         pstrafo = trafo.translate_pt(0, -1.0).scaled(self.imagewidth, -self.imageheight)*self.pdftrafo.inverse()
 
-        PSsinglestring = self.PSstoreimage and len(data) < self.PSmaxstrlen
+        PSstoreimage = self.PSstoreimage or context.storeimages
+        PSsinglestring = PSstoreimage and len(data) < self.PSmaxstrlen
         if PSsinglestring:
             PSimagename = "image-%s-%s-singlestring" % (imagehash, self.compressmode)
         else:
             PSimagename = "image-%s-%s-stringarray" % (imagehash, self.compressmode)
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
+            registry.add(pswriter.PSdefinition("imagedataindex", b"0"))
+            registry.add(pswriter.PSdefinition("imagedataid", b"[ ]"))
             registry.add(pswriter.PSdefinition("imagedataaccess",
                                                b"{ /imagedataindex load " # get list index
                                                b"dup 1 add /imagedataindex exch store " # store increased index
                                                b"/imagedataid load exch get }")) # select string from array
-        if self.PSstoreimage:
+        if PSstoreimage:
             registry.add(PSimagedata(PSimagename, data, PSsinglestring, self.PSmaxstrlen))
         bbox += self.bbox()
 
@@ -480,7 +483,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             file.write("%s setcolorspace\n" % devicenames[mode])
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
             file.write("/imagedataindex 0 store\n" # not use the stack since interpreters differ in their stack usage
                        "/imagedataid %s store\n" % PSimagename)
 
@@ -497,7 +500,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         file.write("/Decode %s\n" % decodestrings[mode])
 
         file.write("/DataSource ")
-        if self.PSstoreimage:
+        if PSstoreimage:
             if PSsinglestring:
                 file.write("/%s load" % PSimagename)
             else:
@@ -526,7 +529,7 @@ class bitmap_trafo(baseclasses.canvasitem):
                        "/InterleaveType 1\n"
                        ">>\n")
 
-        if self.PSstoreimage:
+        if PSstoreimage:
             file.write("image\n")
         else:
             if self.PSbinexpand == 2:
diff --git a/pyx/pattern.py b/pyx/pattern.py
index d2fc0bd..9c89430 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -74,7 +74,10 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
         patternfile = writermodule.writer(io.BytesIO())
         realpatternbbox = bboxmodule.empty()
-        canvas.canvas.processPS(self, patternfile, writer, pswriter.context(), registry, realpatternbbox)
+        # the pattern becomes a procedure, which can't contain image data to be read from the current file
+        patterncontext = pswriter.context()
+        patterncontext.storeimages = True
+        canvas.canvas.processPS(self, patternfile, writer, patterncontext, registry, realpatternbbox)
         patternproc = patternfile.file.getvalue()
 
         if self.xstep is None:
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 7116948..6af853b 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -290,6 +290,7 @@ class context:
         self.colorspace = None
         self.selectedfont = None
         self.fillrule = 0
+        self.storeimages = False # True when image data can't be taken from the current file
 
     def __call__(self, **kwargs):
         newcontext = copy.copy(self)
-- 
2.43.0


From b5ed65406a299f832d2d303594fcfe942cd3d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 118/175] fix: PostScript titles starting like an UTF-16 byte
 order mark

---
 pyx/pswriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 6af853b..b0c0bcb 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -36,7 +36,9 @@ def dsctext(s, line=False):
         return s
     try:
         data = s.encode("latin1")
-    except UnicodeEncodeError:
+        if data.startswith(b"\xfe\xff"):
+            raise ValueError("latin1 string looks like UTF-16")
+    except ValueError:
         data = b"\xfe\xff" + s.encode("utf-16-be", errors="replace")
     return "(%s)" % "".join("\\%03o" % c if not 32 <= c < 127 else "\\%c" % c if c in b"()\\" else chr(c) for c in data)
 
-- 
2.43.0


From 688e8003b54c69af8a09ff1da73a06a68e23948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 119/175] fix: clear attributes in the attributes of a canvas

---
 pyx/canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index eed0b44..d4cdf6e 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -132,8 +132,8 @@ class canvas(baseclasses.canvasitem):
             self.textengine = text.defaulttextengine
         self.ipython_bboxenlarge = ipython_bboxenlarge
 
-        attr.checkattrs(attrs, [trafo.trafo_pt, clip, style.style])
         attrs = attr.mergeattrs(attrs)
+        attr.checkattrs(attrs, [trafo.trafo_pt, clip, style.style])
         self.modifies_state = bool(attrs)
 
         self.styles = attr.getattrs(attrs, [style.style])
-- 
2.43.0


From 22b86367ba82b20b36654c9cc6203586b92250f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 120/175] fix: stroking of paths shortened by several
 decorators when subpaths are closed

---
 pyx/deco.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 41def84..cd61590 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -107,15 +107,27 @@ class decoratedpath(baseclasses.canvasitem):
 
     def strokepath(self):
         if self.nostrokeranges:
-            splitlist = []
-            for begin, end in self.nostrokeranges:
-                splitlist.append(begin)
-                splitlist.append(end)
-            split = self.path.split(splitlist)
-            # XXX properly handle closed paths?
-            result = split[0]
-            for i in range(2, len(split), 2):
-                result += split[i]
+            ranges = [self.path._convertparams(list(nostrokerange), self.path.arclentoparam)
+                      for nostrokerange in self.nostrokeranges]
+            result = normpath.normpath()
+            # the ranges might span several normsubpaths and reach beyond the
+            # ends of the path
+            for index, normsubpath in enumerate(self.path.normsubpaths):
+                params = [0]
+                for begin, end in ranges:
+                    if begin.normsubpathindex <= index <= end.normsubpathindex:
+                        first = max(begin.normsubpathparam, 0) if begin.normsubpathindex == index else 0
+                        last = min(end.normsubpathparam, len(normsubpath)) if end.normsubpathindex == index else len(normsubpath)
+                        if first < last:
+                            params.extend([first, last])
+                if len(params) == 1:
+                    result.append(normsubpath.copy())
+                    continue
+                params.append(len(normsubpath))
+                # for a closed normsubpath the last segment is joined to the first one
+                for i, segment in enumerate(normsubpath.segments(params)):
+                    if not i % 2 and segment.arclen_pt():
+                        result.append(segment)
             return result
         else:
             return self.path
-- 
2.43.0


From 82b94a7e195c9ba684dd0e4f39e61c768c68dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 121/175] fix: color gradients along closed paths

---
 pyx/deco.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index cd61590..17f5eb1 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -915,19 +915,22 @@ class colorgradient(deco, attr.attr):
 
     def decorate(self, dp, texrunner):
         dp.ensurenormpath()
-        l = dp.path.arclen()
+        # closed normsubpaths do not fall into a beginning and an end when splitting them
+        p = normpath.normpath([normpath.normsubpath(normsubpath.normsubpathitems, closed=0, epsilon=normsubpath.epsilon)
+                               for normsubpath in dp.path.normsubpaths])
+        l = p.arclen()
 
         colors = [self.grad.select(n, self.steps) for n in range(self.steps)]
         colors.reverse()
-        params = dp.path.arclentoparam([l*i/float(self.steps) for i in range(self.steps)])
+        params = p.arclentoparam([l*i/float(self.steps) for i in range(self.steps)])
         params.reverse()
 
         c = canvas.canvas()
         # treat the end pieces separately
-        c.stroke(dp.path.split(params[1])[1], attr.mergeattrs([colors[0]] + self.attrs))
+        c.stroke(p.split(params[1])[1], attr.mergeattrs([colors[0]] + self.attrs))
         for n in range(1,self.steps-1):
-            c.stroke(dp.path.split([params[n-1],params[n+1]])[1], attr.mergeattrs([colors[n]] + self.attrs))
-        c.stroke(dp.path.split(params[-2])[0], attr.mergeattrs([colors[-1]] + self.attrs))
+            c.stroke(p.split([params[n-1],params[n+1]])[1], attr.mergeattrs([colors[n]] + self.attrs))
+        c.stroke(p.split(params[-2])[0], attr.mergeattrs([colors[-1]] + self.attrs))
         dp.ornaments.insert(c)
 
 
-- 
2.43.0


From 784b9c530080db02f7370c8b4cc1bbf7144e0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 122/175] fix: short braces

---
 pyx/deco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 17f5eb1..da4c947 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -1046,8 +1046,9 @@ class brace(deco, attr.attr):
         ismoothlength_pt = ilength_pt * ismooth
         osmoothlength_pt = olength_pt * osmooth
         if bardirnorm < ismoothlength_pt + osmoothlength_pt:
-            ismoothlength_pt = bardirnorm * ismoothlength_pt / (ismoothlength_pt + osmoothlength_pt)
-            osmoothlength_pt = bardirnorm * osmoothlength_pt / (ismoothlength_pt + osmoothlength_pt)
+            shrink = bardirnorm / (ismoothlength_pt + osmoothlength_pt)
+            ismoothlength_pt *= shrink
+            osmoothlength_pt *= shrink
         q3 = (q2[0] + ismoothlength_pt * bardir[0],
               q2[1] + ismoothlength_pt * bardir[1])
         q4 = (q5[0] - osmoothlength_pt * bardir[0],
-- 
2.43.0


From 88f2aa5b7f7e46567d9fb08373e48a313081abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 123/175] fix: distance of reversed braces from curved paths

---
 pyx/deco.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index da4c947..5d98fc4 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -1202,9 +1202,12 @@ class brace(deco, attr.attr):
             x1_pt, y1_pt = xm + self.stretch*(x1_pt-xm), ym + self.stretch*(y1_pt-ym)
         if self.dist is not None:
             d = unit.topt(self.dist)
-            dx, dy = dp.path.rotation_pt(dp.path.begin()).apply_pt(0, 1)
+            param0, param1 = dp.path.begin(), dp.path.end()
+            if self.reverse:
+                param0, param1 = param1, param0
+            dx, dy = dp.path.rotation_pt(param0).apply_pt(0, 1)
             x0_pt += d*dx; y0_pt += d*dy
-            dx, dy = dp.path.rotation_pt(dp.path.end()).apply_pt(0, 1)
+            dx, dy = dp.path.rotation_pt(param1).apply_pt(0, 1)
             x1_pt += d*dx; y1_pt += d*dy
         dp.ornaments.fill(self._bracepath(x0_pt, y0_pt, x1_pt, y1_pt), self.fillattrs)
 
-- 
2.43.0


From 2f75750cb61b1902b3fcd636dd85dc6cd3a3d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 124/175] fix: arrows at closed subpaths of paths with several
 subpaths

---
 pyx/deco.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/deco.py b/pyx/deco.py
index 5d98fc4..5cf0f0b 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -483,6 +483,10 @@ def _arrowhead(anormpath, arclenfrombegin, direction, size, angle, constriction,
     - constrictionlen: arc length of constriction. (not used when constriction is false)
     """
 
+    # closed normsubpaths do not fall into a beginning and an end when splitting them
+    anormpath = normpath.normpath([normpath.normsubpath(normsubpath.normsubpathitems, closed=0, epsilon=normsubpath.epsilon)
+                                   for normsubpath in anormpath.normsubpaths])
+
     # arc length and coordinates of tip
     tx, ty = anormpath.at(arclenfrombegin)
 
-- 
2.43.0


From d446e8d2b30607407d6286acfe69df2df2f4a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 125/175] fix: clear attributes of arrows when changing other
 parameters of the arrow

---
 pyx/deco.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 5cf0f0b..736df2b 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -519,6 +519,7 @@ class arrow(deco, attr.attr):
     """arrow is a decorator which adds an arrow to either side of the path"""
 
     def __init__(self, attrs=[], pos=1, reversed=0, size=_base, angle=45, constriction=0.8):
+        self.givenattrs = attrs
         self.attrs = attr.mergeattrs([style.linestyle.solid, filled] + attrs)
         attr.checkattrs(self.attrs, [deco, style.fillstyle, style.strokestyle])
         self.pos = pos
@@ -541,7 +542,8 @@ class arrow(deco, attr.attr):
 
     def __call__(self, attrs=None, pos=None, reversed=None, size=None, angle=None, constriction=_marker):
         if attrs is None:
-            attrs = self.attrs
+            # not the merged attributes, as clear attributes would be lost
+            attrs = self.givenattrs
         if pos is None:
             pos = self.pos
         if reversed is None:
-- 
2.43.0


From 060ad8cebc2d387d4180a7899420080730501ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 126/175] fix: arc lengths of curve params outside of the path

---
 pyx/normpath.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index aa9c4ac..a1b9a76 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -582,15 +582,16 @@ class normcurve_pt(normsubpathitem):
                             x_pt, y_pt)
 
     def _paramtoarclen_pt(self, params, epsilon):
-        # the arc lengths of the segments add up in ascending order of the params only
+        # the arc lengths of the segments add up in ascending order of the
+        # params only, where the params might be outside of the range 0 to 1
+        params = params + [0, 1]
         indices = sorted(range(len(params)), key=lambda i: params[i])
-        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + [params[i] for i in indices] + [1])]
-        for i in range(1, len(arclens_pt)):
-            arclens_pt[i] += arclens_pt[i-1]
-        result = [None] * len(params)
-        for i, arclen_pt in zip(indices, arclens_pt):
-            result[i] = arclen_pt
-        return result, arclens_pt[-1]
+        result = [0] * len(params)
+        arclen_pt = 0
+        for i, j, segment in zip(indices, indices[1:], self.segments([params[i] for i in indices])):
+            arclen_pt += segment.arclen_pt(epsilon)
+            result[j] = arclen_pt
+        return [arclen_pt - result[-2] for arclen_pt in result[:-2]], result[-1] - result[-2]
 
     def pathitem(self):
         from . import path
-- 
2.43.0


From 3a74bdcea9c9da1f4af41e6e9393afdf06849f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 127/175] fix: lines next to smooth knots and controlcurves in
 MetaPost paths

---
 pyx/metapost/path.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index 30a71c6..e346200 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -223,10 +223,21 @@ class line(_link):
         right_knot.lx_pt, right_knot.ly_pt = None, None
         if self.keepangles:
             angle = atan2(right_knot.y_pt-left_knot.y_pt, right_knot.x_pt-left_knot.x_pt)
-            left_knot.ltype = mp_given
-            left_knot.set_left_given(angle)
-            right_knot.rtype = mp_given
-            right_knot.set_right_given(angle)
+            # do not touch the ends of lines and curves with explicit controls
+            if left_knot.ltype > mp_explicit:
+                left_knot.ltype = mp_given
+                left_knot.set_left_given(angle)
+            if right_knot.rtype > mp_explicit:
+                right_knot.rtype = mp_given
+                right_knot.set_right_given(angle)
+        else:
+            # smooth knots become rough
+            if left_knot.ltype == mp_open:
+                left_knot.ltype = mp_curl
+                left_knot.set_left_curl(1)
+            if right_knot.rtype == mp_open:
+                right_knot.rtype = mp_curl
+                right_knot.set_right_curl(1)
 
 
 class controlcurve_pt(_link):
-- 
2.43.0


From 760946da21c2960524745c643259f37ff4c1a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 128/175] fix: closed MetaPost paths containing lines and knots
 used in several MetaPost paths

---
 pyx/metapost/path.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index e346200..9d23f8b 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -18,6 +18,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
+import copy
 from math import atan2, radians
 from pyx import unit, attr, normpath
 from pyx import path as pathmodule
@@ -314,14 +315,16 @@ class path(pathmodule.path):
         if epsilon is None:
             epsilon = _epsilon
         knots = []
-        is_closed = True
+        # the knots are modified while creating the path
+        elems = [copy.copy(elem) for elem in elems]
+        # begin and end knots make up open paths (lines create endpoints within closed paths as well)
+        is_closed = all(elem.ltype != mp_endpoint and elem.rtype != mp_endpoint
+                        for elem in elems if isinstance(elem, _knot))
         for i, elem in enumerate(elems):
             if isinstance(elem, _link):
                 elem.set_knots(elems[i-1], elems[(i+1)%len(elems)])
             elif isinstance(elem, _knot):
                 knots.append(elem)
-                if elem.ltype == mp_endpoint or elem.rtype == mp_endpoint:
-                    is_closed = False
 
         # link the knots among each other
         for i in range(len(knots)):
@@ -356,12 +359,11 @@ class path(pathmodule.path):
                 prev = elem
 
         # close the path if necessary
-        if knots[0].ltype == mp_explicit:
+        if is_closed:
             elem = knots[0]
-            if do_lineto and is_closed:
+            if do_lineto:
                 self.append(pathmodule.closepath())
             elif do_curveto:
                 self.append(pathmodule.curveto_pt(prev.rx_pt, prev.ry_pt, elem.lx_pt, elem.ly_pt, elem.x_pt, elem.y_pt))
-                if is_closed:
-                    self.append(pathmodule.closepath())
+                self.append(pathmodule.closepath())
 
-- 
2.43.0


From e3e40a5ba6fe5462af9d0519891055a843471788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 129/175] fix: MetaPost curves leaving and arriving opposite to
 the direction between the knots

---
 pyx/metapost/mp_path.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyx/metapost/mp_path.py b/pyx/metapost/mp_path.py
index b3c9453..132d7d7 100644
--- a/pyx/metapost/mp_path.py
+++ b/pyx/metapost/mp_path.py
@@ -433,8 +433,11 @@ def mp_ab_vs_cd(a, b, c, d): # <<<
 def mp_velocity(st, ct, sf, cf, t): # <<<
     """Metapost's standard velocity subroutine for cubic Bezier curves.
     See mpmath.pdf (item 30) and mp.pdf (item 339)."""
-    return min(4.0, (2.0 + sqrt(2)*(st-sf/16.0)*(sf-st/16.0)*(ct-cf)) /
-                    (1.5*t*(2+(sqrt(5)-1)*ct + (3-sqrt(5))*cf)))
+    num = 2.0 + sqrt(2)*(st-sf/16.0)*(sf-st/16.0)*(ct-cf)
+    denom = 1.5*t*(2+(sqrt(5)-1)*ct + (3-sqrt(5))*cf)
+    if num >= 4.0*denom:
+        return 4.0
+    return num/denom
 # >>>
 def reduce_angle(A): # <<<
     """A macro in mp.c"""
-- 
2.43.0


From aea36f8088556e7e99a2a8b11f2d6fa41e131c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 130/175] fix: all filename extensions when locating files in
 the current directory

---
 pyx/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 00272a9..9d97ba3 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import configparser, io, logging, os, pkgutil, subprocess, shutil
+import configparser, functools, io, logging, os, pkgutil, shutil, subprocess
 
 logger = logging.getLogger("pyx")
 logger_execute = logging.getLogger("pyx.execute")
@@ -86,7 +86,7 @@ class local:
     """locates files in the current directory"""
 
     def openers(self, filename, formats):
-        return [lambda: builtinopen(full_filename, "rb") for full_filename in full_filenames(filename, formats)]
+        return [functools.partial(builtinopen, full_filename, "rb") for full_filename in full_filenames(filename, formats)]
 
 locator_classes["local"] = local
 
-- 
2.43.0


From 5ddd3c4c8d1c43adac0e096ea7af81fd188546ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 131/175] fix: filename extension of PostScript header files
 when locating files

---
 pyx/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index 9d97ba3..1302610 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -67,7 +67,7 @@ def full_filenames(filename, formats):
     # If filename ends with one of the extensions, return the filename.
     for format in formats:
         for extension in format.extensions:
-            if filename.endswith(extension):
+            if extension and filename.endswith(extension):
                 yield filename
                 return
 
-- 
2.43.0


From ad1126f3334ad82418edbb3edc4414bc49b6a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 132/175] fix: order and unavailable directories of the
 recursivedir file locator

---
 pyx/config.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 1302610..1943298 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -115,26 +115,31 @@ class recursivedir:
     def __init__(self):
         self.dirs = getlist("filelocator", "recursivedir")
         self.path_cache = {}
+        self.visited = 0
 
     def openers(self, filename, formats):
         filenames = list(full_filenames(filename, formats))
-        for filename in filenames:
-            if filename in self.path_cache:
-                return [lambda: builtinopen(self.path_cache[filename], "rb")]
-        found = None
-        while self.dirs:
+        while True:
+            # the directory visited first takes precedence, then the order of the filenames
+            found = [self.path_cache[filename] for filename in filenames if filename in self.path_cache]
+            if found:
+                visited, full_filename = min(found, key=lambda item: item[0])
+                return [functools.partial(builtinopen, full_filename, "rb")]
+            if not self.dirs:
+                return []
             dir = self.dirs.pop(0)
-            for item in os.listdir(dir):
+            try:
+                items = os.listdir(dir)
+            except EnvironmentError:
+                logger.warning("directory '%s' of the recursivedir file locator is not available" % dir)
+                continue
+            self.visited += 1
+            for item in items:
                 full_item = os.path.join(dir, item)
                 if os.path.isdir(full_item):
                     self.dirs.insert(0, full_item)
                 else:
-                    self.path_cache[item] = full_item
-                    if item in filenames:
-                        found = item
-            if found:
-                return [lambda: builtinopen(self.path_cache[found], "rb")]
-        return []
+                    self.path_cache.setdefault(item, (self.visited, full_item))
 
 locator_classes["recursivedir"] = recursivedir
 
-- 
2.43.0


From 0c465fc862c63eabcff05e71caae6a5cbdc1a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 133/175] fix: directories, missing files and missing indices
 of the ls-R file locator

---
 pyx/config.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 1943298..4749724 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -154,8 +154,14 @@ class ls_R:
         if not self.path_cache:
             for lsr in getlist("filelocator", "ls-R"):
                 base_dir = os.path.dirname(lsr)
+                dir = base_dir
                 first = True
-                with builtinopen(lsr, "r", encoding="ascii", errors="surrogateescape") as lsrfile:
+                try:
+                    lsrfile = builtinopen(lsr, "r", encoding="ascii", errors="surrogateescape")
+                except EnvironmentError:
+                    logger.warning("file '%s' of the ls-R file locator is not available" % lsr)
+                    continue
+                with lsrfile:
                     for line in lsrfile:
                         line = line.rstrip()
                         if first and line.startswith("%"):
@@ -163,13 +169,12 @@ class ls_R:
                         first = False
                         if line.endswith(":"):
                             dir = os.path.join(base_dir, line[:-1])
-                            # TODO: remove this line from the path_cache
-                        elif line and line not in self.path_cache:
-                            self.path_cache[line] = os.path.join(dir, line)
-        for filename in full_filenames(filename, formats):
-            if filename in self.path_cache:
-                return [lambda: builtinopen(self.path_cache[filename], "rb")]
-        return []
+                        elif line:
+                            # directories are listed too; they can't be opened and are skipped thereby
+                            self.path_cache.setdefault(line, []).append(os.path.join(dir, line))
+        return [functools.partial(builtinopen, full_filename, "rb")
+                for filename in full_filenames(filename, formats)
+                for full_filename in self.path_cache.get(filename, [])]
 
 locator_classes["ls-R"] = ls_R
 
-- 
2.43.0


From f18f92d6fc05067c2bbed3c0c706d241489d5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 134/175] fix: file locator using the locate program

---
 pyx/config.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 4749724..aaed96e 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -282,14 +282,17 @@ class locate:
 
     def openers(self, filename, formats):
         full_filename = None
-        for extension in extensions:
-            with Popen([self.locate, filename+extension], stdout=subprocess.PIPE).stdout as output:
-                with io.TextIOWrapper(output, encoding="ascii", errors="surrogateescape") as text_output:
-                    for line in text_output:
-                        line = line.rstrip()
-                        if os.path.basename(line) == filename+extension:
-                            full_filename = line
-                            break
+        for name in full_filenames(filename, formats):
+            try:
+                with Popen([self.locate, name], stdout=subprocess.PIPE) as process:
+                    with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as text_output:
+                        for line in text_output:
+                            line = line.rstrip()
+                            if os.path.basename(line) == name:
+                                full_filename = line
+                                break
+            except OSError:
+                return []
             if full_filename:
                 break
         else:
@@ -303,7 +306,7 @@ class locate:
             except IOError:
                 logger.warning("'%s' should be available at '%s' according to the locate, "
                             "but the file is not available at this location; "
-                            "update your locate database" % (filename+extension, full_filename))
+                            "update your locate database" % (name, full_filename))
         return [_opener]
 
 locator_classes["locate"] = locate
-- 
2.43.0


From 308fe420d176c322c5069a559ee76fe88948ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 135/175] fix: locating files again, which were removed in the
 meantime

---
 pyx/config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index aaed96e..7e86887 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -384,9 +384,14 @@ def open(filename, formats, ascii=False):
     """returns an open file searched according the list of formats"""
 
     names = tuple([format.name for format in formats])
+    file = None
     if (filename, names) in opener_cache:
-        file = opener_cache[(filename, names)]()
-    else:
+        try:
+            file = opener_cache[(filename, names)]()
+        except EnvironmentError:
+            pass
+    if not file:
+        # not located before or not available anymore
         for method in methods:
             openers = method.openers(filename, formats)
             for opener in openers:
-- 
2.43.0


From 120febcb6d3ffd5668aed5b8dab0f26c3fba7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 136/175] fix: writing PDF and SVG to pipes and other files
 without positions

---
 pyx/svgwriter.py | 7 +++++--
 pyx/writer.py    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 4f73323..8368a9c 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -145,9 +145,12 @@ class SVGGenerator(xml.sax.saxutils.XMLGenerator):
             self.last_was_end = False
             self.newline = False
 
-    def newline_and_tell(self):
+    def finish_line(self):
         self.characters("\n")
         self.newline = True
+
+    def newline_and_tell(self):
+        self.finish_line()
         return self.svg.tell()
 
     def endSVGElement(self, name):
@@ -229,7 +232,7 @@ class SVGwriter:
         x.startSVGElement("svg", attrs)
         registry.output(x, self)
         pagedata = pagefile.getvalue()
-        x.newline_and_tell()
+        x.finish_line()
         file.write(pagedata[pagexml_start:pagexml_end])
         x.endSVGElement("svg")
         x.endSVGDocument()
diff --git a/pyx/writer.py b/pyx/writer.py
index 0acc588..beae212 100644
--- a/pyx/writer.py
+++ b/pyx/writer.py
@@ -26,15 +26,18 @@ class writer:
         self.file = file
         self.encoding = encoding
         self.errors = errors
+        self.pos = 0
 
     def write(self, s):
-        self.file.write(s.encode(self.encoding, errors=self.errors))
+        self.write_bytes(s.encode(self.encoding, errors=self.errors))
 
     def write_bytes(self, b):
         self.file.write(b)
+        self.pos += len(b)
 
     def tell(self):
-        return self.file.tell()
+        # number of bytes written (the file itself might not be seekable, e.g. a pipe)
+        return self.pos
 
     def __enter__(self):
         return self
-- 
2.43.0


From a59a197b52606f7c7860ad02991f101315b6597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 137/175] fix: failing Ghostscript runs being reported as
 success

---
 pyx/canvas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index d4cdf6e..54c9559 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -492,7 +492,7 @@ class canvas(baseclasses.canvasitem):
             p = config.Popen(cmd, stdin=config.PIPE)
             self.writeEPSfile(p.stdin, **kwargs)
             p.stdin.close()
-            p.wait()
+            returncode = p.wait()
         elif input == "pdf":
             # PDF files need to be accesible by random access and thus we need to create
             # a temporary file
@@ -500,11 +500,12 @@ class canvas(baseclasses.canvasitem):
                 self.writePDFfile(f, **kwargs)
                 fname = f.name
             cmd.append(fname)
-            config.Popen(cmd).wait()
+            returncode = config.Popen(cmd).wait()
             os.unlink(fname)
         else:
             raise RuntimeError("input 'eps' or 'pdf' expected")
-
+        if returncode:
+            raise ValueError("ghostscript failed with return code %d" % returncode)
 
     def pipeGS(self, device, input="eps", **kwargs):
         """
@@ -527,6 +528,6 @@ class canvas(baseclasses.canvasitem):
         data, error = p.communicate()
         os.unlink(fname)
 
-        if error:
-            raise ValueError("error received while waiting for ghostscript")
+        if p.returncode:
+            raise ValueError("ghostscript failed with return code %d" % p.returncode)
         return io.BytesIO(data)
-- 
2.43.0


From 08dcd864c95d8715ed550f3351612033dad35c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 138/175] fix: numbers ending with a decimal point in SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 0f956f9..592a4b5 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -83,7 +83,7 @@ class svgValueError(ValueError): pass
 
 class _marker: pass
 
-_svgFloatPattern = re.compile(r"(?P<value>[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
+_svgFloatPattern = re.compile(r"(?P<value>[-+]?([0-9]*\.?[0-9]+|[0-9]+\.)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
 _svgBoolPattern = re.compile(r"(?P<bool>[01])\s*,?\s*")
 _svgPathPattern = re.compile(r"(?P<cmd>[mlhvcsqtaz])\s*(?P<args>(([^mlhvcsqtaz]|pt|pc|mm|cm)*))", re.IGNORECASE)
 _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]+)\s*,\s*(?P<blue>[0-9]+)\s*\)$", re.IGNORECASE)
-- 
2.43.0


From 23fcde3d4ec18210efb577a30169857e01ce38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 139/175] fix: rotation angle, missing extent and placement
 after closed subpaths of elliptical arcs in SVG files

---
 pyx/svgfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 592a4b5..c5c2062 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -32,7 +32,7 @@ def endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi):
 
     # F.6.6 step 1
     if rx == 0 or ry == 0:
-        return path.line_pt(x1, y1, x2, y2)
+        return path.line_pt(x1, y1, x2, y2).normpath()
 
     # F.6.6 step 2
     if rx < 0: rx = -rx
@@ -223,7 +223,7 @@ class svgHandler(svgBaseHandler):
                         while args:
                             rx, args = self.toFloat(args)
                             ry, args = self.toFloat(args)
-                            phi, args = self.toFloat(args)
+                            phi, args = self.toFloat(args, units=False)
                             fA, args = self.toBool(args)
                             fS, args = self.toBool(args)
                             x2, args = self.toFloat(args)
@@ -232,7 +232,9 @@ class svgHandler(svgBaseHandler):
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
-                            p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
+                            if (x1, y1) != (x2, y2):
+                                arc = endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi)
+                                p.extend(arc.path().pathitems[1:])
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
-- 
2.43.0


From 6aa4344d4e90d505789f51c0362443439235bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:22 +0000
Subject: [PATCH 140/175] fix: smooth curves following other kinds of path
 segments in SVG files

---
 pyx/svgfile.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index c5c2062..af03476 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -145,6 +145,7 @@ class svgHandler(svgBaseHandler):
     def toPath(self, svgPath):
         # Note: all lengths are _pt, but _pt has been skipped to prevent clumsy notation
         p = path.path()
+        lastcmd = "" # command of the previous path segment
         for match in _svgPathPattern.finditer(svgPath):
             cmd = match.group("cmd")
             args = match.group("args")
@@ -177,20 +178,21 @@ class svgHandler(svgBaseHandler):
                             x1, y1, x2, y2, x3, y3, *args = args
                         else:
                             x2, y2, x3, y3, *args = args
-                            if isinstance(p[-1], path.curveto_pt):
+                            if lastcmd not in ["C", "c", "S", "s"]:
+                                x1, y1 = 0, 0
+                            elif isinstance(p[-1], path.curveto_pt):
                                 x1 = p[-1].x3_pt - p[-1].x2_pt
                                 y1 = p[-1].y3_pt - p[-1].y2_pt
-                            elif isinstance(p[-1], path.rcurveto_pt):
+                            else:
                                 x1 = p[-1].dx3_pt - p[-1].dx2_pt
                                 y1 = p[-1].dy3_pt - p[-1].dy2_pt
-                            else:
-                                x1, y1 = 0, 0
                             if cmd == "S":
                                 x0, y0 = p.atend_pt()
                                 x1 += x0
                                 y1 += y0
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3) if cmd.isupper() else
                                  path.rcurveto_pt(x1, y1, x2, y2, x3, y3))
+                        lastcmd = cmd
                 elif cmd in "QqTt":
                     while args:
                         x0, y0 = p.atend_pt()
@@ -206,19 +208,17 @@ class svgHandler(svgBaseHandler):
                             if cmd == "t":
                                 x3 += x0
                                 y3 += y0
-                            if isinstance(p[-1], path.curveto_pt):
+                            if lastcmd in ["Q", "q", "T", "t"]:
                                 xq = x0 + 3/2 * (p[-1].x3_pt - p[-1].x2_pt)
                                 yq = y0 + 3/2 * (p[-1].y3_pt - p[-1].y2_pt)
-                            elif isinstance(p[-1], path.rcurveto_pt):
-                                xq = x0 + 3/2 * (p[-1].dx3_pt - p[-1].dx2_pt)
-                                yq = y0 + 3/2 * (p[-1].dy3_pt - p[-1].dy2_pt)
                             else:
-                                xq, yq = p.atend_pt()
+                                xq, yq = x0, y0
                         x1 = x0 + 2/3 * (xq - x0)
                         y1 = y0 + 2/3 * (yq - y0)
                         x2 = x3 + 2/3 * (xq - x3)
                         y2 = y3 + 2/3 * (yq - y3)
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3))
+                        lastcmd = cmd
                 elif cmd in "aA":
                         while args:
                             rx, args = self.toFloat(args)
@@ -238,6 +238,7 @@ class svgHandler(svgBaseHandler):
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
+                lastcmd = cmd
             except svgValueError:
                 pass
         return p
-- 
2.43.0


From cbfe46df6d3adef15e3d4b40ac27515d367bcb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 141/175] fix: path data following errors in SVG files

---
 pyx/svgfile.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index af03476..4ae9fbd 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -146,12 +146,32 @@ class svgHandler(svgBaseHandler):
         # Note: all lengths are _pt, but _pt has been skipped to prevent clumsy notation
         p = path.path()
         lastcmd = "" # command of the previous path segment
+        end = 0
         for match in _svgPathPattern.finditer(svgPath):
             cmd = match.group("cmd")
             args = match.group("args")
             try:
-                if cmd not in "aA":
-                    args = self.toFloats(args)
+                if svgPath[end:match.start()].strip() or not lastcmd and cmd not in "mM":
+                    raise svgValueError("moveto expected in '%s'" % svgPath)
+                end = match.end()
+                # in case of errors all path segments before the error are drawn
+                error = None
+                if cmd in "zZ":
+                    if args.strip():
+                        error = svgValueError("unexpected arguments '%s' of closepath" % args)
+                elif cmd not in "aA":
+                    values = []
+                    try:
+                        for value in self.toFloats(args):
+                            values.append(value)
+                    except svgValueError as e:
+                        error = e
+                    count = {"m": 2, "l": 2, "h": 1, "v": 1, "c": 6, "s": 4, "q": 4, "t": 2}[cmd.lower()]
+                    if not error and (not values or len(values) % count):
+                        error = svgValueError("wrong number of arguments '%s'" % args)
+                    args = values[:len(values)//count*count]
+                elif not args:
+                    error = svgValueError("arguments of elliptical arc missing")
                 if cmd in "MmLl":
                     first = True
                     while args:
@@ -239,8 +259,11 @@ class svgHandler(svgBaseHandler):
                     assert cmd in "zZ"
                     p.append(path.closepath())
                 lastcmd = cmd
-            except svgValueError:
-                pass
+                if error:
+                    raise error
+            except svgValueError as e:
+                logger.warning("error in SVG path data, path is truncated: %s" % e)
+                break
         return p
 
     def toTrafo(self, svgTrafo):
-- 
2.43.0


From 197ce0de1fdfaaaf7a9c8e2499aca401be3864aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 142/175] fix: matrices, order and spelling of transformation
 lists in SVG files

---
 pyx/svgfile.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 4ae9fbd..2e8623d 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -268,9 +268,11 @@ class svgHandler(svgBaseHandler):
 
     def toTrafo(self, svgTrafo):
         t = trafo.identity
-        for match in reversed(list(re.finditer(r"(?P<cmd>matrix|translate|scale|rotate|skewX|skewY)\((?P<args>[^)]*)\)", svgTrafo))):
+        if not re.match(r"(\s*\w+\s*\([^)]*\)\s*,?)*\s*$", svgTrafo):
+            raise svgValueError("invalid transformation '%s'" % svgTrafo)
+        for match in reversed(list(re.finditer(r"(?P<cmd>\w+)\s*\((?P<args>[^)]*)\)", svgTrafo))):
             cmd = match.group("cmd")
-            args = match.group("args")
+            args = match.group("args").strip()
             if cmd == "matrix":
                 a, args = self.toFloat(args, units=False)
                 b, args = self.toFloat(args, units=False)
@@ -278,18 +280,20 @@ class svgHandler(svgBaseHandler):
                 d, args = self.toFloat(args, units=False)
                 e, args = self.toFloat(args)
                 f = self.toFloat(args, single=True)
-                t = t * trafo.trafo_pt(((a, b), (c, d)), (e, f))
+                t = trafo.trafo_pt(((a, c), (b, d)), (e, f)) * t
             elif cmd == "translate":
                 args = list(self.toFloats(args))
                 if len(args) == 1:
                     args.append(0)
-                assert len(args) == 2
+                if len(args) != 2:
+                    raise svgValueError("wrong number of arguments in '%s'" % svgTrafo)
                 t = t.translated_pt(args[0], args[1])
             elif cmd == "scale":
                 args = list(self.toFloats(args, units=False))
                 if len(args) == 1:
                     args.append(args[0])
-                assert len(args) == 2
+                if len(args) != 2:
+                    raise svgValueError("wrong number of arguments in '%s'" % svgTrafo)
                 t = t.scaled(args[0], args[1])
             elif cmd == "rotate":
                 a, args = self.toFloat(args, units=False)
@@ -300,10 +304,11 @@ class svgHandler(svgBaseHandler):
                     b, c = 0, 0
                 t = t.rotated_pt(a, b, c)
             elif cmd == "skewX":
-                t = t * trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1)))
+                t = trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1))) * t
+            elif cmd == "skewY":
+                t = trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1))) * t
             else:
-                assert cmd == "skewY"
-                t = t * trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1)))
+                raise svgValueError("unknown transformation '%s'" % cmd)
         return t
 
     def toColor(self, name, inherit):
-- 
2.43.0


From 44a030db28f9c40cfc5fc8427338c411bf0ebd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 143/175] fix: default values, zero radii and white space in
 basic shapes of SVG files

---
 pyx/svgfile.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 2e8623d..8ea3447 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -83,7 +83,7 @@ class svgValueError(ValueError): pass
 
 class _marker: pass
 
-_svgFloatPattern = re.compile(r"(?P<value>[-+]?([0-9]*\.?[0-9]+|[0-9]+\.)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
+_svgFloatPattern = re.compile(r"\s*(?P<value>[-+]?([0-9]*\.?[0-9]+|[0-9]+\.)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
 _svgBoolPattern = re.compile(r"(?P<bool>[01])\s*,?\s*")
 _svgPathPattern = re.compile(r"(?P<cmd>[mlhvcsqtaz])\s*(?P<args>(([^mlhvcsqtaz]|pt|pc|mm|cm)*))", re.IGNORECASE)
 _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]+)\s*,\s*(?P<blue>[0-9]+)\s*\)$", re.IGNORECASE)
@@ -450,7 +450,7 @@ class svgHandler(svgBaseHandler):
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname in ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"]:
                 if localname == "line":
-                    p = path.line_pt(floatAttr("x1"), floatAttr("y1"), floatAttr("x2"), floatAttr("y2"))
+                    p = path.line_pt(floatAttr("x1", 0), floatAttr("y1", 0), floatAttr("x2", 0), floatAttr("y2", 0))
                 elif localname == "rect":
                     x, y = floatAttr("x", 0), floatAttr("y", 0)
                     width, height = floatAttr("width"), floatAttr("height")
@@ -458,11 +458,11 @@ class svgHandler(svgBaseHandler):
                         p = None
                     else:
                         rx, ry = floatAttr("rx", None), floatAttr("ry", None)
-                        if ((rx is None or rx < 1e-10) and (ry is None or ry < 1e-10)):
+                        if rx is None: rx = ry
+                        elif ry is None: ry = rx
+                        if rx is None or rx < 1e-10 or ry < 1e-10:
                             p = path.rect_pt(x, y, width, height)
                         else:
-                            if rx is None: rx = ry
-                            elif ry is None: ry = rx
                             if 2*rx > width: rx = 0.5*width
                             if 2*ry > height: ry = 0.5*height
                             c = path.circle_pt(0, 0, 1).transformed(trafo.scale(rx, ry))
@@ -483,13 +483,17 @@ class svgHandler(svgBaseHandler):
                     else:
                         p = None
                 elif localname == "polyline" or localname == "polygon":
-                    x, y, *args = self.toFloats(attributes[None, "points"])
-                    p = path.path(path.moveto_pt(x, y))
-                    while len(args) >= 2:
+                    args = list(self.toFloats(attributes[None, "points"].strip()))
+                    if len(args) >= 2:
                         x, y, *args = args
-                        p.append(path.lineto_pt(x, y))
-                    if localname == "polygon":
-                        p.append(path.closepath())
+                        p = path.path(path.moveto_pt(x, y))
+                        while len(args) >= 2:
+                            x, y, *args = args
+                            p.append(path.lineto_pt(x, y))
+                        if localname == "polygon":
+                            p.append(path.closepath())
+                    else:
+                        p = None
                 else:
                     assert localname == "path"
                     p = self.toPath(attributes[None, "d"])
-- 
2.43.0


From b20ed7975d4986d0f78f0a49475548b804257dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 144/175] fix: dash arrays and miter limits in SVG files

---
 pyx/svgfile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 8ea3447..6fae405 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -394,8 +394,9 @@ class svgHandler(svgBaseHandler):
                 attrs = []
             if (None, "transform") in attributes:
                 attrs.append(self.toTrafo(attributes[None, "transform"]))
-            if (None, "stroke-dasharray") in attributes:
-                attrs.append(style.dash(self.toFloats(attributes[None, "stroke-dasharray"]),
+            if attributes.get((None, "stroke-dasharray"), "inherit").strip() != "inherit":
+                dasharray = attributes[None, "stroke-dasharray"].strip()
+                attrs.append(style.dash([] if dasharray == "none" else list(self.toFloats(dasharray)),
                                         offset=floatAttr("stroke-dashoffset", 0),
                                         rellengths=False))
             if (None, "stroke-linecap") in attributes:
@@ -407,7 +408,7 @@ class svgHandler(svgBaseHandler):
                               "round": style.linejoin.round,
                               "bevel": style.linejoin.bevel}[attributes[None, "stroke-linejoin"]])
             if (None, "stroke-miterlimit") in attributes:
-                attrs.append(style.miterlimit(floatAttr("stroke-miterlimit")))
+                attrs.append(style.miterlimit(self.toFloat(attributes[None, "stroke-miterlimit"], units=False, single=True)))
             if (None, "stroke-width") in attributes:
                 attrs.append(style.linewidth(floatAttr("stroke-width")*unit.t_pt))
             if (None, "fill-rule") in attributes:
-- 
2.43.0


From 303b7f335eeb8aaf0a902555bb8ebbec9070740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 145/175] fix: default stroke width and clipping to the view
 box in SVG files

---
 pyx/svgfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 6fae405..2b0e333 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -419,13 +419,13 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
-                attrs = pathAttrs([style.linewidth(1*unit.t_pt), style.miterlimit(4)])
+                attrs = pathAttrs([style.linewidth(self.units["px"]*unit.t_pt), style.miterlimit(4)])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
                     inner_x, inner_y, inner_width, inner_height = self.toFloats(attributes[None, "viewBox"])
                     if attributes.get((None, "clip"), "auto") == "auto":
-                        attrs.append(canvas.clip(path.rect(inner_x, inner_y, inner_width, inner_height)))
+                        attrs.append(canvas.clip(path.rect_pt(inner_x, inner_y, inner_width, inner_height)))
                     outer_width = self.toFloat(attributes.get((None, "width"), "100%"), single=True, relative=inner_width)
                     outer_height = self.toFloat(attributes.get((None, "height"), "100%"), single=True, relative=inner_height)
                     self.bbox = bbox.bbox_pt(outer_x, -outer_y, outer_x+outer_width, -outer_y+outer_height)
-- 
2.43.0


From 1997061d63ca292c3b1762723a3bf72417a05465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 146/175] fix: fill and stroke attributes of the svg element in
 SVG files

---
 pyx/svgfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 2b0e333..dadc2f3 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -444,6 +444,8 @@ class svgHandler(svgBaseHandler):
                     raise ValueError("SVG viewbox or width and height missing, we continue by aligning by SVG coordinates (top-left) instead of PyX-like (bottom-left) and calculate the bbox from the SVG content")
                 attrs.append(trafo.mirror(0))
                 self.canvas = canvas.canvas(attrs)
+                self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
+                self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
                 self.stack.append((self.canvas, self.stroke, self.fill))
                 self.canvas = self.canvas.insert(canvas.canvas(pathAttrs()))
-- 
2.43.0


From 31192aa2dc2dd0bd86e922f7d071af484ccbdaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 147/175] fix: SVG files without size

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index dadc2f3..9dbcd8f 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -441,7 +441,7 @@ class svgHandler(svgBaseHandler):
                     attrs.append(trafo.translate_pt(0, -outer_height))
                 else:
                     self.bbox = None
-                    raise ValueError("SVG viewbox or width and height missing, we continue by aligning by SVG coordinates (top-left) instead of PyX-like (bottom-left) and calculate the bbox from the SVG content")
+                    logger.warning("SVG viewbox or width and height missing, we continue by aligning by SVG coordinates (top-left) instead of PyX-like (bottom-left) and calculate the bbox from the SVG content")
                 attrs.append(trafo.mirror(0))
                 self.canvas = canvas.canvas(attrs)
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
-- 
2.43.0


From 0ac82d027131304ba6f65a26c72792911f2d6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 148/175] fix: transformations of strokes in SVG files

---
 pyx/svgfile.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 9dbcd8f..22e46a1 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -387,13 +387,16 @@ class svgHandler(svgBaseHandler):
                 except KeyError:
                     return default
 
+        def trafoAttrs():
+            if (None, "transform") in attributes:
+                return [self.toTrafo(attributes[None, "transform"])]
+            return []
+
         def pathAttrs(default=_marker):
             if default is not _marker:
                 attrs = default
             else:
                 attrs = []
-            if (None, "transform") in attributes:
-                attrs.append(self.toTrafo(attributes[None, "transform"]))
             if attributes.get((None, "stroke-dasharray"), "inherit").strip() != "inherit":
                 dasharray = attributes[None, "stroke-dasharray"].strip()
                 attrs.append(style.dash([] if dasharray == "none" else list(self.toFloats(dasharray)),
@@ -448,7 +451,7 @@ class svgHandler(svgBaseHandler):
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
                 self.stack.append((self.canvas, self.stroke, self.fill))
-                self.canvas = self.canvas.insert(canvas.canvas(pathAttrs()))
+                self.canvas = self.canvas.insert(canvas.canvas(pathAttrs(trafoAttrs())))
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname in ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"]:
@@ -509,7 +512,12 @@ class svgHandler(svgBaseHandler):
                     if stroke:
                         attrs.append(deco.stroked([stroke]))
                     if stroke or fill:
-                        self.canvas.draw(p, attrs)
+                        pathcanvas = self.canvas
+                        trafos = trafoAttrs()
+                        if trafos:
+                            # the transformation applies to the strokes, too
+                            pathcanvas = pathcanvas.insert(canvas.canvas(trafos))
+                        pathcanvas.draw(p, attrs)
 
     def endElementNS(self, name, qname):
         namespace, localname = name
-- 
2.43.0


From ce7f9fdf6314fdf4753e511670e8738e10ba3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 149/175] fix: aspect ratio of the view box in SVG files

---
 pyx/svgfile.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 22e46a1..534a401 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -427,13 +427,21 @@ class svgHandler(svgBaseHandler):
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
                     inner_x, inner_y, inner_width, inner_height = self.toFloats(attributes[None, "viewBox"])
-                    if attributes.get((None, "clip"), "auto") == "auto":
-                        attrs.append(canvas.clip(path.rect_pt(inner_x, inner_y, inner_width, inner_height)))
                     outer_width = self.toFloat(attributes.get((None, "width"), "100%"), single=True, relative=inner_width)
                     outer_height = self.toFloat(attributes.get((None, "height"), "100%"), single=True, relative=inner_height)
                     self.bbox = bbox.bbox_pt(outer_x, -outer_y, outer_x+outer_width, -outer_y+outer_height)
                     attrs.append(trafo.translate_pt(-inner_x, -inner_y))
-                    attrs.append(trafo.scale(outer_width/inner_width, outer_height/inner_height))
+                    align, *meetorslice = [s for s in attributes.get((None, "preserveAspectRatio"), "xMidYMid").split() if s != "defer"]
+                    if align == "none":
+                        attrs.append(trafo.scale(outer_width/inner_width, outer_height/inner_height))
+                    else:
+                        factor = (max if "slice" in meetorslice else min)(outer_width/inner_width, outer_height/inner_height)
+                        position = {"Min": 0, "Mid": 0.5, "Max": 1}
+                        attrs.append(trafo.scale(factor))
+                        attrs.append(trafo.translate_pt(position[align[1:4]]*(outer_width-factor*inner_width),
+                                                        position[align[5:8]]*(outer_height-factor*inner_height)))
+                    if attributes.get((None, "clip"), "auto") == "auto":
+                        attrs.append(canvas.clip(path.rect_pt(0, 0, outer_width, outer_height)))
                     attrs.append(trafo.translate_pt(outer_x, outer_y))
                     attrs.append(trafo.translate_pt(0, -outer_height))
                 elif (None, "width") in attributes and (None, "height") in attributes:
-- 
2.43.0


From bfbb94671e389ef570c5081bd33db5927bb35d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 150/175] fix: elements not being rendered directly in SVG
 files

---
 pyx/svgfile.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 534a401..7526857 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -90,6 +90,11 @@ _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]
 _svgColorRelPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)%\s*,\s*(?P<green>[0-9]+)%\s*,\s*(?P<blue>[0-9]+)%\s*\)$", re.IGNORECASE)
 
 
+# elements which are not rendered, but used by other elements
+_svgHiddenElements = {("http://www.w3.org/2000/svg", localname)
+                      for localname in ["defs", "symbol", "marker", "pattern", "clipPath", "mask"]}
+
+
 class svgBaseHandler(xml.sax.ContentHandler):
 
     def __init__(self, resolution):
@@ -133,6 +138,7 @@ class svgHandler(svgBaseHandler):
     def __init__(self, resolution):
         super().__init__(resolution)
         self.stack = []
+        self.hidden = 0 # nesting depth within elements, which are not rendered directly
         self.stroke = None
         self.fill = color.grey.black
 
@@ -420,7 +426,9 @@ class svgHandler(svgBaseHandler):
             return attrs
 
         namespace, localname = name
-        if namespace == "http://www.w3.org/2000/svg":
+        if self.hidden or name in _svgHiddenElements:
+            self.hidden += 1
+        elif namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
                 attrs = pathAttrs([style.linewidth(self.units["px"]*unit.t_pt), style.miterlimit(4)])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
@@ -529,7 +537,9 @@ class svgHandler(svgBaseHandler):
 
     def endElementNS(self, name, qname):
         namespace, localname = name
-        if namespace == "http://www.w3.org/2000/svg":
+        if self.hidden:
+            self.hidden -= 1
+        elif namespace == "http://www.w3.org/2000/svg":
             if localname == "g":
                 self.canvas, self.stroke, self.fill = self.stack.pop()
 
-- 
2.43.0


From 7e7c7b583df2cfc4bc4ebc6be3cbb49f88503e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 151/175] fix: explicitly inherited styles in SVG files

---
 pyx/svgfile.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 7526857..8e5817d 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -398,29 +398,32 @@ class svgHandler(svgBaseHandler):
                 return [self.toTrafo(attributes[None, "transform"])]
             return []
 
+        def isset(localname):
+            return attributes.get((None, localname), "inherit").strip() != "inherit"
+
         def pathAttrs(default=_marker):
             if default is not _marker:
                 attrs = default
             else:
                 attrs = []
-            if attributes.get((None, "stroke-dasharray"), "inherit").strip() != "inherit":
+            if isset("stroke-dasharray"):
                 dasharray = attributes[None, "stroke-dasharray"].strip()
                 attrs.append(style.dash([] if dasharray == "none" else list(self.toFloats(dasharray)),
                                         offset=floatAttr("stroke-dashoffset", 0),
                                         rellengths=False))
-            if (None, "stroke-linecap") in attributes:
+            if isset("stroke-linecap"):
                 attrs.append({"butt": style.linecap.butt,
                               "round": style.linecap.round,
                               "square": style.linecap.square}[attributes[None, "stroke-linecap"]])
-            if (None, "stroke-linejoin") in attributes:
+            if isset("stroke-linejoin"):
                 attrs.append({"miter": style.linejoin.miter,
                               "round": style.linejoin.round,
                               "bevel": style.linejoin.bevel}[attributes[None, "stroke-linejoin"]])
-            if (None, "stroke-miterlimit") in attributes:
+            if isset("stroke-miterlimit"):
                 attrs.append(style.miterlimit(self.toFloat(attributes[None, "stroke-miterlimit"], units=False, single=True)))
-            if (None, "stroke-width") in attributes:
+            if isset("stroke-width"):
                 attrs.append(style.linewidth(floatAttr("stroke-width")*unit.t_pt))
-            if (None, "fill-rule") in attributes:
+            if isset("fill-rule"):
                 attrs.append({"nonzero": style.fillrule.nonzero_winding,
                               "evenodd": style.fillrule.even_odd}[attributes[None, "fill-rule"]])
             return attrs
-- 
2.43.0


From 5bd59b00178a4f7695e4ad9f7331561045b2cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 152/175] fix: numbers ending with a decimal point followed by
 other numbers in SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 8e5817d..257fd7e 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -83,7 +83,7 @@ class svgValueError(ValueError): pass
 
 class _marker: pass
 
-_svgFloatPattern = re.compile(r"\s*(?P<value>[-+]?([0-9]*\.?[0-9]+|[0-9]+\.)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
+_svgFloatPattern = re.compile(r"\s*(?P<value>[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
 _svgBoolPattern = re.compile(r"(?P<bool>[01])\s*,?\s*")
 _svgPathPattern = re.compile(r"(?P<cmd>[mlhvcsqtaz])\s*(?P<args>(([^mlhvcsqtaz]|pt|pc|mm|cm)*))", re.IGNORECASE)
 _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]+)\s*,\s*(?P<blue>[0-9]+)\s*\)$", re.IGNORECASE)
-- 
2.43.0


From 1447ff1cc4d1f7ecf6c89901ef167ac29d86f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 153/175] fix: closing subpaths without extent in SVG files

---
 pyx/svgfile.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 257fd7e..42fe2c0 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -21,7 +21,7 @@
 
 
 import xml.sax, re, math, logging
-from . import baseclasses, bbox, canvas, path, trafo, deco, style, color, unit
+from . import baseclasses, bbox, canvas, normpath, path, trafo, deco, style, color, unit
 
 logger = logging.getLogger("pyx")
 
@@ -151,6 +151,17 @@ class svgHandler(svgBaseHandler):
     def toPath(self, svgPath):
         # Note: all lengths are _pt, but _pt has been skipped to prevent clumsy notation
         p = path.path()
+        np = context = None # normpath and context of the path items of p
+
+        def append(pathitem):
+            nonlocal np, context
+            if p:
+                pathitem.updatenormpath(np, context)
+            else:
+                np = pathitem.createnormpath()
+                context = pathitem.createcontext()
+            p.append(pathitem)
+
         lastcmd = "" # command of the previous path segment
         end = 0
         for match in _svgPathPattern.finditer(svgPath):
@@ -183,20 +194,20 @@ class svgHandler(svgBaseHandler):
                     while args:
                         x, y, *args = args
                         if cmd in "Ll" or not first:
-                            p.append(path.lineto_pt(x, y) if cmd.isupper() else
+                            append(path.lineto_pt(x, y) if cmd.isupper() else
                                      path.rlineto_pt(x, y))
                         else:
-                            p.append(path.moveto_pt(x, y) if cmd.isupper() or not p else
+                            append(path.moveto_pt(x, y) if cmd.isupper() or not p else
                                      path.rmoveto_pt(x, y))
                         first = False
                 elif cmd in "HhVv":
-                    x, y = p.atend_pt() if cmd.isupper() else (0, 0)
+                    x, y = (context.x_pt, context.y_pt) if cmd.isupper() else (0, 0)
                     for arg in args:
                         if cmd in "Hh":
                             x = arg
                         else:
                             y = arg
-                        p.append(path.lineto_pt(x, y) if cmd.isupper() else
+                        append(path.lineto_pt(x, y) if cmd.isupper() else
                                  path.rlineto_pt(x, y))
                 elif cmd in "CcSs":
                     while args:
@@ -213,15 +224,15 @@ class svgHandler(svgBaseHandler):
                                 x1 = p[-1].dx3_pt - p[-1].dx2_pt
                                 y1 = p[-1].dy3_pt - p[-1].dy2_pt
                             if cmd == "S":
-                                x0, y0 = p.atend_pt()
+                                x0, y0 = (context.x_pt, context.y_pt)
                                 x1 += x0
                                 y1 += y0
-                        p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3) if cmd.isupper() else
+                        append(path.curveto_pt(x1, y1, x2, y2, x3, y3) if cmd.isupper() else
                                  path.rcurveto_pt(x1, y1, x2, y2, x3, y3))
                         lastcmd = cmd
                 elif cmd in "QqTt":
                     while args:
-                        x0, y0 = p.atend_pt()
+                        x0, y0 = (context.x_pt, context.y_pt)
                         if cmd in "Qq":
                             xq, yq, x3, y3, *args = args
                             if cmd == "q":
@@ -243,7 +254,7 @@ class svgHandler(svgBaseHandler):
                         y1 = y0 + 2/3 * (yq - y0)
                         x2 = x3 + 2/3 * (xq - x3)
                         y2 = y3 + 2/3 * (yq - y3)
-                        p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3))
+                        append(path.curveto_pt(x1, y1, x2, y2, x3, y3))
                         lastcmd = cmd
                 elif cmd in "aA":
                         while args:
@@ -254,16 +265,20 @@ class svgHandler(svgBaseHandler):
                             fS, args = self.toBool(args)
                             x2, args = self.toFloat(args)
                             y2, args = self.toFloat(args)
-                            x1, y1 = p.atend_pt()
+                            x1, y1 = (context.x_pt, context.y_pt)
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
                             if (x1, y1) != (x2, y2):
                                 arc = endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi)
-                                p.extend(arc.path().pathitems[1:])
+                                for pathitem in arc.path().pathitems[1:]:
+                                    append(pathitem)
                 else:
                     assert cmd in "zZ"
-                    p.append(path.closepath())
+                    try:
+                        append(path.closepath())
+                    except normpath.NormpathException:
+                        pass # nothing to be closed
                 lastcmd = cmd
                 if error:
                     raise error
-- 
2.43.0


From 4e16c4cdc23ef0ec9df5ace5fc720b5b77d1cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 154/175] fix: white space around colors in SVG files

---
 pyx/svgfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 42fe2c0..8075101 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -333,6 +333,7 @@ class svgHandler(svgBaseHandler):
         return t
 
     def toColor(self, name, inherit):
+        name = name.strip()
         if name == "currentColor":
             return None # TODO
         if name == "inherit":
@@ -389,10 +390,10 @@ class svgHandler(svgBaseHandler):
                  "violet": "rgb(238, 130, 238)", "wheat": "rgb(245, 222, 179)", "white": "rgb(255, 255, 255)",
                  "whitesmoke": "rgb(245, 245, 245)", "yellow": "rgb(255, 255, 0)", "yellowgreen": "rgb(154, 205, 50)"}
         name = names.get(name, name)
-        match = _svgColorAbsPattern.match(name.strip())
+        match = _svgColorAbsPattern.match(name)
         if match:
             return color.rgb(int(match.group("red"))/255, int(match.group("green"))/255, int(match.group("blue"))/255)
-        match = _svgColorRelPattern.match(name.strip())
+        match = _svgColorRelPattern.match(name)
         if match:
             return color.rgb(int(match.group("red"))/100, int(match.group("green"))/100, int(match.group("blue"))/100)
         return color.rgbfromhexstring(name)
-- 
2.43.0


From c5a8975815698080aaab923661eb1f01400bb250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 155/175] fix: data which are not finite numbers in graphs

---
 pyx/graph/axis/axis.py | 2 ++
 pyx/graph/style.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index eb76439..77c7429 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -101,6 +101,8 @@ class _regularaxis(_axis):
                 except Exception:
                     pass
                 else:
+                    if value != value: # not a number
+                        continue
                     if self.min is None and (data.min is None or value < data.min):
                         data.min = value
                     if self.max is None and (data.max is None or value > data.max):
diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 1e4a308..4dd0d09 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -225,6 +225,8 @@ class pos(_style):
         for columnname, index, axis in privatedata.pointpostmplist:
             try:
                 v = axis.convert(point[columnname])
+                if not math.isfinite(v):
+                    raise ValueError("not a position")
             except (ArithmeticError, ValueError, TypeError):
                 sharedata.vposavailable = sharedata.vposvalid = 0
                 sharedata.vpos[index] = None
-- 
2.43.0


From c412d45b2a384541a750e33b98186c5c48115bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 156/175] fix: error bars on reversed axes

---
 pyx/graph/style.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 4dd0d09..cf8adf2 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -776,17 +776,20 @@ class errorbar(_style):
                         mincap = 1
                     else:
                         mincap = 0
-                    if vminpos[i] > 1+self.epsilon:
-                        continue
-                    if vminpos[i] < -self.epsilon:
-                        vminpos[i] = 0
-                        mincap = 0
                     vmaxpos = sharedata.vpos[:]
                     if sharedata.vrange[i][1] is not None:
                         vmaxpos[i] = sharedata.vrange[i][1]
                         maxcap = 1
                     else:
                         maxcap = 0
+                    if vminpos[i] > vmaxpos[i]: # on reversed axes
+                        vminpos, vmaxpos = vmaxpos, vminpos
+                        mincap, maxcap = maxcap, mincap
+                    if vminpos[i] > 1+self.epsilon:
+                        continue
+                    if vminpos[i] < -self.epsilon:
+                        vminpos[i] = 0
+                        mincap = 0
                     if vmaxpos[i] < -self.epsilon:
                         continue
                     if vmaxpos[i] > 1+self.epsilon:
-- 
2.43.0


From 6721e7aba25f7d9ad758a7864a0d0572754eade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 157/175] fix: rectangles at the graph border and on reversed
 axes

---
 pyx/graph/style.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index cf8adf2..7ecc34d 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -965,17 +965,21 @@ class rect(_keygraphstyle):
         xvmax = sharedata.vrange[0][1]
         yvmin = sharedata.vrange[1][0]
         yvmax = sharedata.vrange[1][1]
-        if (xvmin is not None and xvmin < 1 and
-            xvmax is not None and xvmax > 0 and
-            yvmin is not None and yvmin < 1 and
-            yvmax is not None and yvmax > 0):
+        if xvmin is None or xvmax is None or yvmin is None or yvmax is None:
+            return
+        # the order of the limits is exchanged on reversed axes
+        if xvmin > xvmax:
+            xvmin, xvmax = xvmax, xvmin
+        if yvmin > yvmax:
+            yvmin, yvmax = yvmax, yvmin
+        if xvmin < 1 and xvmax > 0 and yvmin < 1 and yvmax > 0:
             if xvmin < 0:
                 xvmin = 0
-            elif xvmax > 1:
+            if xvmax > 1:
                 xvmax = 1
             if yvmin < 0:
                 yvmin = 0
-            elif yvmax > 1:
+            if yvmax > 1:
                 yvmax = 1
             p = graph.vgeodesic(xvmin, yvmin, xvmax, yvmin)
             p.append(graph.vgeodesic_el(xvmax, yvmin, xvmax, yvmax))
-- 
2.43.0


From eaf132bd86c1cc0115e508bf8a95023aa7bb44ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 158/175] fix: color column of the rect style

---
 pyx/graph/style.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 7ecc34d..199694f 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -986,7 +986,11 @@ class rect(_keygraphstyle):
             p.append(graph.vgeodesic_el(xvmax, yvmax, xvmin, yvmax))
             p.append(graph.vgeodesic_el(xvmin, yvmax, xvmin, yvmin))
             p.append(path.closepath())
-            privatedata.rectcanvas.fill(p, [self.color(privatedata, point["color"])])
+            try:
+                c = self.color(privatedata, point[self.colorname])
+            except (ArithmeticError, ValueError, TypeError):
+                return
+            privatedata.rectcanvas.fill(p, [c])
 
 
 class histogram(_style):
-- 
2.43.0


From f68a01cf1b12973c43bab2aa3a4f512e3409bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 159/175] fix: fillable histograms without fromvalue

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 199694f..268e766 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1262,11 +1262,11 @@ class histogram(_style):
         privatedata.path = path.path()
         privatedata.lastvvalue = privatedata.lastvmax = None
         privatedata.vcurrentpoint = None
+        privatedata.vfromvaluecut = 0
         privatedata.count = 0
         if self.fromvalue is not None:
             valueaxisname = sharedata.poscolumnnames[1-privatedata.rangeaxisindex]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
-            privatedata.vfromvaluecut = 0
             if privatedata.vfromvalue < 0:
                 privatedata.vfromvalue = 0
                 privatedata.vfromvaluecut = -1
-- 
2.43.0


From 70b84e5648051e0dfb54a790af3025b6b177bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 160/175] fix: validity of stacked bar positions outside of the
 graph

---
 pyx/graph/style.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 268e766..2fe50e2 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1483,14 +1483,13 @@ class stackedbarpos(_style):
             sharedata.vpos[sharedata.barvalueindex] = sharedata.vbarrange[sharedata.barvalueindex][1] = None
             sharedata.vposavailable = sharedata.vposvalid = 0
         else:
-            if not sharedata.vposavailable or not sharedata.vposvalid:
-                sharedata.vposavailable = sharedata.vposvalid = 1
-                for v in sharedata.vpos:
-                    if v is None:
-                        sharedata.vposavailable = sharedata.vposvalid = 0
-                        break
-                    if v < -self.epsilon or v > 1+self.epsilon:
-                        sharedata.vposvalid = 0
+            sharedata.vposavailable = sharedata.vposvalid = 1
+            for v in sharedata.vpos:
+                if v is None:
+                    sharedata.vposavailable = sharedata.vposvalid = 0
+                    break
+                if v < -self.epsilon or v > 1+self.epsilon:
+                    sharedata.vposvalid = 0
 
 
 class bar(_style):
-- 
2.43.0


From 3405f712a0329cb6dbe30fe3225f6b9a2b5ca545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 161/175] fix: colors of data without position in surface and
 density plots

---
 pyx/graph/style.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 2fe50e2..718d9d5 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1766,7 +1766,7 @@ class surface(_keygraphstyle):
         privatedata.colors = {}
 
     def drawpoint(self, privatedata, sharedata, graph, point):
-        if privatedata.colorize:
+        if privatedata.colorize and sharedata.vposavailable:
             privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
 
     def donedrawpoints(self, privatedata, sharedata, graph):
@@ -1937,8 +1937,10 @@ class density(_keygraphstyle):
         privatedata.vfixed = [None]*len(graph.axesnames)
 
     def drawpoint(self, privatedata, sharedata, graph, point):
+        if not sharedata.vposavailable:
+            return
         privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
-        if len(privatedata.vfixed) > 2 and sharedata.vposavailable:
+        if len(privatedata.vfixed) > 2:
             for i, (v1, v2) in enumerate(list(zip(privatedata.vfixed, sharedata.vpos))):
                 if i != sharedata.index1 and i != sharedata.index2:
                     if v1 is None:
-- 
2.43.0


From 36a65ad66d0fca434d0881c3ff4d384b9b0978a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 162/175] fix: last color of gradients in color keys

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 718d9d5..d2ff87a 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -2097,7 +2097,7 @@ class gradient(_style):
                 "/DeviceCMYK": "CMYK"}[self.gradient.getcolor(0).colorspacestring()]
         data = io.BytesIO()
         for i in builtinrange(self.resolution):
-            c = self.gradient.getcolor(i*1.0/self.resolution)
+            c = self.gradient.getcolor(i*1.0/(self.resolution-1))
             data.write(c.to8bitbytes())
         i = bitmap.image(self.resolution, 1, mode, data.getvalue())
 
-- 
2.43.0


From 31c0a1798bc0e149a91db51b6fc8781bae612c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 163/175] fix: missing colors in surface plots

---
 pyx/graph/style.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index d2ff87a..76f3b4c 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -156,6 +156,8 @@ class _keygraphstyle(_style):
 
     def color(self, privatedata, c):
         vc = privatedata.keygraph.axes["x"].convert(c)
+        if not math.isfinite(vc):
+            raise ValueError("not a color value")
         if vc < 0:
             logger.warning("gradient color range is exceeded (lower bound)")
             vc = 0
@@ -1852,12 +1854,15 @@ class surface(_keygraphstyle):
                     c2 = privatedata.colors[value1a][value2b]
                     c3 = privatedata.colors[value1b][value2a]
                     c4 = privatedata.colors[value1b][value2b]
-                    c5 = self.midcolor(c1, c2, c3, c4)
-                    c1a = c1b = self.color(privatedata, c1)
-                    c2a = c2c = self.color(privatedata, c2)
-                    c3b = c3d = self.color(privatedata, c3)
-                    c4c = c4d = self.color(privatedata, c4)
-                    c5a = c5b = c5c = c5d = self.color(privatedata, c5)
+                    try:
+                        c5 = self.midcolor(c1, c2, c3, c4)
+                        c1a = c1b = self.color(privatedata, c1)
+                        c2a = c2c = self.color(privatedata, c2)
+                        c3b = c3d = self.color(privatedata, c3)
+                        c4c = c4d = self.color(privatedata, c4)
+                        c5a = c5b = c5c = c5d = self.color(privatedata, c5)
+                    except (ArithmeticError, ValueError, TypeError):
+                        continue
                     if self.backcolor is not None and sign*graph.vangle(*(v1+v2+v5)) < 0:
                         c1a = c2a = c5a = self.backcolor
                     if self.backcolor is not None and sign*graph.vangle(*(v3+v1+v5)) < 0:
-- 
2.43.0


From 60104e84b56ca93cd6d4906c92a7c1a97f661090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 164/175] fix: impulses and histograms of data columns not
 named like the axis

---
 pyx/graph/style.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 76f3b4c..cca6fad 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -173,7 +173,7 @@ class _keygraphstyle(_style):
 
 class pos(_style):
 
-    providesdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames"]
+    providesdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames", "posaxisnames"]
 
     def __init__(self, usenames={}, epsilon=1e-10):
         self.usenames = usenames
@@ -204,6 +204,7 @@ class pos(_style):
         # later, different pos style in the styles list (due to different
         # usenames).
         sharedata.poscolumnnames = privatedata.poscolumnnames
+        sharedata.posaxisnames = privatedata.axisnames
         sharedata.vposmissing = privatedata.vposmissing
         dataaxisnames.update(privatedata.axisnames)
         return [columnname for columnname in privatedata.poscolumnnames if columnname is not None]
@@ -698,12 +699,12 @@ class impulses(_styleneedingpointpos):
                 pass
             else:
                 if i == self.valueaxisindex:
-                    graph.axes[sharedata.poscolumnnames[i]].adjustaxis([self.fromvalue])
+                    graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([self.fromvalue])
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         privatedata.impulsescanvas = canvas.canvas()
         if self.fromvalue is not None:
-            valueaxisname = sharedata.poscolumnnames[self.valueaxisindex]
+            valueaxisname = sharedata.posaxisnames[sharedata.poscolumnnames[self.valueaxisindex]]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
             privatedata.vfromvaluecut = 0
             if privatedata.vfromvalue < 0:
@@ -1041,9 +1042,9 @@ class histogram(_style):
                 delta = data[1] - data[0]
                 min = data[0] - self.autohistogrampointpos * delta
                 max = data[-1] + (1-self.autohistogrampointpos) * delta
-                graph.axes[columnname].adjustaxis([min, max])
+                graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([min, max])
         elif self.fromvalue is not None and columnname == sharedata.poscolumnnames[1-privatedata.rangeaxisindex]:
-            graph.axes[columnname].adjustaxis([self.fromvalue])
+            graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([self.fromvalue])
 
     def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         privatedata.insertfrompath = selectindex == 0
@@ -1267,7 +1268,7 @@ class histogram(_style):
         privatedata.vfromvaluecut = 0
         privatedata.count = 0
         if self.fromvalue is not None:
-            valueaxisname = sharedata.poscolumnnames[1-privatedata.rangeaxisindex]
+            valueaxisname = sharedata.posaxisnames[sharedata.poscolumnnames[1-privatedata.rangeaxisindex]]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
             if privatedata.vfromvalue < 0:
                 privatedata.vfromvalue = 0
-- 
2.43.0


From 8c1da1273c8b13123bab0cdcac7775f637d1d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 165/175] fix: parallels at tiny concave corners (inside of
 circles)

---
 pyx/deformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index b068726..cfcbb4c 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -1010,8 +1010,7 @@ class parallel(baseclasses.deformer): # <<<
                     # if the parallel normpath is split into several subpaths anyway,
                     # then use the natural beginning and ending
                     # closing is not possible anymore
-                    for nspitem in result[0]:
-                        result[-1].append(nspitem)
+                    result[-1].join(result[0])
                     result.normsubpaths = result.normsubpaths[1:]
                 join_begin, joinend = False, False
 
@@ -1309,8 +1308,9 @@ class parallel(baseclasses.deformer): # <<<
         #sinangle = prev_tangent[0]*next_tangent[1] - prev_tangent[1]*next_tangent[0] # >0 for left-turning, <0 for right-turning
         cosangle = prev_tangent[0]*next_tangent[0] + prev_tangent[1]*next_tangent[1]
         proj = prev_orthogo[0]*next_tangent[0] + prev_orthogo[1]*next_tangent[1]
-        is_straight = (cosangle > 0 and abs(proj) < epsilon)
         is_concave = (proj > 0)
+        # do not run around tiny concave corners by an almost full circle
+        is_straight = (cosangle > 0 and (abs(proj) < epsilon or (is_concave and proj < 0.01*abs(self.dist_pt))))
         return prev_tangent, next_tangent, is_straight, is_concave
     # >>>
 
-- 
2.43.0


From ab7d9ce5e444d3a0244ed220f48179308a6bffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 166/175] fix: smoothing subpaths consisting of a single item

---
 pyx/deformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index cfcbb4c..c5dc9e0 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -577,6 +577,9 @@ class cornersmoothed(baseclasses.deformer): # <<<
             l1_pt = min(radius_pt, arclens_pt[-1])
             l2_pt = arclens_pt[-1]
             params[-1] = pertinentnormsubpathitems[-1].arclentoparam_pt([l1_pt, l2_pt], epsilon)
+            if len(pertinentnormsubpathitems) == 1:
+                # there is no corner at all
+                params[0] = [0, 1]
 
         newnormsubpath = normpath.normsubpath(epsilon=normsubpath.epsilon)
         for i in range(len(pertinentnormsubpathitems)):
-- 
2.43.0


From 908a633d338dd5d787f41ff56641518dde6af2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 167/175] fix: smoothing subpaths which are too short

---
 pyx/deformer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index c5dc9e0..e35dc62 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -556,8 +556,14 @@ class cornersmoothed(baseclasses.deformer): # <<<
         pertinentepsilon = max(epsilon, self.relskipthres*radius_pt)
         pertinentnormsubpath = normpath.normsubpath(normsubpath.normsubpathitems,
                                                 epsilon=pertinentepsilon)
-        pertinentnormsubpath.flushskippedline()
+        try:
+            pertinentnormsubpath.flushskippedline()
+        except ValueError:
+            # the whole normsubpath is too short
+            return normsubpath
         pertinentnormsubpathitems = pertinentnormsubpath.normsubpathitems
+        if not pertinentnormsubpathitems:
+            return normsubpath
 
         # calculate the splitting parameters for the pertinentnormsubpathitems
         arclens_pt = []
-- 
2.43.0


From 91de3e0fc7a62ba44a26fc2b4af9871cbf9b7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 168/175] fix: parallels at distance zero

---
 pyx/deformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index e35dc62..20d7564 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -902,7 +902,8 @@ class parallel(baseclasses.deformer): # <<<
                 par_to_orig[key] = par2orig[key]
         result = normpath.normpath(resultnormsubpaths)
 
-        if self.dointersection:
+        # there are no pieces to be cut away for too small dists (see deformsubpath)
+        if self.dointersection and any(abs(self.dist_pt) >= abs(nsp.epsilon) for nsp in basepath.normsubpaths):
             result = self.rebuild_intersected_normpath(result, basepath, par_to_orig)
 
         return result
-- 
2.43.0


From d1a72e4c72d81896973ead8bbe87c4441ffa682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 169/175] fix: parallels of curves forming a loop

---
 pyx/deformer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index 20d7564..4d7a347 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -1192,6 +1192,15 @@ class parallel(baseclasses.deformer): # <<<
                 else:
                     result = firstnsp.joined(secondnsp)
 
+        elif endparam - startparam > 0.2:
+            # the curve might form a loop: its normals tell something
+            # about the space available for sufficiently short pieces only
+            middleparam = 0.5*(startparam + endparam)
+            firstnsp, first_par2orig = self.deformnicecurve(normcurve, epsilon, startparam, middleparam, curvA, None)
+            secondnsp, second_par2orig = self.deformnicecurve(normcurve, epsilon, middleparam, endparam, None, curvD)
+            if firstnsp.normsubpathitems and secondnsp.normsubpathitems:
+                result = firstnsp.joined(secondnsp)
+
         par_to_orig = {}
         for key in result:
             par_to_orig[key] = normcurve
-- 
2.43.0


From 1b87ecfc98b2943953df27eaa433d364f92e9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 170/175] fix: list the glyphs included in PS fonts in a
 reproducible order

---
 pyx/font/font.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 9b15d05..7d53944 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -51,9 +51,9 @@ class PST1file(pswriter.PSresource):
         file.write("%%%%BeginFont: %s\n" % self.t1file.name)
         if writer.stripfonts:
             if self.glyphnames:
-                file.write("%%Included glyphs: %s\n" % " ".join(self.glyphnames))
+                file.write("%%Included glyphs: %s\n" % " ".join(sorted(self.glyphnames)))
             if self.charcodes:
-                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in self.charcodes]))
+                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in sorted(self.charcodes)]))
             self.t1file.getstrippedfont(self.glyphnames, self.charcodes).outputPS(file, writer)
         else:
             self.t1file.outputPS(file, writer)
-- 
2.43.0


From f303c5476d57474e2f0d228b264fdac0f4eb6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 171/175] fix: set up font encodings in a reproducible order

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 7d53944..cfbf59f 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -490,7 +490,7 @@ class T1text_pt(text_pt):
         """returns the name of the encoding (in encodings) mapping self.glyphnames to codepoints
         If no such encoding can be found or extended, a new encoding is added to encodings
         """
-        glyphnames = set(self.glyphnames)
+        glyphnames = list(dict.fromkeys(self.glyphnames)) # unique, but in a reproducible order
         if len(glyphnames) > 256:
             raise ValueError("glyphs do not fit into one single encoding")
         for encodingname, encoding in list(encodings.items()):
-- 
2.43.0


From a3b40b6a6d63f8a980baeeb90261e0afc94f01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 172/175] fix: automatic axis range of bars stacked on top of
 each other

---
 pyx/graph/style.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index cca6fad..3941f94 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1372,6 +1372,7 @@ class barpos(_style):
                 raise ValueError("value/name missing")
         if sharedata.barvalueindex is None:
             raise ValueError("missing value")
+        sharedata.stackedbarcolumns = [sharedata.barposcolumnnames[sharedata.barvalueindex]]
         sharedata.vposmissing = []
         return sharedata.barposcolumnnames
 
@@ -1461,11 +1462,30 @@ class stackedbarpos(_style):
     def columnnames(self, privatedata, sharedata, graph, columnnames, dataaxisnames):
         if self.stackname not in columnnames:
             raise ValueError("column '%s' missing" % self.stackname)
+        # columns to be added up for the value of the bar
+        if self.addontop:
+            sharedata.stackedbarcolumns = sharedata.stackedbarcolumns + [self.stackname]
+        else:
+            sharedata.stackedbarcolumns = [self.stackname]
+        privatedata.stackedbarcolumns = sharedata.stackedbarcolumns
+        privatedata.stackedbardata = {}
         return [self.stackname]
 
     def adjustaxis(self, privatedata, sharedata, graph, plotitem, columnname, data):
-        if columnname == self.stackname:
-            graph.axes[sharedata.barposcolumnnames[sharedata.barvalueindex]].adjustaxis(data)
+        if columnname in privatedata.stackedbarcolumns:
+            privatedata.stackedbardata[columnname] = data
+            if all(name in privatedata.stackedbardata for name in privatedata.stackedbarcolumns):
+                values = []
+                for summands in zip(*[privatedata.stackedbardata[name] for name in privatedata.stackedbarcolumns]):
+                    value = summands[0]
+                    try:
+                        for summand in summands[1:]:
+                            value = value + summand
+                    except (ArithmeticError, ValueError, TypeError):
+                        pass
+                    else:
+                        values.append(value)
+                graph.axes[sharedata.barposcolumnnames[sharedata.barvalueindex]].adjustaxis(values)
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         if sharedata.stackedbardraw: # do not count the start bar when not gets painted
-- 
2.43.0


From 3ffa9445de91342552fd502a7cf63dfdde15eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 173/175] fix: calling a pattern to get a modified copy of it

---
 pyx/pattern.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index 9c89430..0a97346 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -54,21 +54,29 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
 
     def __call__(self, painttype=_marker, tilingtype=_marker, xstep=_marker, ystep=_marker,
                  bbox=_marker, trafo=_marker, bboxenlarge=_marker):
-        if painttype is not _marker:
+        if painttype is _marker:
             painttype = self.painttype
-        if tilingtype is not _marker:
+        if tilingtype is _marker:
             tilingtype = self.tilingtype
-        if xstep is not _marker:
+        if xstep is _marker:
             xstep = self.xstep
-        if ystep is not _marker:
+        if ystep is _marker:
             ystep = self.ystep
-        if bbox is not _marker:
-            bbox = self.bbox
-        if trafo is not _marker:
-            trafo = self.trafo
-        if bboxenlarge is not _marker:
+        if bbox is _marker:
+            bbox = self.patternbbox
+        if trafo is _marker:
+            trafo = self.patterntrafo
+        if bboxenlarge is _marker:
             bboxenlarge = self.bboxenlarge
-        return pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge)
+        newpattern = pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge, textengine=self.textengine)
+        # take over the content including the canvas attributes
+        newpattern.items = self.items[:]
+        newpattern.layers = self.layers.copy()
+        newpattern.trafo = self.trafo
+        newpattern.clip = self.clip
+        newpattern.styles = self.styles
+        newpattern.modifies_state = self.modifies_state
+        return newpattern
 
     def processPS(self, file, writer, context, registry):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
-- 
2.43.0


From 46bbe7c026ec6f50fa43e4e505ee4ee0bb6b03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 174/175] fix: position of pattern tiles in SVG

---
 pyx/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index 0a97346..23e8ce0 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -386,6 +386,8 @@ class SVGpattern(svgwriter.SVGresource):
         attrs = {"id": self.svgid, "patternUnits": "userSpaceOnUse"}
         llx, lly, urx, ury = patternbbox.highrestuple_pt()
         attrs["viewBox"] = "%g %g %g %g" % (llx, -ury, urx-llx, ury-lly)
+        attrs["x"] = "%g" % llx
+        attrs["y"] = "%g" % -ury
         attrs["width"] = "%g" % (urx-llx)
         attrs["height"] = "%g" % (ury-lly)
         if self.pattern.patterntrafo:
-- 
2.43.0


From a15b058ae7757afefd7d34e521690a3095bb2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 175/175] fix: fill patterns after colors within a canvas
 filled by a pattern in PDF

---
 pyx/color.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/color.py b/pyx/color.py
index 7ea28af..9a64f53 100644
--- a/pyx/color.py
+++ b/pyx/color.py
@@ -83,6 +83,7 @@ class gray(color):
         if context.strokeattr:
             file.write("%f G\n" % self.g)
         if context.fillattr:
+            context.colorspace = None # the device color space is selected implicitly
             file.write("%f g\n" % self.g)
 
     def cmyk(self):
@@ -132,6 +133,7 @@ class rgb(color):
         if context.strokeattr:
             file.write("%f %f %f RG\n" % (self.r, self.g, self.b))
         if context.fillattr:
+            context.colorspace = None # the device color space is selected implicitly
             file.write("%f %f %f rg\n" % (self.r, self.g, self.b))
 
     def cmyk(self):
@@ -251,6 +253,7 @@ class cmyk(color):
         if context.strokeattr:
             file.write("%f %f %f %f K\n" % (self.c, self.m, self.y, self.k))
         if context.fillattr:
+            context.colorspace = None # the device color space is selected implicitly
             file.write("%f %f %f %f k\n" % (self.c, self.m, self.y, self.k))
 
     def cmyk(self):
-- 
2.43.0

