From 78e4aa51fee95ec347095699a3561d96064639c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 01/51] fix: trafo.mirror mirrors at the line in direction
 angle (not -angle)

---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 60223a4..e0615c9 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -42,8 +42,8 @@ def _mmatrix(angle):
     phi = math.pi*angle/180.0
 
     return ( (math.cos(phi)*math.cos(phi)-math.sin(phi)*math.sin(phi),
-              -2*math.sin(phi)*math.cos(phi)                ),
-             (-2*math.sin(phi)*math.cos(phi),
+               2*math.sin(phi)*math.cos(phi)                ),
+             ( 2*math.sin(phi)*math.cos(phi),
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
-- 
2.43.0


From 53ef9afedec3e219541f7f36d13f0611c63bd0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 02/51] fix: trafo.slant and slant_pt keep the given point
 fixed

---
 pyx/trafo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index e0615c9..c90be2a 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -228,18 +228,20 @@ class scale(trafo):
 
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
+        vector = (0, 0) if y is None else (-a*y, 0)
         t = ( rotate_pt(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
+              trafo_pt(matrix=((1, a), (0, 1)), vector=vector) *
               rotate_pt(angle, x, y) )
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class slant(trafo):
     def __init__(self, a, angle=0, x=None, y=None):
+        vector = (0, 0) if y is None else (-a*y, 0)
         t = ( rotate(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
+              trafo(matrix=((1, a), (0, 1)), vector=vector) *
               rotate(angle, x, y) )
-        trafo.__init__(self, t.matrix, t.vector)
+        trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class translate_pt(trafo_pt):
-- 
2.43.0


From 695635f53ee029e0769d2212ddcaf22926e1dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 03/51] fix: intersection of disjoint bounding boxes is empty
 (instead of an inverted box)

---
 pyx/bbox.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 70562fd..3f8c9b4 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -75,7 +75,7 @@ class bbox_pt:
 
     def __mul__(self, other):
         """return intersection of two bboxes"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             return bbox_pt(max(self.llx_pt, other.llx_pt), max(self.lly_pt, other.lly_pt),
                            min(self.urx_pt, other.urx_pt), min(self.ury_pt, other.ury_pt))
         else:
@@ -83,12 +83,12 @@ class bbox_pt:
 
     def __imul__(self, other):
         """intersect two bboxes in place"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             self.llx_pt = max(self.llx_pt, other.llx_pt)
             self.lly_pt = max(self.lly_pt, other.lly_pt)
             self.urx_pt = min(self.urx_pt, other.urx_pt)
             self.ury_pt = min(self.ury_pt, other.ury_pt)
-        elif other.llx_pt is None:
+        else:
             self.llx_pt = None
         return self
 
-- 
2.43.0


From 530bbb3e02f9ac47e08ab414de9822d3cf97b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 04/51] fix: bbox top, bottom, left and right raise ValueError
 for an empty bbox

---
 pyx/bbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 3f8c9b4..a1d9b65 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -305,19 +305,19 @@ class bbox_pt:
 
     def top(self):
         """return top coordinate of bbox"""
-        return self.ury_pt * unit.t_pt
+        return self.top_pt() * unit.t_pt
 
     def bottom(self):
         """return bottom coordinate of bbox"""
-        return self.lly_pt * unit.t_pt
+        return self.bottom_pt() * unit.t_pt
 
     def left(self):
         """return left coordinate of bbox"""
-        return self.llx_pt * unit.t_pt
+        return self.left_pt() * unit.t_pt
 
     def right(self):
         """return right coordinate of bbox"""
-        return self.urx_pt * unit.t_pt
+        return self.right_pt() * unit.t_pt
 
     def center(self):
         """return coordinates of the center of the bbox"""
-- 
2.43.0


From 6c068975a9d0d8ff2df22fcb63e7a7cb9f197f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 05/51] fix: path.rotation_pt and path.trafo_pt take arc
 lengths in pts

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 063a557..f587a2d 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -1252,7 +1252,7 @@ class path:
 
     def rotation_pt(self, params):
         """return rotation at param(s) or arc length(s) in pts"""
-        return self.normpath().rotation(params)
+        return self.normpath().rotation_pt(params)
 
     def rotation(self, params):
         """return rotation at param(s) or arc length(s)"""
@@ -1284,7 +1284,7 @@ class path:
 
     def trafo_pt(self, params):
         """return transformation at param(s) or arc length(s) in pts"""
-        return self.normpath().trafo(params)
+        return self.normpath().trafo_pt(params)
 
     def trafo(self, params):
         """return transformation at param(s) or arc length(s)"""
-- 
2.43.0


From 46b752ab84fdbc8b1e11d1791eef8598e6c122c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 06/51] fix: dividing a normpathparam raised TypeError in
 Python 3

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index f0da965..af003c9 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1494,7 +1494,7 @@ class normpathparam:
 
     __rmul__ = __mul__
 
-    def __div__(self, divisor):
+    def __truediv__(self, divisor):
         return self.normpath.arclentoparam_pt(self.normpath.paramtoarclen_pt(self) / divisor)
 
     def __neg__(self):
-- 
2.43.0


From 67abd43a75cfb024db668b1156965c2818825f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 07/51] fix: appending a path item to an empty normpath used
 the normpath as epsilon

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index af003c9..3b7992b 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1629,7 +1629,7 @@ class normpath:
                                          self.normsubpaths[-1].atbegin_pt()))
                 item.updatenormpath(self, context)
             else:
-                self.normsubpaths = item.createnormpath(self).normsubpaths
+                self.normsubpaths = item.createnormpath().normsubpaths
 
     def arclen_pt(self, upper=False):
         """return arc length in pts
-- 
2.43.0


From b4d28a670e5d0c3e35af06a682b5c140558ead53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 08/51] fix: arc lengths of unsorted parameters on a curve were
 wrong

---
 pyx/normpath.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 3b7992b..9949d0c 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -582,10 +582,15 @@ class normcurve_pt(normsubpathitem):
                             x_pt, y_pt)
 
     def _paramtoarclen_pt(self, params, epsilon):
-        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + list(params) + [1])]
-        for i in range(1, len(arclens_pt)):
-            arclens_pt[i] += arclens_pt[i-1]
-        return arclens_pt[:-1], arclens_pt[-1]
+        # the segments need to be summed up in ascending order of the params
+        indices = sorted(range(len(params)), key=lambda i: params[i])
+        segments = self.segments([0] + [params[i] for i in indices] + [1])
+        result = [None] * len(params)
+        arclen_pt = 0
+        for i, segment in zip(indices, segments):
+            arclen_pt += segment.arclen_pt(epsilon)
+            result[i] = arclen_pt
+        return result, arclen_pt + segments[-1].arclen_pt(epsilon)
 
     def pathitem(self):
         from . import path
-- 
2.43.0


From ea7f8cd3ebc9c6e838e6821cd491a3f7d73f76c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 09/51] fix: wrong middle point of a short line in the
 intersection with another line

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 9949d0c..168c221 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -225,7 +225,7 @@ class normline_pt(normsubpathitem):
                 # account.
                 if short_self:
                     sx_pt = 0.5*(self.x0_pt + self.x1_pt)
-                    sy_pt = 0.5*(self.y0_pt + self.x1_pt)
+                    sy_pt = 0.5*(self.y0_pt + self.y1_pt)
                 if short_other:
                     ox_pt = 0.5*(other.x0_pt + other.x1_pt)
                     oy_pt = 0.5*(other.y0_pt + other.y1_pt)
-- 
2.43.0


From cf3f7bbcbdfa7d7008fc42462187deedf69c50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 10/51] fix: keep the current point after arcs and closepath in
 SVG output

Tangent arcs following an arc (inverted y coordinate) or a closepath (current
point not moved back to the start of the subpath) were misplaced.
---
 pyx/path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index f587a2d..1bdfc6a 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -312,6 +312,8 @@ class closepath(pathitem):
         file.write("closepath\n")
 
     def returnSVGdata(self, inverse_y, first, context):
+        context.x_pt = context.subfirstx_pt
+        context.y_pt = context.subfirsty_pt
         return "Z"
 
 
@@ -681,8 +683,7 @@ class arc_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
@@ -778,8 +779,7 @@ class arcn_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
-- 
2.43.0


From 9f04018a616c692ec3ec61a2599bb3bcd609f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 11/51] fix: start a new subpath for items following closepath
 when normalizing

Lines and curves following a closepath were added to the closed subpath in PDF
output and raised an exception otherwise.
---
 pyx/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/path.py b/pyx/path.py
index 1bdfc6a..2ef28f6 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -1225,6 +1225,9 @@ class path:
                 np = self.pathitems[0].createnormpath(epsilon)
             context = self.pathitems[0].createcontext()
             for pathitem in self.pathitems[1:]:
+                if np.normsubpaths[-1].closed and not isinstance(pathitem, (moveto_pt, rmoveto_pt, closepath)):
+                    # continue at the current point in a new subpath
+                    moveto_pt(context.x_pt, context.y_pt).updatenormpath(np, context)
                 pathitem.updatenormpath(np, context)
         else:
             np = normpath()
-- 
2.43.0


From 71c9f93f47453683895fcd360d1d2b6a37c28e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 12/51] fix: fill rule given to deco.filled was ignored in
 PostScript and PDF

---
 pyx/deco.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 8586b44..23b956f 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -147,10 +147,11 @@ class decoratedpath(baseclasses.canvasitem):
                 # do efficient stroking + filling if respective paths are identical
                 file.write("gsave\n")
 
+                acontext = context()
                 if self.fillstyles:
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -169,11 +170,12 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("grestore\n")
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("gsave\n")
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -247,7 +249,7 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("B*\n")
                 else:
                     file.write("B\n") # both stroke and fill
@@ -257,11 +259,12 @@ class decoratedpath(baseclasses.canvasitem):
                 file.write("Q\n") # grestore
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("q\n") # gsave
-                    _writefillstyles(self.fillstyles, context(), registry)
+                    _writefillstyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("f*\n")
                 else:
                     file.write("f\n") # fill
-- 
2.43.0


From 3e7da0a877347419c9cd56341d2e8ed2be7bc913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 13/51] fix: SVG paths with ranges excluded from stroking are
 filled before they are stroked

---
 pyx/deco.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 23b956f..2a8af99 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -321,15 +321,6 @@ class decoratedpath(baseclasses.canvasitem):
             xml.startSVGElement("g", gattrs)
 
         if strokepath is not fillpath:
-            if self.strokestyles is not None:
-                attrs = {"d": strokepath.returnSVGdata()}
-                _writestrokestyles(attrs, acontext)
-                attrs["stroke"] = acontext.strokecolor
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
                 _writefillstyles(attrs, acontext)
@@ -339,6 +330,15 @@ class decoratedpath(baseclasses.canvasitem):
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
                 bbox += fillpath.bbox()
+            if self.strokestyles is not None:
+                attrs = {"d": strokepath.returnSVGdata()}
+                _writestrokestyles(attrs, acontext)
+                attrs["stroke"] = acontext.strokecolor
+                if acontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.strokeopacity
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
+                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
         else:
             attrs = {"d": fillpath.returnSVGdata()}
             _writestrokestyles(attrs, acontext)
-- 
2.43.0


From 3994cba5d224ce17684464ccd8332947b816bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 14/51] fix: SVG paths with different opacities for filling and
 stroking

---
 pyx/deco.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 2a8af99..7e9f916 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -348,18 +348,17 @@ class decoratedpath(baseclasses.canvasitem):
             if self.fillstyles is not None:
                 attrs["fill"] = acontext.fillcolor
             if acontext.strokeopacity != acontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                attrs["stroke"] = acontext.strokecolor
-                attrs["fill"] = "none"
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
+                # different opacities: fill first and stroke afterwards
+                attrs["opacity"] = "%f" % acontext.fillopacity
                 attrs["stroke"] = "none"
                 attrs["fill"] = acontext.fillcolor
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
+                attrs["opacity"] = "%f" % acontext.strokeopacity
+                attrs["stroke"] = acontext.strokecolor
+                attrs["fill"] = "none"
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
             else:
                 if acontext.strokeopacity != 1 and self.strokestyles is not None:
                     attrs["opacity"] = "%f" % acontext.strokeopacity
-- 
2.43.0


From 31c9dcabf3463509a70a19bdfc71fbd4b0304a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 15/51] fix: SVG ornaments are not affected by the stroke and
 fill styles of the path

---
 pyx/deco.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 7e9f916..a2e1fe3 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -320,6 +320,10 @@ class decoratedpath(baseclasses.canvasitem):
         if gattrs:
             xml.startSVGElement("g", gattrs)
 
+        # the stroke and fill styles do not apply to the ornaments
+        context = acontext
+        acontext = context()
+
         if strokepath is not fillpath:
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
@@ -371,7 +375,7 @@ class decoratedpath(baseclasses.canvasitem):
             else:
                 bbox += strokepath.bbox()
 
-        self.ornaments.processSVG(xml, writer, acontext, registry, bbox)
+        self.ornaments.processSVG(xml, writer, context, registry, bbox)
 
         if gattrs:
             xml.endSVGElement("g")
-- 
2.43.0


From 57b6762fd1870c67180b3b638fec69162244509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 16/51] fix: sign of the time zone in the creation date of PDF
 files

---
 pyx/pdfwriter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 88194f9..c8feb6d 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -172,14 +172,15 @@ class PDFinfo(PDFobject):
             creation_date = time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH')))
             timezone = "Z00'00'"
         else:
-            if time.timezone < 0:
+            creation_date = time.localtime()
+            # offset of the local time from UT, positive to the east of Greenwich
+            if creation_date.tm_gmtoff < 0:
                 # divmod on positive numbers, otherwise the minutes have a different sign from the hours
-                timezone = "-%02i'%02i'" % divmod(-time.timezone/60, 60)
-            elif time.timezone > 0:
-                timezone = "+%02i'%02i'" % divmod(time.timezone/60, 60)
+                timezone = "-%02i'%02i'" % divmod(-creation_date.tm_gmtoff//60, 60)
+            elif creation_date.tm_gmtoff > 0:
+                timezone = "+%02i'%02i'" % divmod(creation_date.tm_gmtoff//60, 60)
             else:
                 timezone = "Z00'00'"
-            creation_date = time.localtime()
 
         def pdfstring(s):
             r = ""
-- 
2.43.0


From 9dc9c6ae1d43b2af7cf9fe68d48d78c914d5e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 17/51] fix: PDF text fields inside of canvases with fill
 styles

---
 pyx/canvas.py   | 2 +-
 pyx/pdfextra.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 3bd4fb9..cac658f 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -222,7 +222,7 @@ class canvas(baseclasses.canvasitem):
                 file.write("q\n") # gsave
                 for attr in self.styles:
                     if isinstance(attr, style.fillstyle):
-                        context.fillstyles.append(attr)
+                        context.fillstyles = context.fillstyles + [attr]
                     attr.processPDF(file, writer, context, registry)
                 if self.clip is not None:
                     self.clip.processPDF(file, writer, context, registry)
diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index aa64e5e..2b27030 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -244,7 +244,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
                 cont = pdfwriter.context()
                 cont.fillattr = 1
                 cont.strokeattr = 0
-                attr.processPDF(fillstring, writer, cont, self.registry, bbox)
+                attr.processPDF(fillstring, writer, cont, self.registry)
         self.fillstyles = fillstring.getvalue()
         fillstring.close()
 
-- 
2.43.0


From 6b16c0ec7497a1c9f40d28c5081136ce12e453c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 18/51] fix: annotations of different pages in PDF

---
 pyx/pdfwriter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index c8feb6d..0094d1f 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -282,6 +282,13 @@ class PDFpage(PDFobject):
 
         self.pdfcontent = PDFcontent(page, writer, self.pageregistry)
         self.pageregistry.add(self.pdfcontent)
+        # the annotations belong to this page only, hence they must not be
+        # merged with the annotations of the other pages
+        self.pdfannotations = None
+        for object in self.pageregistry.objects:
+            if object.type == "annotations":
+                object.id = "annotations%d" % pageno
+                self.pdfannotations = object
         registry.mergeregistry(self.pageregistry)
 
     def write(self, file, writer, registry):
@@ -298,9 +305,8 @@ class PDFpage(PDFobject):
         if self.page.rotated:
             file.write("/Rotate 90\n")
 
-        pdfannotations = PDFannotations([])
-        if pdfannotations in registry:
-            file.write("/Annots %i 0 R\n" % registry.getrefno(pdfannotations))
+        if self.pdfannotations is not None:
+            file.write("/Annots %i 0 R\n" % registry.getrefno(self.pdfannotations))
         file.write("/Contents %i 0 R\n" % registry.getrefno(self.pdfcontent))
         file.write("/Resources ")
         self.pageregistry.writeresources(file)
-- 
2.43.0


From ced83ee80ad6b0a4c27876746a8c9dc13b05c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 19/51] fix: encoding of characters outside of PDFDocEncoding
 in PDF strings

---
 pyx/pdfwriter.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 0094d1f..53508f2 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -162,6 +162,26 @@ class PDFcatalog(PDFobject):
         file.write(">>\n")
 
 
+def pdfstring(s):
+    """ return the content of a PDF text string for s, which uses PDFDocEncoding as
+    long as it coincides with ISO Latin-1, and UTF-16BE otherwise """
+    for c in s:
+        if not (ord(c) < 24 or 32 <= ord(c) < 127 or 161 <= ord(c) <= 255 and ord(c) != 173):
+            return pdfbytestring(b"\xfe\xff" + s.encode("utf-16-be"))
+    return pdfbytestring(s.encode("latin-1"))
+
+
+def pdfbytestring(codes):
+    """ return the bytes in codes as the content of a PDF string """
+    r = ""
+    for code in codes:
+        if 32 <= code < 127 and chr(code) not in "()[]<>\\":
+            r += chr(code)
+        else:
+            r += "\\%03o" % code
+    return r
+
+
 class PDFinfo(PDFobject):
 
     def __init__(self):
@@ -182,15 +202,6 @@ class PDFinfo(PDFobject):
             else:
                 timezone = "Z00'00'"
 
-        def pdfstring(s):
-            r = ""
-            for c in s:
-                if 32 <= ord(c) <= 127 and c not in "()[]<>\\":
-                    r += c
-                else:
-                    r += "\\%03o" % ord(c)
-            return r
-
         file.write("<<\n")
         if writer.title:
             file.write("/Title (%s)\n" % pdfstring(writer.title))
-- 
2.43.0


From a5fe807af33c0c1529996e5a0193999927ff9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 20/51] fix: escaping of strings in PDF form fields

---
 pyx/pdfextra.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 2b27030..7d7aacb 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -264,11 +264,11 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
             file.write("/AP <</N %d 0 R >>\n" % registry.getrefno(self.defaulttext)) # appearance dictionary
         ### the dictionary entries for the form field
         file.write("/FT /Tx\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
-        file.write("/V (%s)\n" % self.defaultvalue) # starting value
-        file.write("/DV (%s)\n" % self.defaultvalue) # reset value
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
+        file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
+        file.write("/DV (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # reset value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR ")
@@ -311,12 +311,15 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
         registry.mergeregistry(self.registry)
 
+    def _pdfstring(self, text):
+        # the standard fonts are accessed by 8 bit character codes
+        return pdfwriter.pdfbytestring(text.encode("latin-1", "replace"))
 
     def write(self, file, awriter, registry):
         contentfile = writer.writer(io.BytesIO())
-        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self.texts[0]))
+        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self._pdfstring(self.texts[0])))
         for text in self.texts[1:]:
-            contentfile.write(" (%s)'" % (text))
+            contentfile.write(" (%s)'" % self._pdfstring(text))
         contentfile.write(" ET Q EMC\n")
 
         content = contentfile.file.getvalue()
@@ -479,9 +482,9 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         ### the dictionary entries for the form field
         file.write("/FT /Btn\n") # type of the form field
         file.write("/Kids [%s]\n" % " ".join(["%d 0 R" % registry.getrefno(x) for x in self.checkboxes]))
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
         file.write("/V /%s\n" % self.defaultvalue)
         file.write(">>\n")
@@ -686,11 +689,11 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         #ile.write("/AP <</N  >>\n") # appearance dictionary TODO
         ### the dictionary entries for the form field
         file.write("/FT /Ch\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         if self.defaultvalue in self.values:
-            file.write("/V (%s)\n" % self.defaultvalue) # starting value
+            file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR <</Font <</%s %d 0 R >> >>\n" % (self.font.name, registry.getrefno(self.font))) # default resources for appearance
@@ -698,7 +701,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         file.write("/Q %d\n" % self.alignflag)
         file.write("/Opt [")
         for value in self.values:
-            file.write(" (%s)" % value)
+            file.write(" (%s)" % pdfwriter.pdfstring(value))
         file.write(" ]\n")
         file.write(">>\n")
 # >>>
-- 
2.43.0


From c0c9515dca18fc656ba52bcdc8f1dfca0fd9b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 21/51] fix: value of radio buttons in PDF

---
 pyx/pdfextra.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 7d7aacb..72f71ab 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -486,7 +486,13 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
         file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
-        file.write("/V /%s\n" % self.defaultvalue)
+        # (the value is the name of the appearance state of the selected kid)
+        for checkbox in self.checkboxes:
+            if checkbox.defaultvalue != "Off":
+                file.write("/V /%s\n" % checkbox.defaultvalue)
+                break
+        else:
+            file.write("/V /Off\n")
         file.write(">>\n")
 # >>>
 class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
-- 
2.43.0


From 309ac5fea07c0d5eb9a4b5f8e1c2e38aa15c31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 22/51] fix: undefined names in options of the PostScript, PDF
 and SVG writers

---
 pyx/pdfwriter.py | 4 ++--
 pyx/pswriter.py  | 9 ++++++---
 pyx/svgwriter.py | 6 ++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 53508f2..0c3aaff 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -379,11 +379,11 @@ class PDFwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("PDFwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PDFwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 69a4701..a9666c1 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -20,7 +20,9 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, math, os
+import io, copy, logging, time, math, os
+logger = logging.getLogger("pyx")
+
 from . import bbox, config, style, version, unit, trafo, writer
 
 
@@ -110,11 +112,12 @@ class _PSwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("(E)PSwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
+        self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 19d168c..0f02ad9 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -19,7 +19,9 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, xml.sax.saxutils
+import io, copy, logging, time, xml.sax.saxutils
+logger = logging.getLogger("pyx")
+
 from . import bbox, config, style, version, unit, trafo
 
 svg_uri = "http://www.w3.org/2000/svg"
@@ -183,7 +185,7 @@ class SVGwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap_resolution is not None:
             logger.warning("SVGwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
-- 
2.43.0


From 0471926e199fcc67ccc38a0417678a70f62954d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 23/51] fix: modified copies of patterns

---
 pyx/pattern.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index d2fc0bd..f19fda6 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, logging, math
+import copy, io, logging, math
 from . import attr, canvas, path, pdfwriter, pswriter, svgwriter, style, unit, trafo
 from . import writer as writermodule
 from . import bbox as bboxmodule
@@ -54,21 +54,30 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
 
     def __call__(self, painttype=_marker, tilingtype=_marker, xstep=_marker, ystep=_marker,
                  bbox=_marker, trafo=_marker, bboxenlarge=_marker):
+        # the new pattern contains the same items
+        result = copy.copy(self)
+        result.id = "pattern%d" % id(result)
+        result.items = list(self.items)
+        result.layers = dict(self.layers)
         if painttype is not _marker:
-            painttype = self.painttype
+            if painttype not in (1, 2):
+                raise ValueError("painttype must be 1 or 2")
+            result.painttype = painttype
         if tilingtype is not _marker:
-            tilingtype = self.tilingtype
+            if tilingtype not in (1, 2, 3):
+                raise ValueError("tilingtype must be 1, 2, or 3")
+            result.tilingtype = tilingtype
         if xstep is not _marker:
-            xstep = self.xstep
+            result.xstep = xstep
         if ystep is not _marker:
-            ystep = self.ystep
+            result.ystep = ystep
         if bbox is not _marker:
-            bbox = self.bbox
+            result.patternbbox = bbox
         if trafo is not _marker:
-            trafo = self.trafo
+            result.patterntrafo = trafo
         if bboxenlarge is not _marker:
-            bboxenlarge = self.bboxenlarge
-        return pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge)
+            result.bboxenlarge = bboxenlarge
+        return result
 
     def processPS(self, file, writer, context, registry):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
-- 
2.43.0


From 160823ac07da1c3eb2b409827ad6369fbe21195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 24/51] fix: position of the pattern cells in SVG

---
 pyx/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index f19fda6..fb0bbd3 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -384,6 +384,8 @@ class SVGpattern(svgwriter.SVGresource):
         attrs = {"id": self.svgid, "patternUnits": "userSpaceOnUse"}
         llx, lly, urx, ury = patternbbox.highrestuple_pt()
         attrs["viewBox"] = "%g %g %g %g" % (llx, -ury, urx-llx, ury-lly)
+        attrs["x"] = "%g" % llx
+        attrs["y"] = "%g" % -ury
         attrs["width"] = "%g" % (urx-llx)
         attrs["height"] = "%g" % (ury-lly)
         if self.pattern.patterntrafo:
-- 
2.43.0


From d6b9b97edd6d97a8662addd06837e1135d2d653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 25/51] fix: PDF text fields with empty lines only as default
 value

---
 pyx/pdfextra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 72f71ab..3b8af3d 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -229,8 +229,9 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
         self.registry.addresource("Font", self.font.name, self.font, procset="Text")
         self.registry.add(self.font)
 
-        if self.defaultvalue:
-            text = self.defaultvalue.split("\n")
+        # empty lines are not shown
+        text = [t for t in self.defaultvalue.split("\n") if t]
+        if text:
             self.defaulttext = PDFdefaulttext(writer, registry, self.fontsize, self.font,
                 self.fontleading, text, self.bb_pt, self.borderwidth, vcenter)
             self.registry.add(self.defaulttext)
-- 
2.43.0


From 5427f0d7b17d65e70a850296ada72b34348818a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 26/51] fix: fully transparent text in SVG

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index b3a1b3e..6b6bc42 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -728,7 +728,7 @@ class T1text_pt(text_pt):
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
                      "fill": context.fillcolor}
-            if context.fillopacity:
+            if context.fillopacity != 1:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
                 trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
-- 
2.43.0


From 03a8d5c2891ff7a2edd65643d9ab6d76901c80d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 27/51] fix: slanted text as path and in SVG

---
 pyx/font/font.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 6b6bc42..19a0889 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -509,6 +509,10 @@ class T1text_pt(text_pt):
         encodings[encodingname] = dict([(glyphname, i) for i, glyphname in enumerate(glyphnames)])
         return encodingname
 
+    def slanttrafo(self):
+        """returns the transformation slanting the text while keeping its base line in place"""
+        return trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0))
+
     def textpath(self):
         if self._textpath is None:
             if self.decode:
@@ -532,6 +536,8 @@ class T1text_pt(text_pt):
                     self._textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
+            if self.slant:
+                self._textpath = self._textpath.transformed(self.slanttrafo())
         return self._textpath
 
     def processPS(self, file, writer, context, registry, bbox):
@@ -731,7 +737,7 @@ class T1text_pt(text_pt):
             if context.fillopacity != 1:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
-                trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
+                self.slanttrafo().processSVGattrs(attrs, writer, context, registry)
             xml.startSVGElement("text", attrs)
             tspan = False
             for i, value in enumerate(data):
-- 
2.43.0


From 83c86738d5af43ca4136145ce936ccf22127407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 28/51] fix: descent of fonts from the font bounding box

---
 pyx/font/afmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index c4821b3..089aac9 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1435,7 +1435,7 @@ class AFMfile(metric.metric):
         if self.descender is not None:
             descent = self.descender
         elif self.fontbbox is not None:
-            descent = self.fontbbox[3]
+            descent = self.fontbbox[1]
         else:
             descent = -200 # guessed default
         file.write("/Descent %d\n" % descent)
-- 
2.43.0


From 2300f789e75f62f4957fc26efb20ad25f8efe3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 29/51] fix: PDF text strings starting with characters looking
 like a byte order mark

---
 pyx/pdfwriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 0c3aaff..4c412f4 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -165,6 +165,9 @@ class PDFcatalog(PDFobject):
 def pdfstring(s):
     """ return the content of a PDF text string for s, which uses PDFDocEncoding as
     long as it coincides with ISO Latin-1, and UTF-16BE otherwise """
+    if s[:2] == "\xfe\xff":
+        # in PDFDocEncoding these characters would look like a byte order mark
+        return pdfbytestring(b"\xfe\xff" + s.encode("utf-16-be"))
     for c in s:
         if not (ord(c) < 24 or 32 <= ord(c) < 127 or 161 <= ord(c) <= 255 and ord(c) != 173):
             return pdfbytestring(b"\xfe\xff" + s.encode("utf-16-be"))
-- 
2.43.0


From 8e42ccf8d8d1e3a40f72a330d57a42ac72f2115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 30/51] fix: ASCIIHex encoding of bitmaps in PostScript

---
 pyx/bitmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6adba06..ececb9c 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -43,7 +43,7 @@ decodestrings = {"L": "[0 1]",
 def ascii85lines(datalen):
     if datalen < 4:
         return 1
-    return (datalen + 56)/60
+    return (datalen + 56)//60
 
 def ascii85stream(file, data):
     """Encodes the string data in ASCII85 and writes it to
@@ -84,12 +84,12 @@ def ascii85stream(file, data):
 
 _asciihexlinelength = 64
 def asciihexlines(datalen):
-    return (datalen*2 + _asciihexlinelength - 1) / _asciihexlinelength
+    return (datalen*2 + _asciihexlinelength - 1) // _asciihexlinelength
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
-    for i in range((len(hexdata)-1)/_asciihexlinelength + 1):
-        file.write(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
+    for i in range((len(hexdata)-1)//_asciihexlinelength + 1):
+        file.write_bytes(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
         file.write("\n")
 
 
@@ -234,7 +234,7 @@ class PSimagedata(pswriter.PSresource):
             datalen = len(self.data)
             tailpos = datalen - datalen % self.maxstrlen
             file.write("%%%%BeginData: %i ASCII Lines\n" %
-                       ((tailpos/self.maxstrlen) * ascii85lines(self.maxstrlen) +
+                       ((tailpos//self.maxstrlen) * ascii85lines(self.maxstrlen) +
                         ascii85lines(datalen-tailpos)))
             file.write("[ ")
             for i in range(0, tailpos, self.maxstrlen):
-- 
2.43.0


From c3ecfe50fbc51604479365d190064b155d76850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 31/51] fix: structuring comments of bitmaps in PostScript

---
 pyx/bitmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index ececb9c..683d0aa 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -223,7 +223,7 @@ class PSimagedata(pswriter.PSresource):
         self.maxstrlen = maxstrlen
 
     def output(self, file, writer, registry):
-        file.write("%%%%BeginRessource: %s\n" % self.id)
+        file.write("%%%%BeginResource: %s\n" % self.id)
         if self.singlestring:
             file.write("%%%%BeginData: %i ASCII Lines\n"
                        "<~" % ascii85lines(len(self.data)))
@@ -248,7 +248,7 @@ class PSimagedata(pswriter.PSresource):
             file.write("]\n"
                        "%%EndData\n")
         file.write("/%s exch def\n" % self.id)
-        file.write("%%EndRessource\n")
+        file.write("%%EndResource\n")
 
 
 class PDFimagepalettedata(pdfwriter.PDFobject):
@@ -524,7 +524,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             if self.PSbinexpand == 2:
                 file.write("%%%%BeginData: %i ASCII Lines\n"
-                           "image\n" % (asciihexlines(len(data)) + 1))
+                           "image\n" % (asciihexlines(len(data)) + 2))
                 asciihexstream(file, data)
                 file.write(">\n")
             else:
-- 
2.43.0


From 16c9dcd8558efea6f8a82374899e018b2cbbbb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 32/51] fix: number of colors in gray and CMYK palettes

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 683d0aa..fca564e 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -304,7 +304,7 @@ class PDFimage(pdfwriter.PDFobject):
                    "/Width %d\n" % self.width)
         file.write("/Height %d\n" % self.height)
         if self.palettedata is not None:
-            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)/3-1))
+            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)//len(self.palettemode)-1))
             file.write("%d 0 R\n" % registry.getrefno(self.PDFpalettedata))
             file.write("]\n")
         else:
@@ -463,7 +463,7 @@ class bitmap_trafo(baseclasses.canvasitem):
 
         file.write("gsave\n")
         if palettedata is not None:
-            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)/3-1))
+            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)//len(palettemode)-1))
             file.write("%%%%BeginData: %i ASCII Lines\n" % ascii85lines(len(palettedata)))
             file.write("<~")
             ascii85stream(file, palettedata)
-- 
2.43.0


From 3ca7d13d1b6c409c4ee24a32c6ca1357bccd6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 33/51] fix: vertical resolution of JPEG images given per
 centimeter

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index fca564e..4a5c392 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -200,7 +200,7 @@ class jpegimage(image):
                         if dpikind == 1:
                             self.info = {"dpi": (xdpi, ydpi)}
                         elif dpikind == 2:
-                            self.info = {"dpi": (xdpi*2.54, ydpi*2.45)}
+                            self.info = {"dpi": (xdpi*2.54, ydpi*2.54)}
                         # else do not provide dpi information
                         pos += l+1
                 pos += 1
-- 
2.43.0


From 830aa1ea7f63215a611fc08ff23ffd7bf2b79a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 34/51] fix: different bitmaps with the same data in one file

---
 pyx/bitmap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 4a5c392..ea144b9 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -430,7 +430,14 @@ class bitmap_trafo(baseclasses.canvasitem):
             else:
                 alpha = alpha.tobytes()
 
-        imagehash = hashlib.sha1(data).hexdigest()[0:15]
+        # different images can share the same data
+        imagehash = hashlib.sha1(("%i %i %s %s %i " % (self.imagewidth, self.imageheight, mode, palettemode, len(data))).encode("ascii"))
+        imagehash.update(data)
+        if palettedata is not None:
+            imagehash.update(palettedata)
+        if alpha and not interleavealpha:
+            imagehash.update(alpha)
+        imagehash = imagehash.hexdigest()[0:15]
 
         return mode, data, alpha, palettemode, palettedata, imagehash
 
-- 
2.43.0


From 451724fb06d583169d4395b6ad84a642b13e8d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 35/51] fix: modifying partitioners by keyword arguments

---
 pyx/graph/axis/parter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 08f123e..ade7144 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -22,6 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import math
+from pyx import utils
 from pyx.graph.axis import tick
 
 
@@ -66,6 +67,8 @@ class linear(_parter):
     """partitioner to create a single linear partition"""
 
     def __init__(self, tickdists=None, labeldists=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickdists = tickdists
+        self.labeldists = labeldists
         if tickdists is None and labeldists is not None:
             self.ticklist = [tick.rational(labeldists[0])]
         else:
@@ -211,6 +214,8 @@ class logarithmic(linear):
     #  ^- we always include 1 in order to get extendto(tick|label)level to work as expected
 
     def __init__(self, tickpreexps=None, labelpreexps=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickpreexps = tickpreexps
+        self.labelpreexps = labelpreexps
         if tickpreexps is None and labelpreexps is not None:
             self.ticklist = [labelpreexps[0]]
         else:
-- 
2.43.0


From b2e5d55c24c6ac4212cf1883dc2038c2b28183cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 36/51] fix: extending one end of a negative logarithmic axis

---
 pyx/graph/axis/parter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index ade7144..79187b5 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -239,6 +239,7 @@ class logarithmic(linear):
         neglog = max < 0
         if neglog:
             min, max = -max, -min
+            extendmin, extendmax = extendmax, extendmin
         minpower = None
         maxpower = None
         for i in range(len(preexp.pres)):
-- 
2.43.0


From 9bafdd84bf6b3b993093cfd9aaec19ed20fc6da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 37/51] fix: modified copies of logarithmic axes are
 logarithmic

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 496275a..366ff78 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -303,7 +303,7 @@ class logarithmic(_regularaxis):
         self.kwargs = kwargs
 
     def __call__(self, **kwargs):
-        return linear(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
+        return logarithmic(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
 
     def convert(self, data, value):
         """axis coordinates -> graph coordinates"""
-- 
2.43.0


From 8736300c9c324c19037dd1b3ba75eb47d35f4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 38/51] fix: modified copies of rational texters

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index c9ba480..7dcba41 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -345,7 +345,7 @@ class rational(_texter):
         return rational(**utils.merge_members_kwargs(self, [kwargs],
                                                     ["prefix", "infix", "suffix", "numprefix", "numinfix", "numsuffix",
                                                      "denomprefix", "denominfix", "denomsuffix", "plus", "minus", "minuspos",
-                                                     "over", "equaldenom", "skip1", "skipnum0", "skinum1", "skipdenom1", "labelattrs"]))
+                                                     "over", "equaldenom", "skip1", "skipnum0", "skipnum1", "skipdenom1", "labelattrs"]))
 
     def gcd(self, *n):
         """returns the greates common divisor of all elements in n
-- 
2.43.0


From 7ee57f0f3580a49afeb298196abfd0c8d97e1b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 39/51] fix: rational labels with equal denominators besides
 ticks without labels

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 7dcba41..bd16ef6 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -396,7 +396,7 @@ class rational(_texter):
                 gcd = self.gcd(tick.temp_rationalnum, tick.temp_rationaldenom)
                 (tick.temp_rationalnum, dummy1), (tick.temp_rationaldenom, dummy2) = divmod(tick.temp_rationalnum, gcd), divmod(tick.temp_rationaldenom, gcd)
         if self.equaldenom:
-            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in ticks if tick.label is None])
+            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in labeledticks])
             if equaldenom is not None:
                 for tick in labeledticks:
                     factor, dummy = divmod(equaldenom, tick.temp_rationaldenom)
-- 
2.43.0


From c75b004a01d1e13fd3818a2d5cdb62968d661eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 40/51] fix: keyword arguments for the exponent texter were
 ignored

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index bd16ef6..2169658 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -184,7 +184,7 @@ class default(_texter):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["mantissatexter", "basetexter", "exponenttexter"], allow_only_split=True)
         if "mantissatexter" in split_kwargs: mantissatexter = decimal(**split_kwargs["mantissatexter"])
         if "basetexter" in split_kwargs: basetexter = decimal(**split_kwargs["basetexter"])
-        if "exponenttexter" in split_kwargs: texter = decimal(**split_kwargs["exponenttexter"])
+        if "exponenttexter" in split_kwargs: exponenttexter = decimal(**split_kwargs["exponenttexter"])
 
         self.multiplicationtex = multiplicationtex
         self.multiplicationunicode = multiplicationunicode
-- 
2.43.0


From 6ec0bb4edfb019214beee6caac0728e2a731a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 41/51] fix: separators of thousandth parts in periodic and
 equal precision labels

---
 pyx/graph/axis/texter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 2169658..1f9b999 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -103,12 +103,13 @@ class decimal(_texter):
                 if remainder:
                     tick.label += self.decimalsep
                 oldremainders = []
+                digitstarts = []
                 tick.temp_decprecision = 0
                 while (remainder):
                     tick.temp_decprecision += 1
                     if remainder in oldremainders:
                         tick.temp_decprecision = None
-                        periodstart = len(tick.label) - (len(oldremainders) - oldremainders.index(remainder))
+                        periodstart = digitstarts[oldremainders.index(remainder)]
                         tick.label = tick.label[:periodstart] + self.period % tick.label[periodstart:]
                         break
                     oldremainders += [remainder]
@@ -116,6 +117,7 @@ class decimal(_texter):
                     quotient, remainder = divmod(remainder, n)
                     if not ((tick.temp_decprecision - 1) % 3) and tick.temp_decprecision > 1:
                         tick.label += self.thousandthpartsep
+                    digitstarts.append(len(tick.label))
                     tick.label += str(quotient)
                 else:
                     if maxdecprecision < tick.temp_decprecision:
@@ -126,7 +128,7 @@ class decimal(_texter):
                     if tick.temp_decprecision == 0 and maxdecprecision > 0:
                         tick.label += self.decimalsep
                     for i in range(tick.temp_decprecision, maxdecprecision):
-                        if not ((i - 1) % 3) and i > 1:
+                        if not (i % 3) and i > 0:
                             tick.label += self.thousandthpartsep
                         tick.label += "0"
         for tick in labeledticks:
-- 
2.43.0


From bfa4d616cbe03a81c2ee34e3f831bf164f695e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 42/51] fix: comparison of rationals with negative denominators

---
 pyx/graph/axis/tick.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 29000a6..db03875 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -159,6 +159,8 @@ class rational:
 
     def __lt__(self, other):
         try:
+            if self.denom * other.denom < 0:
+                return self.num * other.denom > other.num * self.denom
             return self.num * other.denom < other.num * self.denom
         except Exception:
             return float(self) < other
-- 
2.43.0


From 5d6b5c4696dd02aae0747a50a581de669c243bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 43/51] fix: integers, fractions and rationals are converted
 exactly into rationals

---
 pyx/graph/axis/tick.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index db03875..32aef8a 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -140,7 +140,14 @@ class rational:
                     self /= rational(fraction[1])
         else:
             # x is a number
-            self.initfromfloat(x, floatprecision)
+            if isinstance(x, rational):
+                self.num, self.denom = x.num, x.denom
+            else:
+                try:
+                    # integers and fractions are kept exactly
+                    self.num, self.denom = x.numerator, x.denominator
+                except AttributeError:
+                    self.initfromfloat(x, floatprecision)
         if not self.denom: raise ZeroDivisionError("zero denominator")
         if power == -1:
             self.num, self.denom = self.denom, self.num
-- 
2.43.0


From 89ce7fef26d66343793aa1e89d45eae8a6af1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 44/51] fix: manual ticks of axes with divisor

---
 pyx/graph/axis/axis.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 366ff78..729caa4 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import functools, logging, math
+import copy, functools, logging, math
 from pyx import attr, unit, text, utils
 from pyx.graph.axis import painter, parter, positioner, rater, texter, tick
 
@@ -137,6 +137,15 @@ class _regularaxis(_axis):
         else:
             convert_tick = lambda x: x
 
+        def manualticks():
+            # labels are set and the divisor is applied in place
+            ticks = []
+            for t in self.manualticks:
+                t = copy.copy(t)
+                t.labelattrs = list(t.labelattrs)
+                ticks.append(t)
+            return ticks
+
         def layout(data):
             if data.ticks:
                 self.adjustaxis(data, [convert_tick(data.ticks[0]), convert_tick(data.ticks[-1])], graphtextengine, errorname)
@@ -150,7 +159,7 @@ class _regularaxis(_axis):
             return canvas
 
         if parter is None:
-            data.ticks = self.manualticks
+            data.ticks = manualticks()
             return layout(data)
 
         # a variant is a data copy with local modifications to test several partitions
@@ -196,7 +205,7 @@ class _regularaxis(_axis):
                 ticks = partfunction()
                 if ticks is None:
                     break
-                ticks = tick.mergeticklists(self.manualticks, ticks, mergeequal=0)
+                ticks = tick.mergeticklists(manualticks(), ticks, mergeequal=0)
                 if ticks:
                     rate = rater.rateticks(self, ticks)
                     if rate is not None:
-- 
2.43.0


From ef59670570f79aad4b93d71c881b48d5bf37c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 45/51] fix: modifying bar, nested bar and split axes by
 keyword arguments

---
 pyx/graph/axis/axis.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 729caa4..ed6ad49 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -378,9 +378,9 @@ class bar(_axis):
                        painter=painter.bar(), linkpainter=painter.linkedbar(), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["defaultsubaxis", "painter", "linkpainter"], allow_only_split=True)
 
-        if "defaultsubaxis" in split_kwargs: defaultsubaxis = linear(**split_kwargs["defaultsubaxis"])
-        if "painter" in split_kwargs: painter = painter.bar(**split_kwargs["painter"])
-        if "linkpainter" in split_kwargs: linkpainter = painter.linkedbar(**split_kwargs["linkpainter"])
+        if "defaultsubaxis" in split_kwargs: defaultsubaxis = defaultsubaxis(**split_kwargs["defaultsubaxis"])
+        if "painter" in split_kwargs: painter = painter(**split_kwargs["painter"])
+        if "linkpainter" in split_kwargs: linkpainter = linkpainter(**split_kwargs["linkpainter"])
 
         self.subaxes = subaxes
         self.defaultsubaxis = defaultsubaxis
@@ -398,10 +398,12 @@ class bar(_axis):
         self.painter = painter
         self.linkpainter = linkpainter
         self.epsilon = epsilon
-        self.kwargs = kwargs
+        # the keyword arguments in kwargs are applied already; firstdist and lastdist might depend on dist
+        self.kwargs = dict(firstdist=firstdist, lastdist=lastdist)
 
     def __call__(self, **kwargs):
-        return bar(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["defaultsubaxis", "painter", "linkpainter"]))
+        return self.__class__(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["subaxes", "defaultsubaxis", "dist", "title", "reverse",
+                                                                                       "epsilon", "painter", "linkpainter"]))
 
     def createdata(self, errorname):
         data = axisdata(size=self.firstdist+self.lastdist-self.dist, subaxes={}, names=[])
-- 
2.43.0


From 1bca0c93cb44b26784eb3402f32bbf4c410f41f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 46/51] fix: keyword arguments for the partitioner of autosized
 axes

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index ed6ad49..71adf46 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -553,7 +553,7 @@ class autosizedlinear(linear):
 
     def __init__(self, parter=parter.autolinear(extendtick=None), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["parter"])
-        if "parter" in split_kwargs: parter = parter.autolinear(**split_kwargs["parter"])
+        if "parter" in split_kwargs: parter = parter(**split_kwargs["parter"])
 
         linear.__init__(self, parter=parter, **rest_kwargs)
 
-- 
2.43.0


From de550a46cd0b4a5942a4d807ce1c4762fc11338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 47/51] fix: vtickpoint of anchored axes raised an exception

---
 pyx/graph/axis/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 71adf46..261364a 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -651,7 +651,8 @@ class anchoredaxis:
         return self.positioner.vtickpoint_pt(v)
 
     def vtickpoint(self, v):
-        return self.positioner.vtickpoint_pt(v) * unit.t_pt
+        x_pt, y_pt = self.positioner.vtickpoint_pt(v)
+        return  x_pt * unit.t_pt, y_pt * unit.t_pt
 
     def tickpoint_pt(self, x):
         self.docreate()
-- 
2.43.0


From 2ec325c1733368e0219debbe80e9edb5d0548cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 48/51] fix: default subaxes for values not found in the
 subaxes of a bar axis

---
 pyx/graph/axis/axis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 261364a..d175c3f 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -442,11 +442,14 @@ class bar(_axis):
 
             name = value[0]
             if name is not None and name not in data.names:
+                subaxis = self.defaultsubaxis
                 if self.subaxes:
-                    if self.subaxes[name] is not None:
-                        self.addsubaxis(data, name, self.subaxes[name], graphtextengine, errorname)
-                else:
-                    self.addsubaxis(data, name, self.defaultsubaxis, graphtextengine, errorname)
+                    try:
+                        subaxis = self.subaxes[name]
+                    except LookupError:
+                        pass
+                if subaxis is not None:
+                    self.addsubaxis(data, name, subaxis, graphtextengine, errorname)
         for name in data.names:
             subaxis = data.subaxes[name]
             if subaxis.sized:
-- 
2.43.0


From 450cca96a51f2b3fd62bb26bbe0b08f7e94e2533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 49/51] fix: changeable grid attributes and ticks without tick
 level

---
 pyx/graph/axis/painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/painter.py b/pyx/graph/axis/painter.py
index 8f55b0d..909ad90 100644
--- a/pyx/graph/axis/painter.py
+++ b/pyx/graph/axis/painter.py
@@ -236,7 +236,7 @@ class regular(_title):
                             canvas.extent_pt = outerticklength_pt
                         if -innerticklength_pt > canvas.extent_pt:
                             canvas.extent_pt = -innerticklength_pt
-            if self.gridattrs is not None:
+            if t.ticklevel is not None and self.gridattrs is not None:
                 gridattrs = attr.selectattrs(self.defaultgridattrs + self.gridattrs, t.ticklevel, maxticklevel)
                 if gridattrs is not None:
                     canvas.layer("grid").stroke(axispos.vgridpath(t.temp_v), gridattrs)
-- 
2.43.0


From 9a774bcd52d8a1bcd2b278f21fc52c3c70501234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 50/51] fix: axes with an empty canvas were taken as not yet
 created

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index d175c3f..6eae1d9 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -608,7 +608,7 @@ class anchoredaxis:
         self._createkwargs = kwargs
 
     def docreate(self):
-        if not self.canvas:
+        if self.canvas is None:
             self._createfunction(*self._createargs, **self._createkwargs)
 
     def setpositioner(self, positioner):
-- 
2.43.0


From 779ea4536eb448831ee6080f51dca93975cfeb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:55 +0000
Subject: [PATCH 51/51] fix: manual time ticks are copied

---
 pyx/graph/axis/timeaxis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index eb27716..4af7658 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -66,6 +66,10 @@ class timetick(datetime.datetime):
         self.label = label
         self.labelattrs = labelattrs[:]
 
+    def __copy__(self):
+        return timetick(self.year, self.month, self.day, self.ticklevel, self.labellevel, self.label, self.labelattrs,
+                        hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
+
     def merge(self, other):
         if self.ticklevel is None or (other.ticklevel is not None and other.ticklevel < self.ticklevel):
             self.ticklevel = other.ticklevel
-- 
2.43.0

