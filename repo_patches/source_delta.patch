From 5f8ebef441fc237a28243ab72425126f26e2ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 01/40] fix: Elem.smallest_edge measured diagonals instead of
 two of the edges

Points 3/4 and 7/8 were swapped, so the diagonals were taken for the left and
right edges and the true edges were never measured; for more than two points
per direction the corners were not used at all.
---
 src/pymech/core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 9b6150e..562886b 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -149,9 +149,9 @@ class Elem:
 
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
-        x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 0]
-        x4, y4, z4 = self.pos[:, 0, 1, 1]
+        x2, y2, z2 = self.pos[:, 0, 0, -1]
+        x3, y3, z3 = self.pos[:, 0, -1, -1]
+        x4, y4, z4 = self.pos[:, 0, -1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -165,10 +165,10 @@ class Elem:
             ndim = 2
         if ndim > 2:
             # in 3D, do the same for the upper face, and also the side edges
-            x5, y5, z5 = self.pos[:, 1, 0, 0]
-            x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 0]
-            x8, y8, z8 = self.pos[:, 1, 1, 1]
+            x5, y5, z5 = self.pos[:, -1, 0, 0]
+            x6, y6, z6 = self.pos[:, -1, 0, -1]
+            x7, y7, z7 = self.pos[:, -1, -1, -1]
+            x8, y8, z8 = self.pos[:, -1, -1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From b5685c0251c443b92f048a0f57f396e052cf7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 02/40] fix: limits of a mesh made of a single element

reduce() returns a lone element as it is, so DataLims (and repr) failed with a
TypeError for any mesh with one element, e.g. everything readdns returns.
---
 src/pymech/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 562886b..958dffd 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -44,7 +44,9 @@ class DataLims:
     def __init__(self, elements):
         self._variables = ("pos", "vel", "pres", "temp", "scal")
 
-        aggregated_lims = reduce(self._lims_aggregator, elements)
+        aggregated_lims = reduce(
+            self._lims_aggregator, map(self._lims_per_element, elements)
+        )
         for var in self._variables:
             agg_lims_var = aggregated_lims[var]
             # set minimum, maximum of variables as a nested tuple
-- 
2.43.0


From 3301420199fdbd5137b85deaa01b78b00c800711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 03/40] fix: edge_mid and edge_circle overwrote the curvature
 of the element

Both returned (and filled in) a view of el.curv, so merely computing the
midpoint of a 'C' edge replaced its radius, e.g. in the mesh given to map2D.
---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93ec911..5e34126 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -895,7 +895,7 @@ def edge_mid(el, iedge):
     """
 
     # correct if ccurv=='m', otherwise, works as allocation
-    midpoint = el.curv[iedge][:3]
+    midpoint = el.curv[iedge][:3].copy()
 
     if el.ccurv[iedge] != "m":
         if iedge == 0:
@@ -1054,7 +1054,7 @@ def edge_circle(el, iedge, midpoint):
         radius = 0.0
         center = [0.0, 0.0, 0.0]
 
-    curv = el.curv[iedge][:4]
+    curv = el.curv[iedge][:4].copy()
     curv[0] = radius
     curv[1:4] = center
 
-- 
2.43.0


From 77f1214a6f26a3df6fa0fa7ba0f12f4e1bcfc4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 04/40] fix: rotate_2d ignored the centre of rotation

---
 src/pymech/meshtools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 5e34126..2cd3519 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1339,15 +1339,15 @@ def rotate_2d(mesh, x0, y0, theta):
     for el in mesh.elem:
         x = el.pos[0, ...].copy()
         y = el.pos[1, ...].copy()
-        el.pos[0, ...] = cost * x - sint * y
-        el.pos[1, ...] = sint * x + cost * y
+        el.pos[0, ...] = x0 + cost * (x - x0) - sint * (y - y0)
+        el.pos[1, ...] = y0 + sint * (x - x0) + cost * (y - y0)
         # rotate 'm' curvature
         for edge in range(12):
             if el.ccurv[edge] == "m":
                 x = el.curv[edge, 0]
                 y = el.curv[edge, 1]
-                el.curv[edge, 0] = cost * x - sint * y
-                el.curv[edge, 1] = sint * x + cost * y
+                el.curv[edge, 0] = x0 + cost * (x - x0) - sint * (y - y0)
+                el.curv[edge, 1] = y0 + sint * (x - x0) + cost * (y - y0)
 
 
 # =================================================================================
-- 
2.43.0


From 8fb1d737828cceba5d23ff4ef700e6d9c20b411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 05/40] fix: readre2 misread the curvature and boundary
 conditions of big-endian files

The record counts were decoded in native byte order, and the type strings were
taken from the (native) value of a double, i.e. reversed for foreign files.
---
 src/pymech/neksuite/mesh.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 03be657..40a5eda 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -681,7 +681,7 @@ def readre2(fname):
     # where p1-5 are f64 parameters and ctype is the type of curvature in ASCII
     ncparam = 8
     buf = infile.read(wdsz)
-    ncurv = int(np.frombuffer(buf)[0])
+    ncurv = int(np.frombuffer(buf, dtype=emode + realtype)[0])
     logger.debug(f"Found {ncurv} curved sides")
     data.ncurv = ncurv
     buf = infile.read(wdsz * (ncparam * ncurv))
@@ -699,7 +699,9 @@ def readre2(fname):
         # select only the first byte, because it turns out the later bytes may contain garbage.
         # typically, it's b'C\x00\x00\x00\x00\x00\x00\x00' or b'C\x00\x00\x00\x00\x00\xe0?'.
         # AFAIK the curvature types are always one character long anyway.
-        ctype = curv[7].tobytes()[:1].decode("utf-8")
+        # This is text, so it does not depend on the endianness of the file.
+        ictype = (icurv * ncparam + 7) * wdsz
+        ctype = buf[ictype : ictype + 1].decode("utf-8")
         # fill in the data structure
         data.elem[iel].curv[iedge, :] = cparams
         data.elem[iel].ccurv[iedge] = ctype
@@ -716,7 +718,7 @@ def readre2(fname):
             for el in data.elem:
                 empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)
                 el.bcs = np.concatenate((el.bcs, empty_bcs))
-        nbclines = int(np.frombuffer(buf)[0])
+        nbclines = int(np.frombuffer(buf, dtype=emode + realtype)[0])
         logger.debug(
             f"Found {nbclines} external boundary conditions for field {ifield}"
         )
@@ -732,7 +734,9 @@ def readre2(fname):
             iel = int(bc[0]) - 1
             iface = int(bc[1]) - 1
             bcparams = bc[2:7]
-            bctype = bc[7].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
+            # this is text too; remove trailing spaces
+            ibctype = (ibc * nbcparam + 7) * wdsz
+            bctype = buf[ibctype : ibctype + wdsz].decode("utf-8").rstrip()
             # fill in the data structure
             data.elem[iel].bcs[ifield, iface][0] = bctype
             data.elem[iel].bcs[ifield, iface][1] = iel + 1
-- 
2.43.0


From dc5c66297c6179fafb949de9911e6712b2d6a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 06/40] fix: writenek wrote arrays in their in-memory type
 whatever the header says

Single precision data written with wdsz = 8, or an element map that is not
int32, gave a file that does not match its own header and cannot be read back.
---
 src/pymech/neksuite/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index d61a11d..a741aba 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -440,7 +440,7 @@ def writenek(fname, data):
     correct_endianness(endianbytes).tofile(outfile)
     #
     # write element map for the file
-    correct_endianness(data.elmap).tofile(outfile)
+    correct_endianness(np.asarray(data.elmap, dtype=np.int32)).tofile(outfile)
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -454,7 +454,7 @@ def writenek(fname, data):
         if data.wdsz == 4:
             correct_endianness(a.astype(np.float32)).tofile(outfile)
         else:
-            correct_endianness(a).tofile(outfile)
+            correct_endianness(a.astype(np.float64)).tofile(outfile)
 
     #
     # write geometry
-- 
2.43.0


From ce3a9a185cdf93fa3e6b8ffc4d8c2cd44e30be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 07/40] fix: writerea modified the mesh it writes

The faces without boundary condition were set to 'E' in the data structure of
the caller, instead of only in the file.
---
 src/pymech/neksuite/mesh.py | 56 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 40a5eda..8a5e1ae 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -512,46 +512,48 @@ def writerea(fname, data):
             for iface in range(2 * data.ndim):
                 # if no boundary condition is specified, write 'E' iel iface [...]
                 # this is the behaviour of re2torea.
-                if data.elem[iel].bcs[ibc, iface][0] == "":
-                    data.elem[iel].bcs[ibc, iface][0] = "E"
-                    data.elem[iel].bcs[ibc, iface][1] = iel + 1
-                    data.elem[iel].bcs[ibc, iface][2] = iface + 1
+                # This is done on a copy: writing a mesh must not change it.
+                bc = data.elem[iel].bcs[ibc, iface].copy()
+                if bc[0] == "":
+                    bc[0] = "E"
+                    bc[1] = iel + 1
+                    bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
                         " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 elif data.nel < 1e6:
                     outfile.write(
                         " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 else:
                     outfile.write(
                         " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
 
-- 
2.43.0


From e761e75308b37047c55ccc982966c54184ea3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 08/40] fix: three-character boundary conditions in .rea files

Conditions such as 'SYM' or 'int' take three columns (a3): the reader dropped
the last character, and the writer shifted all columns that follow.
---
 src/pymech/neksuite/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 8a5e1ae..aeceada 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -147,7 +147,7 @@ def readrea(fname):
             for iface in range(nface):
                 line = infile.readline()
                 if nel < 1e3:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[7:10])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -156,7 +156,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 elif nel < 1e6:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = iel + 1
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -165,7 +165,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 else:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:15])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[15:16])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[16:34])
@@ -520,7 +520,7 @@ def writerea(fname, data):
                     bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
-                        " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
@@ -533,7 +533,7 @@ def writerea(fname, data):
                     )
                 elif data.nel < 1e6:
                     outfile.write(
-                        " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[3],
@@ -545,7 +545,7 @@ def writerea(fname, data):
                     )
                 else:
                     outfile.write(
-                        " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
+                        " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
-- 
2.43.0


From 88154b100bec2967d2a00551800795da1220365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 09/40] fix: writerea announced fluid boundary conditions for
 meshes without any

The file could not be read back.
---
 src/pymech/neksuite/mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index aeceada..9194010 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -498,7 +498,10 @@ def writerea(fname, data):
     #
     # boundary conditions data
     outfile.write("  ***** BOUNDARY CONDITIONS *****\n")
-    outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    if data.nbc > 0:
+        outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    else:
+        outfile.write("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
     for ibc in range(data.nbc):
         if ibc == 1:
             outfile.write("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
-- 
2.43.0


From 98a86ed47d1621bd01dddc6567dbb511bf666d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 10/40] fix: writerea trusted ncurv instead of counting the
 curved edges

With a stale ncurv the number announced in the file did not match the lines
that follow. writere2 already counts them.
---
 src/pymech/neksuite/mesh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 9194010..386ecd0 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -443,8 +443,14 @@ def writerea(fname, data):
     #
     # curved side data
     outfile.write("  ***** CURVED SIDE DATA *****\n")
+    # count the curved edges that will actually be written
+    ncurv = sum(ctype != "" for el in data.elem for ctype in el.ccurv)
+    if ncurv != data.ncurv:
+        logger.warning(
+            f"wrong number of curved edges: expected {data.ncurv}, found {ncurv}"
+        )
     outfile.write(
-        f"  {data.ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
+        f"  {ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
     )
     for iel in range(data.nel):
         if data.nel < 1e3:
-- 
2.43.0


From b4359513b3bfe7ba79f80bd64c90a6962d754345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 11/40] fix: gen_circle and map2D left a stale ncurv

---
 src/pymech/meshtools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 2cd3519..dc5f495 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1792,6 +1792,9 @@ def gen_circle(
     rotate_2d(box_o, 0, 0, 0.5 * pi)
     box_square.merge(box_o, ignore_all_bcs=not internal_bcs)
 
+    # update curve metadata
+    box_square.update_ncurv()
+
     return box_square
 
 
@@ -1853,4 +1856,6 @@ def map2D(
                 xm, ym, _ = edge_mid(el, iedge)
                 mapped_xm, mapped_ym = transformation(xm, ym)
                 mapped_el.curv[iedge, 0:2] = mapped_xm, mapped_ym
+    # update curve metadata
+    mapped_mesh.update_ncurv()
     return mapped_mesh
-- 
2.43.0


From 8f0985b9cf6212a81614c0a9c20dfdc5a6e17445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 12/40] fix: element map of extruded and reduced meshes

extrude, extrude_mid and keep_elements change the number of elements but left
the old element map, so that writenek silently dropped elements or failed.
---
 src/pymech/meshtools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index dc5f495..b52d0be 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -61,6 +61,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     nel3d = mesh.nel * nz
     nbc = mesh.nbc
     mesh3d.nel = nel3d
+    mesh3d.elmap = np.linspace(1, nel3d, nel3d, dtype=np.int32)
     mesh3d.ndim = 3
     # The curved sides will also be extruded, one on each side of each element along nz
     mesh3d.ncurv = 2 * nz * mesh.ncurv
@@ -451,6 +452,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     )  # every mid-extrusion of a 2d-element creates 6 3d-elements, while the usual extrusion creates 4 in the high discretized grid and 2 in the low discretized grid
     nbc = mesh.nbc
     mesh3d.nel = nel3d
+    mesh3d.elmap = np.linspace(1, nel3d, nel3d, dtype=np.int32)
     mesh3d.ndim = 3
     # The curved sides will also be extruded, one on each side of each element along nz
     mesh3d.ncurv = 2 * nz * mesh.ncurv
@@ -1231,6 +1233,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
         new_elems.append(mesh.elem[iel])
     mesh.elem = new_elems
     mesh.nel = len(mesh.elem)
+    mesh.elmap = np.linspace(1, mesh.nel, mesh.nel, dtype=np.int32)
     mesh.update_ncurv()
 
 
-- 
2.43.0


From fe3c2207b12fa7d1791932b7e10b467b2a8e1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 13/40] fix: extrude(internal_bcs=False) kept internal
 conditions past the first layer

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b52d0be..b7cd920 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -69,6 +69,8 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     # add extra copies of all elements
     for k in range(nz - 1):
         mesh_add = copy.deepcopy(mesh)
+        if not internal_bcs:
+            delete_internal_bcs(mesh_add)
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
-- 
2.43.0


From 699d82e1d1eacc5f442d5bba97ecb677c0e88fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 14/40] fix: extrude_refine failed with its documented defaults

fun=None is documented to fall back to extrude, and funpar=None to mean zeroes;
both raised a TypeError.
---
 src/pymech/meshtools.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b7cd920..c0c6526 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -229,9 +229,17 @@ def extrude_refine(
                 "Inconsistent boundary conditions: one end is 'P' but the other isn't"
             )
 
+    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
+    if fun is None:
+        logger.info("Splitting function not defined. Calling simple extrusion routine.")
+        mesh3D = extrude(mesh2D, z, bc1, bc2, internal_bcs=internal_bcs)
+        return mesh3D
+
     # Consistency checks: Functions that define the splitting lines
     nsplit = len(fun)
-    if funpar is not None and len(funpar) != nsplit:
+    if funpar is None:
+        funpar = [0.0] * nsplit
+    if len(funpar) != nsplit:
         raise ValueError(
             f"The length of funpar ({len(funpar)}) must match the length of par ({nsplit})!"
         )
@@ -247,12 +255,6 @@ def extrude_refine(
             f"Inconsistent elements to extrude: the number of elements ({nz}) must be a multiple of {max([2**abs(imesh_high + 1), 2**abs(nsplit - imesh_high + 1)])}"
         )
 
-    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
-    if fun is None:
-        logger.info("Splitting function not defined. Calling simple extrusion routine.")
-        mesh3D = extrude(mesh2D, z, bc1, bc2)
-        return mesh3D
-
     mesh2D_ext = copy.deepcopy(mesh2D)
     # get rid of internal boundary conditions if they are not requested
     if not internal_bcs:
-- 
2.43.0


From 7cf59d27c854b235dac8b564744cd79f80bf7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 15/40] fix: readnek(skip_vars=...) for files that hold part of
 the elements

The size of a skipped variable was taken from the number of elements of the
whole field instead of those in the file, so what follows was misread.
---
 src/pymech/neksuite/field.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index a741aba..2f31146 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -253,7 +253,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(geometry_vars[idim] in skip_vars for idim in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 logger.warning(
@@ -286,7 +286,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
 
     if nb_vars:
         if all(skip_condition1) or all(skip_condition2):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -307,7 +307,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"p", "pressure"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -325,7 +325,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"t", "temperature"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -345,14 +345,14 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             # NOTE: This is not a bug!
             # Unlike other variables, scalars are in the outer loop and elements
             # are in the inner loop
             for ivar in range(nb_vars):
                 if skip_condition[ivar]:
-                    skip_elements(h.nb_elems)
+                    skip_elements(h.nb_elems_file)
                 else:
                     if 0 in elmap:
                         element_idxs = range(h.nb_elems_file)
-- 
2.43.0


From dafad0a4365cd3724c31004908ab2d7943b86d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 16/40] fix: readdns failed on any file with passive scalars

---
 src/pymech/simsonsuite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ccf18d3..c2a108b 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -74,10 +74,8 @@ def readdns(fname):
     pr = np.zeros(nscal)
     m = np.zeros(nscal)
     for i in range(nscal):
-        pr[i] = infile.read(wdsz)
-        pr[i] = struct.unpack(emode + realtype, pr[i])[0]
-        m[i] = infile.read(wdsz)
-        m[i] = struct.unpack(emode + realtype, m[i])[0]
+        pr[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
+        m[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
     #
     # end-of-line
     eol = infile.read(8)
-- 
2.43.0


From 0ccddb5e2df0dabe2d6d972981e9d07851c26acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 17/40] fix: readplane failed on 1D and 3D planes

The number of values was a float, which read() rejects.
---
 src/pymech/simsonsuite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index c2a108b..99af537 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -313,9 +313,9 @@ def readplane(fname):
         # TODO untested
         print("WARNING: reading 1D files was not tested")
         eol = infile.read(4)
-        nt1 = struct.unpack(emode + "i", eol)[0] / 8
+        nt1 = struct.unpack(emode + "i", eol)[0] // 8
         dum = infile.read(nt1 * wdsz)
-        x = struct.unpack(emode + nt1 * realtype, dum)
+        x = np.array(struct.unpack(emode + nt1 * realtype, dum))
         #
         # end-of-line
         eol = infile.read(4)
@@ -333,7 +333,7 @@ def readplane(fname):
         print("WARNING: reading 3D files was not tested")
         for i in range(ndim):
             eol = infile.read(4)
-            nt3 = struct.unpack(emode + "i", eol)[0] / 8
+            nt3 = struct.unpack(emode + "i", eol)[0] // 8
             dum = infile.read(nt3 * wdsz)
             xx = struct.unpack(emode + nt3 * realtype, dum)
             x[i, :, :, :] = np.reshape(xx, (nn[0], nn[1], nn[2]), "F")
-- 
2.43.0


From 1199f8c20ba6e027e8df83ebbf5e65710c1b7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 18/40] fix: readma2 returned floating point indices

The vertices and the processor map are documented as integer arrays, and cannot
be used as indices otherwise.
---
 src/pymech/neksuite/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/map.py b/src/pymech/neksuite/map.py
index 4138575..5457009 100644
--- a/src/pymech/neksuite/map.py
+++ b/src/pymech/neksuite/map.py
@@ -81,9 +81,9 @@ def readma2(fname):
     buf = infile.read((nvert + 1) * wdsz * nel)
 
     # processor map (0-based)
-    procmap = np.empty((nel,))
+    procmap = np.empty((nel,), dtype=np.int32)
     # list of vertices for each element (in global address space)
-    cell = np.empty((nel, nvert))
+    cell = np.empty((nel, nvert), dtype=np.int32)
     for iel in range(nel):
         fi = np.frombuffer(
             buf,
-- 
2.43.0


From dc9f621be02081bf3b9b4aa4e24db9d94418d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 19/40] fix: file names that only contain a Nek extension are
 not Nek files

Names such as a.f00001.nc or a.fld.bak were claimed by the pymech backend.
---
 src/pymech/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 70cc958..2ccc7f7 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -20,6 +20,7 @@ nek_ext_pattern = re.compile(
    \.          # character "."
    f           # character "f"
    (\d{5}|ld)  # 5 digits or the characters "ld"
+   $           # end of the name
 """,
     re.VERBOSE,
 )
-- 
2.43.0


From d139f44f209cb1ecc59c197a0d4178ea1f5635ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 20/40] fix: gen_circle with a single layer in the O mesh

exponential_refinement_parameter divided by zero for n = 1.
---
 src/pymech/meshtools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c0c6526..f7c9c78 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1266,6 +1266,10 @@ def exponential_refinement_parameter(l0, ltot, n, tol=1e-14):
         the mesh refinement parameter
     """
 
+    # A single element has to span the whole length, there is no progression to speak of
+    if n == 1:
+        return 1.0
+
     # interval around 1 where to approximate the functions (see below)
     eps_approx_f = 2.0e-6
     eps_approx_fp = 2.0e-6
-- 
2.43.0


From 473362045962f747ac98e49fe8be5ade3714cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 21/40] fix: check_connectivity crashed on connections to a
 nonexistent face

It failed with an UnboundLocalError or an IndexError (or, in 2D, compared with
an unused face) instead of reporting the invalid connection.
---
 src/pymech/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 958dffd..408f208 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -303,6 +303,13 @@ class HexaData:
                         f"{connected_face} of the nonexistent element {connected_iel}"
                     )
                     logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
+                elif connected_face < 0 or connected_face >= 2 * dim:
+                    err = True
+                    logger.error(
+                        f"face {iface} of element {iel} is connected ('{cbc}') to the "
+                        f"nonexistent face {connected_face} of element {connected_iel}"
+                    )
+                    logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
                 else:
                     cbc1 = self.elem[connected_iel].bcs[ibc, connected_face][0]
                     iel1 = int(self.elem[connected_iel].bcs[ibc, connected_face][3]) - 1
-- 
2.43.0


From 53009e3b2165b3e4b88281a9250dc3ff3f0ad5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 22/40] fix: meshes with the right element dimensions were
 rejected as tuples

readnek gives lr1 as a tuple, which is never equal to a list: writere2 and the
extrusions refused such meshes with "(2, 2, 2) != [2, 2, 2]".
---
 src/pymech/meshtools.py     | 6 +++---
 src/pymech/neksuite/mesh.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f7c9c78..f61d0d4 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -35,7 +35,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
 
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -216,7 +216,7 @@ def extrude_refine(
     # Consistency checks: Initial grid
     if mesh2D.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh2D.lr1 != [2, 2, 1]:
+    if list(mesh2D.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh2D.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -418,7 +418,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     # Consistency checks: Initial grid
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 386ecd0..09b25c2 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -777,7 +777,7 @@ def writere2(fname, data):
     # ---------------------------------------------------------------------------
     #
     # We could extract the corners, but for now just return an error if lr1 is too large
-    if data.lr1 != [2, 2, data.ndim - 1]:
+    if list(data.lr1) != [2, 2, data.ndim - 1]:
         raise ValueError(
             "wrong element dimensions for re2 file! {} != {}".format(
                 data.lr1, [2, 2, data.ndim - 1]
-- 
2.43.0


From dbe5c17f1dd480286fe5a45b06ca9d07e1e8cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 23/40] fix: writers reported success for files cut short by a
 full disk

ndarray.tofile() loses the errors of the buffered writes of small arrays, so
writenek and writere2 returned 0 having written only part of the file. Writing
the same bytes through the file object reports them.
---
 src/pymech/neksuite/field.py | 100 +++++++++++++++++++++++------------
 src/pymech/neksuite/mesh.py  |   4 +-
 2 files changed, 68 insertions(+), 36 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 2f31146..3b210de 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -437,10 +437,10 @@ def writenek(fname, data):
     #
     # write tag (to specify endianness)
     endianbytes = np.array([6.54321], dtype=np.float32)
-    correct_endianness(endianbytes).tofile(outfile)
+    outfile.write(correct_endianness(endianbytes).tobytes())
     #
     # write element map for the file
-    correct_endianness(np.asarray(data.elmap, dtype=np.int32)).tofile(outfile)
+    outfile.write(correct_endianness(np.asarray(data.elmap, dtype=np.int32)).tobytes())
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -452,9 +452,9 @@ def writenek(fname, data):
     def write_ndarray_to_file(a):
         """Write a data array to the output file in the requested precision and endianness"""
         if data.wdsz == 4:
-            correct_endianness(a.astype(np.float32)).tofile(outfile)
+            outfile.write(correct_endianness(a.astype(np.float32)).tobytes())
         else:
-            correct_endianness(a.astype(np.float64)).tofile(outfile)
+            outfile.write(correct_endianness(a.astype(np.float64)).tobytes())
 
     #
     # write geometry
@@ -492,44 +492,76 @@ def writenek(fname, data):
         #
         for iel in data.elmap:
             for idim in range(data.var[0]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for idim in range(data.var[1]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for ivar in range(data.var[2]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].pres[ivar, :, :, :]).astype(
+                            np.float32
+                        )
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].pres[ivar, :, :, :]).astype(
+                            np.float32
+                        )
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for ivar in range(data.var[3]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].temp[ivar, :, :, :]).astype(
+                            np.float32
+                        )
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].temp[ivar, :, :, :]).astype(
+                            np.float32
+                        )
+                    ).tobytes()
+                )
         for iel in data.elmap:
             for ivar in range(data.var[4]):
-                correct_endianness(
-                    np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
-                    np.max(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                outfile.write(
+                    correct_endianness(
+                        np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(
+                            np.float32
+                        )
+                    ).tobytes()
+                )
+                outfile.write(
+                    correct_endianness(
+                        np.max(data.elem[iel - 1].scal[ivar, :, :, :]).astype(
+                            np.float32
+                        )
+                    ).tobytes()
+                )
 
     # close file
     outfile.close()
diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 09b25c2..39ecd9b 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -828,7 +828,7 @@ def writere2(fname, data):
     #
     # write tag (to specify endianness)
     endianbytes = np.array([6.54321], dtype=np.float32)
-    correct_endianness(endianbytes).tofile(outfile)
+    outfile.write(correct_endianness(endianbytes).tobytes())
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -839,7 +839,7 @@ def writere2(fname, data):
 
     def write_data_to_file(a):
         """Write the geometry of an element to the output file in double precision"""
-        correct_endianness(a).tofile(outfile)
+        outfile.write(correct_endianness(a).tobytes())
 
     #
     # write geometry (adding eight bytes of zeros before each element)
-- 
2.43.0


From 25c6afbd0cc215e0bffdd7ab310777b9c4d58459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 24/40] fix: generated meshes shared their list of variables

With the default argument, changing mesh.var of one mesh changed that of all
meshes generated before and after.
---
 src/pymech/meshtools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f61d0d4..7d3d9e9 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1421,7 +1421,7 @@ def gen_box(
     if bcs_ymax is None:
         bcs_ymax = ["P"] * nbc
 
-    box = HexaData(ndim, nel, lr1, var, nbc=nbc)
+    box = HexaData(ndim, nel, lr1, list(var), nbc=nbc)
     # box dimensions
     lx = xmax - xmin
     if lx <= 0:
@@ -1684,7 +1684,7 @@ def gen_circle(
 
     # Box 1: square
     nel_square = ns * ns
-    box_square = HexaData(ndim, nel_square, lr1, var, nbc=nbc)
+    box_square = HexaData(ndim, nel_square, lr1, list(var), nbc=nbc)
     # the characteristic distance is the diagonal
     c = s * r * sqrt(2)
     for i, j in product(range(ns), range(ns)):
@@ -1716,7 +1716,7 @@ def gen_circle(
 
     # Box 2: quarter-O
     nel_o = no * ns
-    box_o = HexaData(ndim, nel_o, lr1, var, nbc=nbc)
+    box_o = HexaData(ndim, nel_o, lr1, list(var), nbc=nbc)
     for i, j in product(range(no), range(ns)):
         # angular positions, between -pi/4 and pi/4
         alpha0 = 0.5 * pi * (j / ns - 0.5)
-- 
2.43.0


From d19c73d113df0ac40167f1846b63bffd891b9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 25/40] fix: hexa2vtk left the points, cells and velocity of 2D
 fields at zero

---
 src/pymech/vtksuite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 0b08221..b764ea2 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -126,9 +126,9 @@ def hexa2vtk(field, downsample=False):
             iarray = iel * nppel + ix + iy * nix + iz * (nix * niy)
 
             # Downsample copy into a column vector
-            if field.var[0] == 3:
+            if field.var[0] != 0:
                 r[iarray, :] = field.elem[iel].pos[:, ez, ey, ex]
-            if field.var[1] == 3:
+            if field.var[1] != 0:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
                 p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
@@ -136,7 +136,7 @@ def hexa2vtk(field, downsample=False):
                 T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
-        if field.var[0] == 3:
+        if field.var[0] != 0:
             for iz, iy, ix in product(
                 range(max(niz - 1, 1)), range(niy - 1), range(nix - 1)
             ):
-- 
2.43.0


From d63d435e7ff66e2d962df7744caa5e30c192310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 26/40] fix: gen_circle left placeholder conditions without
 internal connectivity

---
 src/pymech/meshtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 7d3d9e9..c6e56f2 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1703,7 +1703,8 @@ def gen_circle(
     if internal_bcs:
         build_connectivity(box_square, ns, ns)
     # boundary conditions: dummy BCs to signal that the faces should be glued
-    connectivity_bc = ["con"] * nbc
+    # (there is nothing to glue if the internal connectivity is not requested)
+    connectivity_bc = ["con" if internal_bcs else ""] * nbc
     apply_bcs(
         box_square,
         ns,
-- 
2.43.0


From 75b28e780873ff029198305aa98a167dac1e29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 27/40] fix: extrude_refine left stale element numbers in side
 conditions

---
 src/pymech/meshtools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c6e56f2..ccefa08 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -874,6 +874,13 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                 mesh3d.elem[i1 - 1].bcs[ibc, 5][3] = i + 1 + 1
                 mesh3d.elem[i1 - 1].bcs[ibc, 5][4] = 5
 
+    # the conditions of the side faces are copies, label them with the element they are now applied to
+    for iel, el in enumerate(mesh3d.elem):
+        for ibc, iface in product(range(nbc), range(4)):
+            if el.bcs[ibc, iface][0] != "":
+                el.bcs[ibc, iface][1] = iel + 1
+                el.bcs[ibc, iface][2] = iface + 1
+
     # FIND THE CURVED ELEMENTS
     ncurv = 0
     for el in mesh3d.elem:
-- 
2.43.0


From 0c195d99e3696fa79d47ca7e008e72e2fb00a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 28/40] fix: extrude_refine(internal_bcs=False) left boundary
 conditions inside the mesh

---
 src/pymech/meshtools.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index ccefa08..963aaa6 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -820,6 +820,20 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][0] = "E"
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][3] = iel + 1 + 4
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][4] = iedgelo + 1
+                else:
+                    # the conditions of the 2D element do not apply to the faces between the pieces
+                    for iell, iface in (
+                        (0, iedgehi),
+                        (1, iedgelo),
+                        (2, iedgehi),
+                        (3, iedgehi),
+                        (4, iedgelo),
+                        (5, iedgehi),
+                    ):
+                        bc = mesh3d.elem[iel + iell].bcs[ibc, iface]
+                        bc[0] = ""
+                        for j in range(1, 8):
+                            bc[j] = 0
 
                 # update the conditions for side faces.
                 for iface in iedgelat:
-- 
2.43.0


From d78c99425cccf6a7518bfe76a6fafdb431e17c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 29/40] fix: open_dataset gave wrong coordinates to elements
 that are not aligned with the axes

---
 src/pymech/dataset.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 2ccc7f7..cd4d084 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -132,12 +132,20 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
     def __init__(self, elem):
         self.elem = elem
 
-    def meshgrid_to_dim(self, mesh):
+    def meshgrid_to_dim(self, mesh, axis):
         """Reverse of np.meshgrid. This method extracts one-dimensional
         coordinates from a cubical array format for every direction
 
         """
-        u, indices = np.unique(np.round(mesh, 8), return_index=True)
+        rounded = np.round(mesh, 8)
+        u, indices = np.unique(rounded, return_index=True)
+        # the coordinate has to increase along its own axis and nowhere else
+        shape = [1, 1, 1]
+        shape[self.axes.index(axis)] = u.size
+        if u.size != mesh.shape[self.axes.index(axis)] or np.any(
+            rounded != u.reshape(shape)
+        ):
+            raise ValueError(f"The element is not aligned with the {axis} axis")
         mesh_1d = np.reshape(mesh, np.size(mesh))
         dim = mesh_1d[indices]
         return dim
@@ -160,9 +168,9 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
         elem = self.elem
 
         data_vars = {
-            ax[2]: self.meshgrid_to_dim(elem.pos[0]),  # x
-            ax[1]: self.meshgrid_to_dim(elem.pos[1]),  # y
-            ax[0]: self.meshgrid_to_dim(elem.pos[2]),  # z
+            ax[2]: self.meshgrid_to_dim(elem.pos[0], ax[2]),  # x
+            ax[1]: self.meshgrid_to_dim(elem.pos[1], ax[1]),  # y
+            ax[0]: self.meshgrid_to_dim(elem.pos[2], ax[0]),  # z
             "xmesh": xr.Variable(ax, elem.pos[0]),
             "ymesh": xr.Variable(ax, elem.pos[1]),
             "zmesh": xr.Variable(ax, elem.pos[2]),
-- 
2.43.0


From dd02aa377d206dd292e0c18689e7a732fac33561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 30/40] fix: closing a dataset made by open_mfdataset raised
 TypeError

---
 src/pymech/dataset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index cd4d084..d7a58a4 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -97,9 +97,16 @@ def _open_nek_dataset(path, drop_variables=None):
     if drop_variables:
         ds = ds.drop_vars(drop_variables)
 
+    # xarray.open_mfdataset closes the datasets that it combines
+    ds.set_close(_close_nek_dataset)
+
     return ds
 
 
+def _close_nek_dataset():
+    """The file is read at once: there is nothing left to close."""
+
+
 class PymechXarrayBackend(xr.backends.BackendEntrypoint):
     def guess_can_open(self, filename_or_obj):
         return can_open_nek_dataset(filename_or_obj)
-- 
2.43.0


From 7f4cd352e9b0bfc8307470b4860a80c0a9ed2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 31/40] fix: hexa2vtk failed on pressure and temperature with
 recent versions of numpy

---
 src/pymech/vtksuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index b764ea2..2ff7a6c 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -131,9 +131,9 @@ def hexa2vtk(field, downsample=False):
             if field.var[1] != 0:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
-                p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
+                p[iarray] = field.elem[iel].pres[0, ez, ey, ex]
             if field.var[3] == 1:
-                T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
+                T[iarray] = field.elem[iel].temp[0, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
         if field.var[0] != 0:
-- 
2.43.0


From 4fd8aed667f291e376c6a93d7a0fd779f92b6b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:00 +0000
Subject: [PATCH 32/40] fix: label the boundary faces of gen_circle with their
 own element

---
 src/pymech/meshtools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 963aaa6..71dd7f3 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1668,6 +1668,11 @@ def gen_circle(
                 mesh.elem[elnum(ni - 1, j, ni, nj)].bcs[ibc, 1][0] = bc1[ibc]
                 # left face
                 mesh.elem[elnum(0, j, ni, nj)].bcs[ibc, 3][0] = bc3[ibc]
+            # label the faces with their own element
+            for iel, iface in product(range(ni * nj), range(4)):
+                if mesh.elem[iel].bcs[ibc, iface][0] != "":
+                    mesh.elem[iel].bcs[ibc, iface][1] = iel + 1
+                    mesh.elem[iel].bcs[ibc, iface][2] = iface + 1
 
     # mesh connectivity for a structured grid, ignoring boundaries
     def build_connectivity(mesh, ni, nj):
-- 
2.43.0


From e6f7375adfa0953a451964f12d2a6c4708892288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 33/40] fix: keep_elements accepted negative element numbers
 and broke the connectivity

---
 src/pymech/meshtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 71dd7f3..0422fa1 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1229,7 +1229,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
     last_iel = -1
     current_offset = 0
     for iel in elems:
-        if iel >= mesh.nel:
+        if iel < 0 or iel >= mesh.nel:
             raise ValueError(f"invalid element number {iel} for nel = {mesh.nel}")
         current_offset += iel - last_iel - 1
         offsets[iel] = current_offset
-- 
2.43.0


From ad2f22f2f91447d27d314116eca0bc69b3fe9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 34/40] fix: keep_elements with repeated element numbers
 returned an inconsistent mesh

---
 src/pymech/meshtools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 0422fa1..35c400f 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1217,9 +1217,8 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
             if an element was connected to another which is removed from the mesh, replace that condition with external_bc
     """
 
-    # sort element numbers
-    elems = np.array(elems)
-    elems.sort()
+    # sort element numbers, each element is kept once
+    elems = np.unique(elems)
 
     # list of booleans representing whether each element is kept
     kept = [False for i in range(mesh.nel)]
-- 
2.43.0


From 817f72194ff46afa0939125addc5233205491fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 35/40] fix: cell offsets of hexa2vtk did not point at the
 cells in the cell array

---
 src/pymech/vtksuite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 2ff7a6c..2d89249 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -101,7 +101,8 @@ def hexa2vtk(field, downsample=False):
         cellType = tvtk.Quad().cell_type
     #
     ct = np.array(nel * [cellType])
-    of = np.arange(0, nvert * nel, nvert)
+    # each cell takes up nvert + 1 entries of the cell array: its size and its vertices
+    of = np.arange(0, (nvert + 1) * nel, nvert + 1)
 
     ce = np.zeros(nel * (nvert + 1))
     ce[np.arange(nel) * (nvert + 1)] = nvert
-- 
2.43.0


From fba30263a1c6cee55ee955e4346605a1313a2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 36/40] fix: hexa2vtk filled its datasets with unused points at
 the origin

---
 src/pymech/vtksuite.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 2d89249..0254dc3 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -92,6 +92,7 @@ def hexa2vtk(field, downsample=False):
     nppel = nix * niy * niz
     nepel = (nix - 1) * (niy - 1) * max((niz - 1), 1)
     nel = field.nel * nepel
+    npoints = field.nel * nppel
     #
     if field.ndim == 3:
         nvert = 8
@@ -108,15 +109,15 @@ def hexa2vtk(field, downsample=False):
     ce[np.arange(nel) * (nvert + 1)] = nvert
 
     if field.var[0] != 0:
-        r = np.zeros((nvert * nel, 3))
+        r = np.zeros((npoints, 3))
     if field.var[1] != 0:
-        v = np.zeros((nvert * nel, 3))
+        v = np.zeros((npoints, 3))
     if field.var[2] == 1:
-        p = np.zeros(nvert * nel)
+        p = np.zeros(npoints)
     if field.var[3] == 1:
-        T = np.zeros(nvert * nel)
+        T = np.zeros(npoints)
     if field.var[4] != 0:
-        S = np.zeros((nvert * nel, field.var[4]))
+        S = np.zeros((npoints, field.var[4]))
     #
     ice = -(nvert + 1)
 
-- 
2.43.0


From 21756c8556db8314530ad4b91bb2bff779c3d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 37/40] fix: gen_circle failed or misplaced its layers away
 from unit radius

---
 src/pymech/meshtools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 35c400f..c43682b 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1624,11 +1624,11 @@ def gen_circle(
             l1 = len_new / width * ((1 - eta) * width + eta * total_width)
             return l1 - len_ref
 
-        # iterate using the secant method
-        l0 = 1
+        # iterate using the secant method, at the scale of the circle
+        l0 = r
         l1 = 0
         f0 = err_stretching(l0, square_spacing)
-        eps = 1e-12  # this value shouldn't matter very much
+        eps = 1e-12 * r  # this value shouldn't matter very much
         max_iters = 10000
         iters = 0
         while abs(f0) > eps and iters < max_iters:
-- 
2.43.0


From 552b2613cad869c5e8b8340004da6e9568d535f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 38/40] fix: merge left the faces without condition that it
 connected without their numbers

---
 src/pymech/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 408f208..c488805 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -475,6 +475,11 @@ class HexaData:
                             for ibc in range(nbc):
                                 elem0.bcs[ibc, iface0][0] = "E"
                                 elem1.bcs[ibc, iface1][0] = "E"
+                                # faces without condition have no numbers of their own yet
+                                elem0.bcs[ibc, iface0][1] = iel0 + 1
+                                elem1.bcs[ibc, iface1][1] = iel1 + 1
+                                elem0.bcs[ibc, iface0][2] = iface0 + 1
+                                elem1.bcs[ibc, iface1][2] = iface1 + 1
                                 elem0.bcs[ibc, iface0][3] = iel1 + 1
                                 elem1.bcs[ibc, iface1][3] = iel0 + 1
                                 elem0.bcs[ibc, iface0][4] = iface1 + 1
-- 
2.43.0


From e6085db39161c664db9b6e6464ed982bb18a1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 39/40] fix: reading a header failed at debug level where bytes
 must not be formatted as text

---
 src/pymech/neksuite/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 3b210de..4402660 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -162,7 +162,7 @@ def read_header(path_or_file_obj: Union[PathLike, BinaryIO]) -> Header:
     else:
         raise ValueError("Should be a path or opened file object in 'rb' mode.")
 
-    logger.debug(b"Header: " + b" ".join(header))
+    logger.debug("Header: " + b" ".join(header).decode(errors="replace"))
     if len(header) < 12:
         raise IOError("Header of the file was too short.")
 
-- 
2.43.0


From 24a92f1df0c665cf4c50fbc3bc1f2e1cc60d441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:01 +0000
Subject: [PATCH 40/40] fix: writenek emptied the file that was there before
 refusing the field

---
 src/pymech/neksuite/field.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 4402660..df52de0 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -384,8 +384,6 @@ def writenek(fname, data):
             data structure
     """
     #
-    outfile = open(fname, "wb")
-    #
     # ---------------------------------------------------------------------------
     # WRITE HEADER
     # ---------------------------------------------------------------------------
@@ -414,7 +412,11 @@ def writenek(fname, data):
         raise ValueError("Could not interpret real type (wdsz = %i)" % (data.wdsz))
     #
     # generate header
-    outfile.write(h.as_bytestring())
+    header = h.as_bytestring()
+    #
+    # open the file only now: nothing is lost if the field is refused
+    outfile = open(fname, "wb")
+    outfile.write(header)
     #
     # decide endianness
     if data.endian in ("big", "little"):
-- 
2.43.0

