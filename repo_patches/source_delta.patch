From c138ec1f78ba953918d4433a75b801cedf8b1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 001/132] fix: flip the mask together with the values when axes
 are given in decreasing order

---
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..e81a011 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -503,9 +503,11 @@ class ScalarField(fld.Field):
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
             values = values[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             values = values[:, ::-1]
+            mask = mask[:, ::-1]
         # storing datas
         self.axe_x = axe_x
         self.axe_y = axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..78f86f2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -557,10 +557,12 @@ class VectorField(field.Field):
             axe_x = axe_x[::-1]
             comp_x = comp_x[::-1]
             comp_y = comp_y[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
+            mask = mask[:, ::-1]
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From e7d378c09a0daed14e3fc3d417784ec30d84f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:00 +0000
Subject: [PATCH 002/132] fix: accept axes with a single point when importing
 fields from arrays

---
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e81a011..2bfd6a0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -485,8 +485,8 @@ class ScalarField(fld.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 78f86f2..e38f476 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -537,8 +537,8 @@ class VectorField(field.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
-- 
2.43.0


From 1af59729cb97e303edca93fb4025bec2c988daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:00 +0000
Subject: [PATCH 003/132] fix: keep shared points at coordinate zero when
 adding partially overlapping vector fields

---
 IMTreatment/core/vectorfield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index e38f476..8511fd9 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -76,16 +76,16 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <
+                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <
+                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_y])
-                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <
+                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_x])
-                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <
+                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_y])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
-- 
2.43.0


From 4ee44d5ee3a52f9c55f56b2781edbf95b80adf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:00 +0000
Subject: [PATCH 004/132] fix: multiply the units when multiplying a vector
 field by a scalar field

---
 IMTreatment/core/vectorfield.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 8511fd9..1084763 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -231,8 +231,12 @@ class VectorField(field.Field):
             if other.shape != self.shape:
                 raise ValueError()
             tmpvf = self.copy()
-            tmpvf.comp_x *= other.values
-            tmpvf.comp_y *= other.values
+            new_unit = tmpvf.unit_values*other.unit_values
+            scale = new_unit.asNumber()
+            new_unit /= scale
+            tmpvf.unit_values = new_unit
+            tmpvf.comp_x *= other.values*scale
+            tmpvf.comp_y *= other.values*scale
             tmpvf.mask = np.logical_or(other.mask, self.mask)
             return tmpvf
         else:
-- 
2.43.0


From 6a346c9646f7ec75a20b9979c56f258ebd51a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:05 +0000
Subject: [PATCH 005/132] fix: flip the mask with the components when scaling a
 vector field by a negative factor

---
 IMTreatment/core/vectorfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 1084763..87fe04f 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -736,12 +736,15 @@ class VectorField(field.Field):
         if revx and revy:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[::-1, ::-1]
+            tmp_f.__mask = tmp_f.mask[::-1, ::-1]
         elif revx:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, :]
             tmp_f.comp_y = tmp_f.comp_y[::-1, :]
+            tmp_f.__mask = tmp_f.mask[::-1, :]
         elif revy:
             tmp_f.comp_x = tmp_f.comp_x[:, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[:, ::-1]
+            tmp_f.__mask = tmp_f.mask[:, ::-1]
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From c98113d6fcc05ef32c042b71bf5d300001b4350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:50 +0000
Subject: [PATCH 006/132] fix: reverse values and masks with the axes when
 scaling temporal fields by a negative factor

---
 IMTreatment/core/temporalfields.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..2c25e79 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1000,17 +1000,19 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f = self
         else:
             tmp_f = self.copy()
-        # scale the field (automaticly scale the fields axis)
         # for compatibility purpose
         if not hasattr(self, "xy_scale"):
             self.xy_scale = make_unit('')
         for field in self.fields:
             if not hasattr(field, "xy_scale"):
                 field.xy_scale = self.xy_scale
+        # scale the fields (axis and values, that have to be reversed together
+        # if the scale is negative)
+        flds.Fields.scale(tmp_f, scalex=scalex, scaley=scaley, scalev=scalev,
+                          inplace=True)
+        # scale the container axis
         fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
                         inplace=True)
-        # scale the values
-        flds.Fields.scale(tmp_f, scalev=scalev, inplace=True)
         # scale the time
         if scalet is None:
             pass
-- 
2.43.0


From 1cb919e5308e71f15277584d5a1be8902f274741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:39 +0000
Subject: [PATCH 007/132] fix: return the extended scalar field when not
 extending in place

---
 IMTreatment/core/scalarfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 2bfd6a0..b6d9749 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1492,9 +1492,9 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
-            return new_field
+            tmpsf.values = new_values
+            tmpsf.mask = new_mask
+            return tmpsf
 
     def mirroring(self, direction, position, inds_to_mirror='all',
                   mir_coef=1, interp=None, value=0, inplace=False):
-- 
2.43.0


From 415d5e9b489c31dc0dd7c23d96f907c034c6b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:39 +0000
Subject: [PATCH 008/132] fix: add exactly the asked number of points when
 extending a field

---
 IMTreatment/core/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..734db35 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -597,22 +597,22 @@ class Field(object):
         if nmb_left != 0:
             dx = self.axe_x[1] - self.axe_x[0]
             x0 = self.axe_x[0]
-            new_xs = np.arange(x0-dx*nmb_left, x0, dx)
+            new_xs = x0 + dx*np.arange(-nmb_left, 0)
             new_axe_x = np.concatenate((new_xs, new_axe_x))
         if nmb_right != 0:
             dx = self.axe_x[-1] - self.axe_x[-2]
             x0 = self.axe_x[-1]
-            new_xs = np.arange(x0 + dx, x0+dx*(nmb_right + 1), dx)
+            new_xs = x0 + dx*np.arange(1, nmb_right + 1)
             new_axe_x = np.concatenate((new_axe_x, new_xs))
         if nmb_down != 0:
             dy = self.axe_y[1] - self.axe_y[0]
             y0 = self.axe_y[0]
-            new_ys = np.arange(y0-dy*nmb_down, y0, dy)
+            new_ys = y0 + dy*np.arange(-nmb_down, 0)
             new_axe_y = np.concatenate((new_ys, new_axe_y))
         if nmb_up != 0:
             dy = self.axe_y[-1] - self.axe_y[-2]
             y0 = self.axe_y[-1]
-            new_ys = np.arange(y0 + dy, y0+dy*(nmb_up + 1), dy)
+            new_ys = y0 + dy*np.arange(1, nmb_up + 1)
             new_axe_y = np.concatenate((new_axe_y, new_ys))
         if inplace:
             self.__axe_x = new_axe_x
-- 
2.43.0


From 1032287b51f634d4ec2b7cd464ad76e517df08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:39 +0000
Subject: [PATCH 009/132] fix: do not share data between a field and its
 cropped copy

---
 IMTreatment/core/field.py       | 4 ++--
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 734db35..a94ccc0 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -568,8 +568,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1].copy()
+            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1].copy()
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index b6d9749..c155e30 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1414,9 +1414,9 @@ class ScalarField(fld.Field):
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
             cropfield.__values = self.values[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 87fe04f..cd9ac79 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1006,11 +1006,11 @@ class VectorField(field.Field):
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
             cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def crop_masked_border(self, hard=False, inplace=False):
-- 
2.43.0


From 7f950e838c5d4ce3d9bb0dbf7ad7cf2bc25743ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:39 +0000
Subject: [PATCH 010/132] fix: return a field when cropping the border of a
 field without masked points

---
 IMTreatment/core/scalarfield.py    | 2 +-
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/vectorfield.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index c155e30..fd26eec 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1743,7 +1743,7 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 2c25e79..a715159 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1304,7 +1304,7 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            return None if inplace else self.copy()
         # hard cropping
         if hard:
             if inplace:
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index cd9ac79..4487c36 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1030,7 +1030,7 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
-- 
2.43.0


From 9f67b1790b3230be6c1069b0d354bd2d82668a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:39 +0000
Subject: [PATCH 011/132] fix: accept odd factors when reducing the spatial
 resolution

---
 IMTreatment/core/scalarfield.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index fd26eec..fddc414 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2030,16 +2030,18 @@ class ScalarField(fld.Field):
                                                    [~mask[intervx, intervy]])
 
         else:
-            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2, fact)
-            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2, fact)
+            inds_x = np.arange((fact - 1)//2, len(axe_x) - (fact - 1)//2,
+                               fact)
+            inds_y = np.arange((fact - 1)//2, len(axe_y) - (fact - 1)//2,
+                               fact)
             new_values = np.zeros((len(inds_x), len(inds_y)))
             new_mask = np.zeros((len(inds_x), len(inds_y)))
             for i in np.arange(len(inds_x)):
-                intervx = slice(inds_x[i] - (fact - 1)/2,
-                                inds_x[i] + (fact - 1)/2 + 1)
+                intervx = slice(inds_x[i] - (fact - 1)//2,
+                                inds_x[i] + (fact - 1)//2 + 1)
                 for j in np.arange(len(inds_y)):
-                    intervy = slice(inds_y[j] - (fact - 1)/2,
-                                    inds_y[j] + (fact - 1)/2 + 1)
+                    intervy = slice(inds_y[j] - (fact - 1)//2,
+                                    inds_y[j] + (fact - 1)//2 + 1)
                     if np.all(mask[intervx, intervy]):
                         new_mask[i, j] = True
                         new_values[i, j] = 0.
-- 
2.43.0


From 3efd6e1881c15bc9fee2a5abdcb0d96c5ec904e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:39 +0000
Subject: [PATCH 012/132] fix: keep the units when reducing the spatial
 resolution in place

---
 IMTreatment/core/scalarfield.py | 1 -
 IMTreatment/core/vectorfield.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index fddc414..cb9e1cd 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2052,7 +2052,6 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
                                     unit_x=self.unit_x, unit_y=self.unit_y,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 4487c36..37c302d 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1212,7 +1212,6 @@ class VectorField(field.Field):
         Vy.reduce_spatial_resolution(fact, inplace=True)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
                                     mask=Vx.mask, unit_x=self.unit_x,
-- 
2.43.0


From 644565fa3a542307a26ab53c40956ed8c07106b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:39 +0000
Subject: [PATCH 013/132] fix: update the axes of the right fields when
 reducing the spatial resolution of series

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index a715159..0483ef0 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1183,8 +1183,8 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
+        tmpfs.axe_x = tmpfs.fields[0].axe_x
+        tmpfs.axe_y = tmpfs.fields[0].axe_y
         return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
-- 
2.43.0


From 33e5c3c1eefc3613a27c7e310bcd8b797af2b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 014/132] fix: keep the times of series through
 multiplications, divisions, powers and merges

---
 IMTreatment/core/temporalfields.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 0483ef0..12fd1c8 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -68,7 +68,8 @@ class TemporalFields(flds.Fields, fld.Field):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
@@ -99,12 +100,15 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i],
+                              time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -123,7 +127,9 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i],
+                              time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
             if not np.all(self.axe_x == other.axe_x) \
@@ -131,7 +137,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other, time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
@@ -149,8 +156,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(np.power(field, number), time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From 0960cce780365e2a45a30d5b6a0f8bc8debc06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 015/132] fix: divide the fields when dividing series of fields
 by a number

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 12fd1c8..3f1ad17 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -143,7 +143,7 @@ class TemporalFields(flds.Fields, fld.Field):
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
-- 
2.43.0


From 24ed1a6fb9a8f462e0f72b6c38e16ae110f39903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 016/132] fix: reject fields with an inconsistent y axis when
 adding them to series

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3f1ad17..3f807f6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1140,7 +1140,7 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-- 
2.43.0


From a7681578bffc767b3ca77240df3f46c467070015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 017/132] fix: convert times to the unit of the series when
 adding a field

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3f807f6..b69b8d2 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1144,7 +1144,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
-- 
2.43.0


From 5ff947a0e519fd2aa8ae1362b877d534097e3e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 018/132] fix: accept strings when setting the time unit of
 series

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index b69b8d2..22f1a75 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -273,7 +273,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From 5360e852c26741baa04d4d527d614dee540ea1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 019/132] fix: update the axes of series when mirroring them

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 22f1a75..a7f9292 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1420,8 +1420,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf.__axe_x = self.fields[0].axe_x
-        tmp_tf.__axe_y = self.fields[0].axe_y
+        tmp_tf._Field__axe_x = tmp_tf.fields[0].axe_x
+        tmp_tf._Field__axe_y = tmp_tf.fields[0].axe_y
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From d8b9b96814a984dd509499dc471be7f78c2a62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 020/132] fix: remove the asked fields when removing several
 fields at once

---
 IMTreatment/core/fields.py         | 3 +--
 IMTreatment/core/temporalfields.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..a7cdcb9 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -148,8 +148,7 @@ class Fields(object):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.fields = np.delete(self.fields, nmb)
+        self.fields = np.delete(self.fields, fieldnumbers)
 
     def set_origin(self, x=None, y=None):
         """
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index a7f9292..4331508 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1162,8 +1162,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.__times = np.delete(self.times, nmb)
+        self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
-- 
2.43.0


From e0cf3ae2e5fd334bd97ae0a2a70e9d33ab9bcea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 021/132] fix: keep the last full interval when reducing the
 temporal resolution

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 4331508..881b5f6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1241,7 +1241,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 time /= nmb_in_interval
             tmp_TFS.add_field(tmp_f, time, self.unit_times)
             i += nmb_in_interval
-            if i + nmb_in_interval >= len(self):
+            if i + nmb_in_interval > len(self):
                 break
         # returning
         if inplace:
-- 
2.43.0


From c46cda51b5ea551eb7fb815f2bc7330d27adf56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 022/132] fix: return nothing when reducing the temporal
 resolution in place by one

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 881b5f6..5cb29ee 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1221,7 +1221,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("'nmb_in_interval' must be a positive integer")
 
         if nmb_in_interval == 1:
-            return self.copy()
+            return None if inplace else self.copy()
         if nmb_in_interval >= len(self):
             raise ValueError("'nmb_in_interval' is too big")
         if not isinstance(mean, bool):
-- 
2.43.0


From aae70f49f723343c0c2c63cb92fea63205894219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 023/132] fix: store the fields in an array when augmenting the
 temporal resolution

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5cb29ee..80eb6ec 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1289,7 +1289,8 @@ class TemporalFields(flds.Fields, fld.Field):
         for time in new_times:
             new_fields.append(tf.get_interpolated_field(time))
         # store
-        tf.fields = new_fields
+        tf.fields = np.empty(len(new_fields), dtype=object)
+        tf.fields[:] = new_fields
         tf.times = new_times
         # returning
         if not inplace:
-- 
2.43.0


From 770a92ceb6756670e50065524a08495e664462c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 024/132] fix: do not crop the original field when filling a
 cropped copy

---
 IMTreatment/core/scalarfield.py | 5 ++++-
 IMTreatment/core/vectorfield.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index cb9e1cd..8b1cbe8 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1820,7 +1820,10 @@ class ScalarField(fld.Field):
             raise TypeError("'kind' must be a string")
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
-        if crop:
+        if crop and not inplace:
+            return self.crop_masked_border(hard=False, inplace=False).fill(
+                kind=kind, value=value, reduce_tri=reduce_tri)
+        elif crop:
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 37c302d..5902e95 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -950,7 +950,10 @@ class VectorField(field.Field):
         value = np.array(value)
         if not value.shape == (2,):
             raise ValueError()
-        if crop:
+        if crop and not inplace:
+            return self.crop_masked_border(hard=False, inplace=False).fill(
+                kind=kind, value=value, reduce_tri=reduce_tri)
+        elif crop:
             self.crop_masked_border(hard=False, inplace=True)
         # filling components
         comp_x = self.comp_x_as_sf
-- 
2.43.0


From 2979c08ebd7ece4d7699eeb98ba62e09668552af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:57 +0000
Subject: [PATCH 025/132] fix: do not share axes between series and their first
 field

---
 IMTreatment/core/temporalfields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 80eb6ec..2366d60 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1054,8 +1054,8 @@ class TemporalFields(flds.Fields, fld.Field):
         # raise NotImplementedError('Not implemented yet')
         for field in self.fields:
             field.make_evenly_spaced(interp=interp, res=res)
-        self._Field__axe_x = self.fields[0].axe_x
-        self._Field__axe_y = self.fields[0].axe_y
+        self._Field__axe_x = self.fields[0].axe_x.copy()
+        self._Field__axe_y = self.fields[0].axe_y.copy()
         self.__mask = False
 
     def change_unit(self, axe, new_unit):
@@ -1420,8 +1420,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf._Field__axe_x = tmp_tf.fields[0].axe_x
-        tmp_tf._Field__axe_y = tmp_tf.fields[0].axe_y
+        tmp_tf._Field__axe_x = tmp_tf.fields[0].axe_x.copy()
+        tmp_tf._Field__axe_y = tmp_tf.fields[0].axe_y.copy()
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From 04dd4808a8de066eef0a1d8d55d167f3b97fd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:57 +0000
Subject: [PATCH 026/132] fix: do not share values and masks between scalar
 fields

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 8b1cbe8..eaa0069 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -328,7 +328,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             self.__mask = np.isnan(new_values)
@@ -355,7 +355,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
-- 
2.43.0


From 0b2e3b29357fb3a9b74fb711943836350d1f2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:28 +0000
Subject: [PATCH 027/132] fix: accept intervals of indices when extracting
 profiles

---
 IMTreatment/core/scalarfield.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index eaa0069..2a895c7 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -854,6 +854,7 @@ class ScalarField(fld.Field):
                 if pos < axe.min():
                     pos = axe.min()
         elif isinstance(position, ARRAYTYPES) and ind:
+            position = np.array(position, dtype=int)
             if np.min(position) < -len(axe) + 1 or \
                np.max(position) > len(axe) - 1:
                 raise ValueError("'position' must be included in"
-- 
2.43.0


From 14ec87d9473c5444fc8293b0f5f922fe48927281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:28 +0000
Subject: [PATCH 028/132] fix: ignore masked points and return the bin centers
 in histograms

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 2a895c7..4d1125e 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -958,11 +958,11 @@ class ScalarField(fld.Field):
         """
         if bins is None:
             bins = 10
-        hist, xs = np.histogram(self.values.flatten(),
+        hist, xs = np.histogram(self.values[~self.mask],
                                 bins=bins,
                                 range=range,
                                 density=normalized)
-        xs = xs[0:-1] + np.mean(xs[0:2])
+        xs = (xs[0:-1] + xs[1:])/2.
         if cum:
             hist = np.cumsum(hist)
 
-- 
2.43.0


From 06ca5764ab0dba228b860f7d59fe3194a25721f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:02 +0000
Subject: [PATCH 029/132] fix: return only points of the field around a
 position

---
 IMTreatment/core/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index a94ccc0..026a50f 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -267,6 +267,8 @@ class Field(object):
                            np.int(np.floor(center[0] + radius)) + 1)
         inds_y = np.arange(np.int(np.ceil(center[1] - radius)),
                            np.int(np.floor(center[1] + radius)) + 1)
+        inds_x = inds_x[np.logical_and(inds_x >= 0, inds_x < self.shape[0])]
+        inds_y = inds_y[np.logical_and(inds_y >= 0, inds_y < self.shape[1])]
         inds_x, inds_y = np.meshgrid(inds_x, inds_y)
         inds_x = inds_x.flatten()
         inds_y = inds_y.flatten()
-- 
2.43.0


From 99280754d71f52352252f63d55bed257238cc266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:17 +0000
Subject: [PATCH 030/132] fix: keep the resolution when making a field evenly
 spaced

---
 IMTreatment/core/scalarfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 4d1125e..1977909 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1957,9 +1957,11 @@ class ScalarField(fld.Field):
         #
         interp = self.get_interpolator(interp=interp)
         # new_x = np.arange(axex[0], axex[-1] + .1*dx, dx)
-        new_x = np.linspace(axex[0], axex[-1], int(Dx/dx))
+        new_x = np.linspace(axex[0], axex[-1],
+                            int(np.round(Dx/dx)) + 1)
         # new_y = np.arange(axey[0], axey[-1] + .1*dy, dy)
-        new_y = np.linspace(axey[0], axey[-1], int(Dy/dy))
+        new_y = np.linspace(axey[0], axey[-1],
+                            int(np.round(Dy/dy)) + 1)
         new_values = interp(new_x, new_y)
         # store
         self.import_from_arrays(new_x, new_y, new_values.transpose(),
-- 
2.43.0


From 3f0c4a64c0828a60660d68632af838371aacd9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:32 +0000
Subject: [PATCH 031/132] fix: accept windows of indices reduced to the first
 point

---
 IMTreatment/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 026a50f..1b8e383 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -529,8 +529,8 @@ class Field(object):
             raise ValueError("'intervy' values must be crescent")
         # checking crooping windows
         if ind:
-            if intervx[0] < 0 or intervx[1] == 0 or \
-                    intervy[0] < 0 or intervy[1] == 0:
+            if intervx[0] < 0 or intervx[1] < 0 or \
+                    intervy[0] < 0 or intervy[1] < 0:
                 raise ValueError("Invalid cropping window")
         else:
             if np.all(intervx < axe_x[0]) or np.all(intervx > axe_x[-1])\
-- 
2.43.0


From 49a9bb1f5281c2cf665e8b01baf10dd92957e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:23 +0000
Subject: [PATCH 032/132] fix: keep the points up to the upper bound when
 cropping a profile

---
 IMTreatment/core/profile.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..918abb0 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1431,27 +1431,21 @@ class Profile(object):
                     or all(intervx > np.max(self.x)):
                 raise ValueError("'intervx' values are out of profile")
             ind1 = 0
-            ind2 = -1
+            ind2 = np.sum(new_x <= intervx[1])
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-                elif new_x[i] == intervx[1]:
-                    ind2 = i + 1
                 elif (new_x[i] > intervx[0] and new_x[i-1] < intervx[0]) \
                         or (new_x[i] < intervx[0] and
                             new_x[i-1] > intervx[0]):
                     ind1 = i + 1
-                elif (new_x[i] > intervx[1] and new_x[i-1] < intervx[1]) \
-                        or (new_x[i] < intervx[1] and
-                            new_x[i-1] > intervx[1]):
-                    ind2 = i
             indices = [ind1, ind2]
             new_x = new_x[indices[0]:indices[1]]
             new_y = new_y[indices[0]:indices[1]]
             new_mask = new_mask[indices[0]:indices[1]]
         # treat intervy with ind=False
         if not ind and intervy is not None:
-            filt = np.logical_and(self.y > intervy[0], self.y < intervy[1])
+            filt = np.logical_and(new_y > intervy[0], new_y < intervy[1])
             new_x = new_x[filt]
             new_y = new_y[filt]
             new_mask = new_mask[filt]
-- 
2.43.0


From 58cc1e27a3f0e4a2df9e8dfcad2db1620f7c9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:23 +0000
Subject: [PATCH 033/132] fix: honour the mask of a profile given as a boolean

---
 IMTreatment/core/profile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 918abb0..d92965c 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -65,8 +65,7 @@ class Profile(object):
         if not isinstance(y, np.ma.MaskedArray):
             y = np.array(y, dtype=float)
         if isinstance(mask, bool):
-            mask = np.empty(x.shape, dtype=bool)
-            mask.fill(False)
+            mask = np.full(x.shape, mask, dtype=bool)
         if not isinstance(mask, ARRAYTYPES):
             raise TypeError("'mask' must be an array")
         if not isinstance(mask, (np.ndarray, np.ma.MaskedArray)):
-- 
2.43.0


From f8856c7abacc432f6609661f58565119f0dff568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:23 +0000
Subject: [PATCH 034/132] fix: convert the values in the right direction when
 adding profiles

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d92965c..d209e1d 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -114,7 +114,7 @@ class Profile(object):
                 raise ValueError("Profiles have not the same length")
             if not all(self.x == otherone.x):
                 raise ValueError("Profiles have not the same x axis")
-            y = self.y + (self.unit_y/otherone.unit_y*otherone.y).asNumber()
+            y = self.y + (otherone.unit_y/self.unit_y*otherone.y).asNumber()
             name = ""
             mask = np.logical_or(self.mask, otherone.mask)
         else:
-- 
2.43.0


From 20ef9ac09d82b1c24340b283dac07d32aad46b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:23 +0000
Subject: [PATCH 035/132] fix: reject the product of profiles on different
 axes, in both directions

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d209e1d..e178e6a 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -140,7 +140,7 @@ class Profile(object):
             y = self.y*new_unit_y.asNumber()
             new_unit_y = new_unit_y/new_unit_y.asNumber()
         elif isinstance(otherone, Profile):
-            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
+            if np.any(abs(otherone.x - self.x) > 1e-6*np.mean(abs(self.x))):
                 raise ValueError("Given profiles does'nt share the same"
                                  " x axis")
             if not otherone.unit_x == self.unit_x:
-- 
2.43.0


From 20f09e1c095380d760b9b4cf41490c61b5a1ba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:23 +0000
Subject: [PATCH 036/132] fix: do not modify the divisor when dividing profiles

---
 IMTreatment/core/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index e178e6a..ca00df8 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -201,8 +201,9 @@ class Profile(object):
                 tmp_unit = self.unit_y/otherone.unit_y
                 y_tmp = self.y.copy()
                 y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                y_other = otherone.y.copy()
+                y_other[y_other == 0] = 1
+                y = y_tmp/y_other*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From 3735d3e7f38ce4acdaaa2f38d599f5f136012102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:23 +0000
Subject: [PATCH 037/132] fix: keep the mask in the power of a profile

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index ca00df8..4b3f42a 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -218,8 +218,8 @@ class Profile(object):
                             "on a Profile")
         y = np.power(self.y, number)
         unit_y = np.power(self.unit_y, number)
-        return Profile(x=self.x, y=y, unit_x=self.unit_x, unit_y=unit_y,
-                       name=self.name)
+        return Profile(x=self.x, y=y, mask=self.mask, unit_x=self.unit_x,
+                       unit_y=unit_y, name=self.name)
 
     def __len__(self):
         return len(self.x)
-- 
2.43.0


From 4ca4d637445489fe72be3591102394787bb5418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:23 +0000
Subject: [PATCH 038/132] fix: fill the masked points of a profile, and not the
 others, with a value

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 4b3f42a..d7ca20e 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1583,7 +1583,7 @@ class Profile(object):
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From 1af5f9573c36d32ae190b685d87488836416b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:51 +0000
Subject: [PATCH 039/132] fix: express the product of profiles in a plain unit

---
 IMTreatment/core/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d7ca20e..97500ab 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -169,6 +169,8 @@ class Profile(object):
             mask = np.logical_or(self.mask[filt_self],
                                  otherone.mask[filt_other])
             unit_y = self.unit_y*otherone.unit_y
+            values = values*unit_y.asNumber()
+            unit_y = unit_y/unit_y.asNumber()
             tmp_prof = Profile(x, values, mask=mask, unit_x=self.unit_x,
                                unit_y=unit_y)
             return tmp_prof
-- 
2.43.0


From 2a73b9f9a2197af4b21d4f465eb96bed09f35e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:05 +0000
Subject: [PATCH 040/132] fix: crop the masked borders of a profile to fill,
 and only when in place

---
 IMTreatment/core/profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 97500ab..89aff00 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1571,12 +1571,15 @@ class Profile(object):
         """
         # check if filling really necessary
         if not np.any(self.mask) and inplace:
-            return None,
+            return None
         elif not np.any(self.mask):
             return self.copy()
         # crop if asked
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            if not inplace:
+                return self.crop_masked_border().fill(kind=kind,
+                                                      fill_value=fill_value)
+            self.crop_masked_border(inplace=True)
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From 76d55d02e7b9e9a13977a4c34e5ae420ea2b281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:22 +0000
Subject: [PATCH 041/132] fix: accept indices to get values of a profile

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 89aff00..f14db13 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -579,7 +579,7 @@ class Profile(object):
         else:
             value = y
             if ind:
-                values = np.arange(self.y)
+                values = np.arange(len(self.y))
             else:
                 values = np.ma.masked_array(self.y, self.mask)
             values2 = np.array(self.x)
-- 
2.43.0


From 6a3d9a4b2e4fd49f93f92eb10ea19ea7c1f8acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:35 +0000
Subject: [PATCH 042/132] fix: accept profiles with negative abscissa in
 convolutions

---
 IMTreatment/core/profile.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index f14db13..c629333 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1176,12 +1176,13 @@ class Profile(object):
             raise TypeError()
         if mode not in ['full', 'same', 'valid']:
             raise ValueError()
-        if not np.all(self.x[1:] - self.x[0:-1] - (self.x[1] - self.x[0]) <
-                      self.x[-1]*1e-10):
+        if not np.all(np.abs(self.x[1:] - self.x[0:-1] -
+                             (self.x[1] - self.x[0])) <
+                      1e-6*(self.x[1] - self.x[0])):
             raise Exception("Profiles should have orthogonal x axis")
-        if not np.all(other_prof.x[1:] - other_prof.x[0:-1] -
-                      other_prof.x[1] - other_prof.x[0] <
-                      1e-6*np.mean(other_prof.x)):
+        if not np.all(np.abs(other_prof.x[1:] - other_prof.x[0:-1] -
+                             (other_prof.x[1] - other_prof.x[0])) <
+                      1e-6*(other_prof.x[1] - other_prof.x[0])):
             raise Exception("Profiles should have orthogonal x axis")
         if not self.x[1] - self.x[0] == other_prof.x[1] - other_prof.x[0]:
             raise Exception("Profiles should have same x discretization step")
-- 
2.43.0


From 94ccfd858c4108d7a7b7e1e4c5d142e6b2acb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:50 +0000
Subject: [PATCH 043/132] fix: give as many abscissa as values to correlation
 profiles

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index c629333..0570017 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -953,7 +953,7 @@ class Profile(object):
             return corr
         else:
             dx = self.x[1] - self.x[0]
-            x = np.arange(0, dx*len(corr), dx)
+            x = dx*np.arange(len(corr))
             return Profile(x, corr, unit_x=self.unit_x, unit_y=make_unit(''))
 
     def get_fitting(self, func, p0=None, output_param=False):
@@ -1192,7 +1192,7 @@ class Profile(object):
         # get convolution
         conv = np.convolve(self.y, other_prof.y, mode=mode)
         # store in a profile
-        conv_prof = Profile(np.arange(0, dx*len(conv), dx),
+        conv_prof = Profile(dx*np.arange(len(conv)),
                             conv, unit_x=self.unit_x,
                             unit_y=self.unit_y*other_prof.unit_y)
         # return
-- 
2.43.0


From 1c68d6840ca52eebbb399c2cff715bc65905b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 044/132] fix: do not lose an interval to rounding when evenly
 spacing a profile

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 0570017..68a3903 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1739,7 +1739,7 @@ class Profile(object):
             mean_dx = dx
         min_x = np.min(self.x)
         max_x = np.max(self.x)
-        nmb_interv = np.int((max_x - min_x)/mean_dx)
+        nmb_interv = int((max_x - min_x)/mean_dx + 1e-6)
         # creating new evenly spaced x axis
         new_x = np.linspace(min_x, max_x, nmb_interv + 1)
         # interpolate to obtain y values
-- 
2.43.0


From 2cfd464f3516ff009e8b3caeabdad35ce8b03dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:07 +0000
Subject: [PATCH 045/132] fix: find all the points where a profile takes a
 value

---
 IMTreatment/core/profile.py | 55 ++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 68a3903..e2b2355 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -583,23 +583,25 @@ class Profile(object):
             else:
                 values = np.ma.masked_array(self.y, self.mask)
             values2 = np.array(self.x)
-        # if the wanted value is already present
-        if np.any(value == values):
-            i_values = values2[np.where(value == values)[0]]
-        # if we have to do an interpolation
-        else:
-            i_values = []
-            for ind in np.arange(0, len(values) - 1):
-                val_i = values[ind]
-                val_ipp = values[ind + 1]
-                val2_i = values2[ind]
-                val2_ipp = values2[ind + 1]
-                if (val_i >= value and val_ipp < value) \
-                        or (val_i <= value and val_ipp > value):
-                    i_value = ((val2_i*np.abs(val_ipp - value) +
-                               val2_ipp*np.abs(values[ind] - value)) /
-                               np.abs(values[ind] - val_ipp))
-                    i_values.append(i_value)
+        i_values = []
+        for ind in np.arange(0, len(values)):
+            # if the wanted value is already present
+            if values[ind] == value:
+                i_values.append(values2[ind])
+                continue
+            if ind == len(values) - 1:
+                continue
+            # if we have to do an interpolation
+            val_i = values[ind]
+            val_ipp = values[ind + 1]
+            val2_i = values2[ind]
+            val2_ipp = values2[ind + 1]
+            if (val_i > value and val_ipp < value) \
+                    or (val_i < value and val_ipp > value):
+                i_value = ((val2_i*np.abs(val_ipp - value) +
+                           val2_ipp*np.abs(values[ind] - value)) /
+                           np.abs(values[ind] - val_ipp))
+                i_values.append(i_value)
         # returning
         return i_values
 
@@ -618,21 +620,13 @@ class Profile(object):
         # check parameters
         if not isinstance(value, NUMBERTYPES):
             raise TypeError()
-        # if the asked value is present
-        if np.any(self.y == value):
-            ind_0 = np.argwhere(self.y == value)[0]
-            if ind:
-                return ind_0
-            else:
-                pos_0 = [self.x[i] for i in ind_0]
-                return pos_0
         # search for positions
-        y = self.y
+        y = self.y.copy()
         y[self.mask] = 0
         y = y - value
         x = self.x
-        sign = y > 0
-        chang = np.abs(np.logical_xor(sign[1::], sign[0:-1:]))
+        chang = np.logical_or(np.logical_and(y[1::] > 0, y[0:-1:] < 0),
+                              np.logical_and(y[1::] < 0, y[0:-1:] > 0))
         mask_chang = np.logical_or(self.mask[1::], self.mask[0:-1:])
         chang[mask_chang] = False
         ind_0 = np.argwhere(chang).flatten()
@@ -648,8 +642,11 @@ class Profile(object):
             x_1 = x[ind_0]
             x_2 = x[ind_0 + 1]
         pos_0 = x_1 + val_1/(val_1 + val_2)*(x_2 - x_1)
+        # add the points where the asked value is present
+        ind_e = np.argwhere(np.logical_and(y == 0, ~self.mask)).flatten()
+        pos_e = ind_e if ind else x[ind_e]
         # returning
-        return pos_0
+        return np.sort(np.concatenate((pos_e, pos_0)))
 
     def get_integral(self):
         """
-- 
2.43.0


From d0bfa1b3c3aabc68bd3bcfd657ab4cfb458da61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:16 +0000
Subject: [PATCH 046/132] fix: reject the addition of a profile and an
 inconsistent quantity

---
 IMTreatment/core/profile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index e2b2355..a6e8114 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -101,6 +101,11 @@ class Profile(object):
             name = self.name
             mask = self.mask
         elif isinstance(otherone, unum.Unum):
+            try:
+                self.unit_y + otherone
+            except:
+                raise ValueError("Given number have to be consistent with"
+                                 "the profile (same units)")
             y = self.y + (otherone/self.unit_y).asNumber()
             name = self.name
             mask = self.mask
-- 
2.43.0


From 6e252b18505e4e155ddd2359368d8b6d8f7d09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:54 +0000
Subject: [PATCH 047/132] fix: reject the ratio of profiles along inconsistent
 axes

---
 IMTreatment/core/profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index a6e8114..007493f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -203,6 +203,9 @@ class Profile(object):
             if not np.all(self.x == otherone.x):
                 raise ValueError("Profile has to have identical x axis in "
                                  "order to divide them")
+            elif not otherone.unit_x == self.unit_x:
+                raise ValueError("Given profiles does'nt share the same"
+                                 " x units")
             else:
                 mask = np.logical_or(self.mask, otherone.mask)
                 tmp_unit = self.unit_y/otherone.unit_y
-- 
2.43.0


From 1e32573f7e02afef34bae3d06134821765bb04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:27 +0000
Subject: [PATCH 048/132] fix: convert the units in the right direction when
 adding points

---
 IMTreatment/core/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..88e64fc 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -108,9 +108,9 @@ class Points(object):
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
             # testing v presence
             v_presence = True
@@ -130,7 +130,7 @@ class Points(object):
                 elif another.v is None:
                     v = self.v
                 else:
-                    v_tmp = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v_tmp = another.v*(another.unit_v/self.unit_v).asNumber()
                     v = np.append(self.v, v_tmp)
                 return Points(new_xy, v,
                               unit_x=self.unit_x,
-- 
2.43.0


From b9c1c4947512b9ca95ce75a3618980376beecb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:39 +0000
Subject: [PATCH 049/132] fix: do not share the given array of positions

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 88e64fc..233471a 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From 8bec3411ee8f7a8e3ffe84d8b440bebe48dbd9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:50 +0000
Subject: [PATCH 050/132] fix: give the unit of the axis to velocity profiles

---
 IMTreatment/core/points.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 233471a..c672bb7 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -695,21 +695,24 @@ class Points(object):
         # getting xaxis
         if xaxis == 'time':
             x_prof = times[:-1] + dt/2.
+            unit_prof = self.unit_v
         elif xaxis == 'x':
             x_prof = x[:-1] + dx/2.
+            unit_prof = self.unit_x
         elif xaxis == 'y':
             x_prof = y[:-1] + dy/2.
+            unit_prof = self.unit_y
         # returning profiles
         from .profile import Profile
         unit_Vx = self.unit_x/self.unit_v
         Vx *= unit_Vx.asNumber()
         unit_Vx /= unit_Vx.asNumber()
-        prof_x = Profile(x_prof, Vx, mask=False, unit_x=self.unit_v,
+        prof_x = Profile(x_prof, Vx, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vx)
         unit_Vy = self.unit_y/self.unit_v
         Vy *= unit_Vy.asNumber()
         unit_Vy /= unit_Vy.asNumber()
-        prof_y = Profile(x_prof, Vy, mask=False, unit_x=self.unit_v,
+        prof_y = Profile(x_prof, Vy, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vy)
         return prof_x, prof_y
 
-- 
2.43.0


From 36fde0551d195637c7439560744d78b6202ed4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:01 +0000
Subject: [PATCH 051/132] fix: do not fail to get the evolution of points on a
 field

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index c672bb7..71f076f 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -734,10 +734,10 @@ class Points(object):
         """
         # check parameters
         from .scalarfield import ScalarField
+        from .profile import Profile
         if not isinstance(SF, ScalarField):
             raise TypeError()
         if len(self.xy) == 0:
-            from .profile import Profile
             return Profile()
         if axe_x is None:
             if len(self.v) == len(self.xy):
-- 
2.43.0


From c4d6b8551b05fae98861ab41a1b4d5c267048a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 052/132] fix: leave points unchanged when the value of an
 added point is missing

---
 IMTreatment/core/points.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 71f076f..6349c9f 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -895,9 +895,11 @@ class Points(object):
             if not isinstance(v, NUMBERTYPES):
                 raise TypeError()
         # store new data
-        self.__xy = np.append(self.xy, [pt], axis=0)
-        if v is None and self.v.shape[0] != 0:
+        if v is None and len(self.v) != 0:
             raise ValueError('You should specify an associated value : v')
+        if v is not None and len(self.v) != len(self.xy):
+            raise ValueError('The other points have no associated value')
+        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is not None:
             self.__v = np.append(self.v, v)
 
-- 
2.43.0


From d5fea01948e835ab61913ab4da73826ad2971573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:24 +0000
Subject: [PATCH 053/132] fix: keep the values of the other points when
 removing points

---
 IMTreatment/core/points.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 6349c9f..c0f7f4e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -923,7 +923,7 @@ class Points(object):
             raise TypeError("'ind' must be an integer or an array of integer")
         tmp_v = self.v.copy()
         self.xy = np.delete(self.xy, ind, axis=0)
-        if len(self.v) == len(self.xy) + 1:
+        if len(tmp_v) != 0:
             self.v = np.delete(tmp_v, ind, axis=0)
 
     def change_unit(self, axe, new_unit):
@@ -1300,7 +1300,8 @@ class Points(object):
         # get indices to remove
         inds = np.logical_or(np.isnan(tmp_pts.xy[:, 0]),
                              np.isnan(tmp_pts.xy[:, 1]))
-        inds = np.logical_or(inds, np.isnan(tmp_pts.v))
+        if len(tmp_pts.v) != 0:
+            inds = np.logical_or(inds, np.isnan(tmp_pts.v))
         # remove
         for ind in np.where(inds)[0][::-1]:
             tmp_pts.remove(ind)
-- 
2.43.0


From 9e5a037c9d369729721a8771030dbbb7ae9e70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:35 +0000
Subject: [PATCH 054/132] fix: keep the values of the remaining points when
 cutting points

---
 IMTreatment/core/points.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index c0f7f4e..c54073f 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1056,7 +1056,7 @@ class Points(object):
             Cutted version of the point cloud.
         """
         tmp_pts = self.copy()
-        mask = np.ones(len(self.xy))
+        mask = np.ones(len(self.xy), dtype=bool)
         if intervx is not None:
             out_zone = np.logical_and(self.xy[:, 0] > intervx[0],
                                       self.xy[:, 0] < intervx[1])
@@ -1065,9 +1065,10 @@ class Points(object):
             out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
                                       self.xy[:, 1] < intervy[1])
             mask = np.logical_and(mask, out_zone)
+        v = tmp_pts.v
         tmp_pts.xy = tmp_pts.xy[~mask, :]
-        if len(tmp_pts.v) != 0:
-            tmp_pts.v = tmp_pts.v[~mask]
+        if len(v) != 0:
+            tmp_pts.v = v[~mask]
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
-- 
2.43.0


From 5ebe637b1d672ead5dd43be9a465047f86dc112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:46 +0000
Subject: [PATCH 055/132] fix: scale and convert integer values of points

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index c54073f..da7f314 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -961,7 +961,7 @@ class Points(object):
             old_unit = self.unit_v
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-            self.v *= fact
+            self.v = self.v*fact
             self.unit_v = new_unit/fact
         else:
             raise ValueError()
@@ -1119,7 +1119,7 @@ class Points(object):
         if scalex != 1. or scaley != 1.:
             tmp_pt.xy *= np.array([scalex, scaley])
         if scalev != 1.:
-            tmp_pt.v *= scalev
+            tmp_pt.v = tmp_pt.v*scalev
         # returning
         if not inplace:
             return tmp_pt
-- 
2.43.0


From f4640d061dabec51ff087893f2eb7daf761c0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:57 +0000
Subject: [PATCH 056/132] fix: exchange the units too when reversing points

---
 IMTreatment/core/points.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index da7f314..5b447b9 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1194,6 +1194,8 @@ class Points(object):
         xy_tmp[:, 0] = tmp_pt.xy[:, 1]
         xy_tmp[:, 1] = tmp_pt.xy[:, 0]
         tmp_pt.xy = xy_tmp
+        tmp_pt.unit_x = self.unit_y
+        tmp_pt.unit_y = self.unit_x
         return tmp_pt
 
     def decompose(self):
-- 
2.43.0


From c306781c248a0bee879753a7187b2636854a4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:09 +0000
Subject: [PATCH 057/132] fix: iterate over all the oriented points

---
 IMTreatment/core/orientedpoints.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..0e7cce3 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -77,9 +77,7 @@ class OrientedPoints(pts.Points):
         self.orientations = orientations
 
     def __iter__(self):
-        for i in np.arange(len(self.xy)):
-            pts_iter = pts.Points.__iter__(self)
-            pts_value = next(pts_iter)
+        for i, pts_value in enumerate(pts.Points.__iter__(self)):
             if type(pts_value) is tuple:
                 yield pts_value + (self.orientations[i],)
             else:
-- 
2.43.0


From e553b25fc9d9da137a4ee8307a2d2d26ff51832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:22 +0000
Subject: [PATCH 058/132] fix: set the unit of times given as a string

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a495f81..125cbb5 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -107,7 +107,7 @@ class TemporalPoints(object):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From 6ba6b54409233b8c7eefaba8f7d9d7530552fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:34 +0000
Subject: [PATCH 059/132] fix: convert the times in the right direction when
 adding points

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 125cbb5..a324a24 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -218,7 +218,7 @@ class TemporalPoints(object):
         # if not
         else:
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         self.point_sets.append(pt)
-- 
2.43.0


From 154679bb9c0a98cf574e79dd2f31988679476b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 060/132] fix: do not fail to remove sets of points

---
 IMTreatment/core/temporalpoints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a324a24..20a0d10 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -236,9 +236,9 @@ class TemporalPoints(object):
         """
         if isinstance(indice, INTEGERTYPES):
             indice = [indice]
-        for i in indice:
-            self.__times = np.delete(self.times, i)
-            self.point_sets = np.delete(self.point_sets, i)
+        self.__times = np.delete(self.times, indice)
+        for i in sorted(set(np.arange(len(self.point_sets))[indice]))[::-1]:
+            del self.point_sets[i]
 
     def crop(self, intervx=None, intervy=None, intervv=None, intervt=None,
              full_output=False, ind=False, inplace=False):
-- 
2.43.0


From 7e20c24746ffe26201997993848119533a145c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:59 +0000
Subject: [PATCH 061/132] fix: crop the returned points instead of the original
 ones

---
 IMTreatment/core/temporalpoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 20a0d10..9322dd7 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -290,10 +290,11 @@ class TemporalPoints(object):
             croppts = self.copy()
         # temporal
         if intervt is not None:
+            intervt = np.array(intervt, dtype=int)
             croppts.point_sets = croppts.point_sets[intervt[0]:intervt[1] + 1]
             croppts.times = croppts.times[intervt[0]:intervt[1] + 1]
         # spatial
-        for pt in self.point_sets:
+        for pt in croppts.point_sets:
             pt.crop(intervx=intervx, intervy=intervy, intervv=intervv,
                     inplace=True)
         # returning
-- 
2.43.0


From 330869beddbd377158dcbb599975c612a1ebf062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:13 +0000
Subject: [PATCH 062/132] fix: scale temporal points along some of the axes
 only

---
 IMTreatment/core/temporalpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 9322dd7..ad171c6 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -115,7 +115,7 @@ class TemporalPoints(object):
     def unit_times(self):
         raise Exception("Nope, can't do that")
 
-    def scale(self, scalex=None, scaley=None, scalev=None, scalet=None,
+    def scale(self, scalex=1., scaley=1., scalev=1., scalet=None,
               inplace=False):
         """
         Scale the point sets.
@@ -136,6 +136,9 @@ class TemporalPoints(object):
                                        scaley=scaley,
                                        scalev=scalev,
                                        inplace=True)
+        if len(tmp_ps.point_sets) != 0:
+            tmp_ps.unit_x = tmp_ps.point_sets[0].unit_x
+            tmp_ps.unit_y = tmp_ps.point_sets[0].unit_y
         # scale the time
         if scalet is None:
             pass
-- 
2.43.0


From 2c71d681339a7f7a78affd99e4c22b015a1524aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:29 +0000
Subject: [PATCH 063/132] fix: change the units of temporal points consistently

---
 IMTreatment/core/temporalpoints.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index ad171c6..2b084d9 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -177,7 +177,11 @@ class TemporalPoints(object):
             raise TypeError()
         if axe in ['x', 'y', 'values']:
             for pt in self.point_sets:
-                pt.change_unit(axe, new_unit)
+                pt.change_unit('v' if axe == 'values' else axe, new_unit)
+            if axe == 'x' and len(self.point_sets) != 0:
+                self.unit_x = self.point_sets[0].unit_x
+            elif axe == 'y' and len(self.point_sets) != 0:
+                self.unit_y = self.point_sets[0].unit_y
         elif axe == 'time':
             old_unit = self.unit_times
             new_unit = old_unit.asUnit(new_unit)
-- 
2.43.0


From 136f5da2f252f831e20a52b3db7371e52bd202b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:41 +0000
Subject: [PATCH 064/132] fix: do not share the added points

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 2b084d9..375fa22 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -228,7 +228,7 @@ class TemporalPoints(object):
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt)
+        self.point_sets.append(pt.copy())
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From f1e7e769997af0eeff33509da0934a53f9970376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:34 +0000
Subject: [PATCH 065/132] fix: do not fail to get the density of points with a
 sub-resolution

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 5b447b9..1c65e84 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -459,8 +459,8 @@ class Points(object):
         if not isinstance(ponderated, bool):
             raise TypeError()
         if isinstance(subres, int) and subres > 0:
-            subres = np.floor(subres/2)*2
-            subres2 = (subres)/2
+            subres = subres//2*2
+            subres2 = subres//2
         elif subres is None:
             pass
         else:
-- 
2.43.0


From 7a3e908d040b528de85eb84fb28dfb6c064b8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:50 +0000
Subject: [PATCH 066/132] fix: keep the orientations of the points when sorting
 or cutting them

---
 IMTreatment/core/orientedpoints.py | 56 ++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 0e7cce3..24cf81c 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -315,6 +315,62 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def cut(self, intervx=None, intervy=None):
+        """
+        Return a oriented points cloud where the given area has been removed.
+
+        Parameters
+        ----------
+        intervx : array, optional
+            Interval on x axis
+        intervy : array, optional
+            Interval on y axis
+
+        Returns
+        -------
+        tmp_pts : OrientedPoints object
+            Cutted version of the point cloud.
+        """
+        mask = np.ones(len(self.xy), dtype=bool)
+        if intervx is not None:
+            mask = np.logical_and(mask, self.xy[:, 0] > intervx[0])
+            mask = np.logical_and(mask, self.xy[:, 0] < intervx[1])
+        if intervy is not None:
+            mask = np.logical_and(mask, self.xy[:, 1] > intervy[0])
+            mask = np.logical_and(mask, self.xy[:, 1] < intervy[1])
+        tmp_pts = self.copy()
+        if np.any(mask):
+            tmp_pts.remove([int(i) for i in np.where(mask)[0]])
+        return tmp_pts
+
+    def sort(self, ref='x', inplace=False):
+        """
+        Sort the oriented points along a referential.
+
+        Parameters
+        ----------
+        ref : string or array of indice
+            Can be 'x', 'y' or 'v' to sort along those coordinates,
+            or an array of indice
+        inplace : boolean
+            If 'True', sort in place, else, return an new instance.
+
+        Returns
+        -------
+        tmp_pts : OrientedPoints object
+            Sorted points (only if 'inplace' is 'False')
+        """
+        tmp_pts = self if inplace else self.copy()
+        if isinstance(ref, STRINGTYPES) and ref in ['x', 'y', 'v']:
+            if ref == 'v' and len(self.v) == 0:
+                raise ValueError()
+            coord = {'x': self.xy[:, 0], 'y': self.xy[:, 1], 'v': self.v}[ref]
+            ref = np.argsort(coord)
+        pts.Points.sort(tmp_pts, ref=ref, inplace=True)
+        tmp_pts.orientations = tmp_pts.orientations[np.array(ref, dtype=int)]
+        if not inplace:
+            return tmp_pts
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
-- 
2.43.0


From 8e01ddda74f96854f3f6cef109f735c098c155af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:01 +0000
Subject: [PATCH 067/132] fix: do not fail to get the density of points in
 other units

---
 IMTreatment/core/points.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 1c65e84..7a7b857 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -526,6 +526,9 @@ class Points(object):
                 unit_values = self.unit_v/self.unit_x/self.unit_y
             else:
                 unit_values = 1/self.unit_x/self.unit_y
+            fact = unit_values.asNumber()
+            values = values*fact
+            unit_values = unit_values/fact
             sf.import_from_arrays(axe_x, axe_y, values, mask=False,
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=unit_values)
-- 
2.43.0


From 687a0035051891faf9505f3113758c2c14610335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:09 +0000
Subject: [PATCH 068/132] fix: get the extrema of the points masked in the
 first field

---
 IMTreatment/core/temporalscalarfields.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..de739d1 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -63,12 +63,15 @@ class TemporalScalarFields(tf.TemporalFields):
         result_f = self.fields[0].copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
+        values = result_f.values.copy()
         for field in self.fields[1::]:
-            new_min_mask = np.logical_and(field.values < result_f.values,
+            new_min_mask = np.logical_and(np.logical_or(field.values < values,
+                                                        mask_cum == 0),
                                           np.logical_not(field.mask))
-            result_f.values[new_min_mask] = field.values[new_min_mask]
+            values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum <= nmb_min
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
@@ -87,12 +90,15 @@ class TemporalScalarFields(tf.TemporalFields):
         result_f = self.fields[0].copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
+        values = result_f.values.copy()
         for field in self.fields[1::]:
-            new_max_mask = np.logical_and(field.values > result_f.values,
+            new_max_mask = np.logical_and(np.logical_or(field.values > values,
+                                                        mask_cum == 0),
                                           np.logical_not(field.mask))
-            result_f.values[new_max_mask] = field.values[new_max_mask]
+            values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum <= nmb_min
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From 344f706611f51bb94bdfd38740f665ad75dbe87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:21 +0000
Subject: [PATCH 069/132] fix: do not lose the background of constant points

---
 IMTreatment/core/temporalscalarfields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index de739d1..52ebd67 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -138,8 +138,11 @@ class TemporalScalarFields(tf.TemporalFields):
             old_std = 0
             mean = np.mean(vals, dtype=float)
             while True:
-                vals = vals[np.logical_and(vals > mean - std,
-                                           vals < mean + std)]
+                new_vals = vals[np.logical_and(vals > mean - std,
+                                               vals < mean + std)]
+                if len(new_vals) == 0:
+                    break
+                vals = new_vals
                 old_std = std
                 std = np.std(vals)
                 mean = np.mean(vals)
-- 
2.43.0


From 844482b0fd45c0dca5df809a1492d89faec42727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:33 +0000
Subject: [PATCH 070/132] fix: keep the phase maps along their axes

---
 IMTreatment/core/temporalscalarfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 52ebd67..ab117b5 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -285,14 +285,14 @@ class TemporalScalarFields(tf.TemporalFields):
         norm = sf.ScalarField()
         norm.import_from_arrays(axe_x=self.axe_x,
                                 axe_y=self.axe_y,
-                                values=norms.transpose(),
+                                values=norms,
                                 unit_x=self.unit_x,
                                 unit_y=self.unit_y,
                                 unit_values="")
         phase = sf.ScalarField()
         phase.import_from_arrays(axe_x=self.axe_x,
                                  axe_y=self.axe_y,
-                                 values=phases.transpose(),
+                                 values=phases,
                                  unit_x=self.unit_x,
                                  unit_y=self.unit_y,
                                  unit_values="rad")
-- 
2.43.0


From 230714c585168397845cab163f79ba4d5eda8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:45 +0000
Subject: [PATCH 071/132] fix: do not share the field interpolated at an
 existing time

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 2366d60..094f508 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -340,7 +340,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[self.times == time][0].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
-- 
2.43.0


From ddac215bd6497b38e8ebe06e9f5beed36eb7b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:15 +0000
Subject: [PATCH 072/132] fix: fill scalar series along time, without modifying
 the original

---
 IMTreatment/core/temporalscalarfields.py | 31 +++++++++---------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index ab117b5..4b18803 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -364,20 +364,22 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        tmp_tsf = self if inplace else self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tsf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tsf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting datas
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tsf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = tmp_tsf.get_time_profile('values', [i, j], ind=True)
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -397,32 +399,21 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
-                for ind_masked in prof.mask:
+                for ind_masked in np.where(prof.mask)[0]:
                     try:
-                        interp_val = interp(prof.x[prof.mask])
+                        interp_val = interp(prof.x[ind_masked])
                     except ValueError:
                         continue
-                    # putting interpolated value in the field
-                    fields[prof.mask].values[i, j] = interp_val
-                    fields[prof.mask].mask[i, j] = False
+                    # putting interpolated values in the field
+                    fields[ind_masked].mask[i, j] = False
+                    fields[ind_masked].values[i, j] = interp_val
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tsf = self.copy()
-                fields = tmp_tsf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tsf = self.copy()
-            tmp_tsf.fields = fields
+        if not inplace:
             return tmp_tsf
-- 
2.43.0


From 0888c5d15a85007f69940fa6a30d92b3ba686fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:25 +0000
Subject: [PATCH 073/132] fix: fill vector series along time, without modifying
 the original

---
 IMTreatment/core/temporalvectorfields.py | 27 ++++++++----------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..13cc4a3 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -288,23 +288,25 @@ class TemporalVectorFields(tf.TemporalFields):
         elif not isinstance(value, ARRAYTYPES):
             raise TypeError()
         value = np.array(value)
+        tmp_tvf = self if inplace else self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tvf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tvf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tvf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
                 # get time profiles
-                prof_x = self.get_time_profile(component='comp_x', pt=[i, j],
-                                               ind=True)
-                prof_y = self.get_time_profile(component='comp_y', pt=[i, j],
-                                               ind=True)
+                prof_x = tmp_tvf.get_time_profile(component='comp_x',
+                                                  pt=[i, j], ind=True)
+                prof_y = tmp_tvf.get_time_profile(component='comp_y',
+                                                  pt=[i, j], ind=True)
                 # getting masked position on profile
                 inds_masked_x = np.where(prof_x.mask)[0]
                 inds_masked_y = np.where(prof_y.mask)[0]
@@ -336,8 +338,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
@@ -358,19 +358,10 @@ class TemporalVectorFields(tf.TemporalFields):
                     fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tvf = self.copy()
-                fields = tmp_tvf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tvf = self.copy()
-            tmp_tvf.fields = fields
+        if not inplace:
             return tmp_tvf
-- 
2.43.0


From 5b99279dd9395cacd11f26038a880c1e71fe0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:11 +0000
Subject: [PATCH 074/132] fix: read each point at its own time in time profiles

---
 IMTreatment/core/temporalfields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 094f508..5850280 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -495,9 +495,11 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
+            inds = [0 if masked else np.where(pt.v == time)[0][0]
+                    for time, masked in zip(self.times, mask_times)]
             pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
                    self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
+                  for i in inds]
             pt = np.array(pt, dtype=int)
         if wanted_times is not None:
             if wanted_times[-1] <= wanted_times[0]:
@@ -513,7 +515,7 @@ class TemporalFields(flds.Fields, fld.Field):
         compo = np.empty(dim, dtype=float)
         masks = np.empty(dim, dtype=float)
         for i, time_ind in enumerate(w_times_ind):
-            ind_x, ind_y = pt[i]
+            ind_x, ind_y = pt[time_ind]
             compo[i] = self.fields[time_ind].__getattribute__(component)[ind_x,
                                                                          ind_y]
             masks[i] = self.fields[time_ind].mask[ind_x, ind_y]
-- 
2.43.0


From 93ebc0b0c6de4c2c7ae3cb8eca235ca66e8b0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:25 +0000
Subject: [PATCH 075/132] fix: compare the times of two series in the same unit

---
 IMTreatment/core/temporalfields.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5850280..8a798a7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -63,7 +63,7 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            if self.__has_same_times(other):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
@@ -80,6 +80,11 @@ class TemporalFields(flds.Fields, fld.Field):
         #     raise TypeError("cannot concatenate {} with"
         #                     " {}.".format(self.__class__, type(other)))
 
+    def __has_same_times(self, other):
+        fact = (other.unit_times/self.unit_times).asNumber(make_unit(''))
+        return (len(self) == len(other) and
+                bool(np.all(self.times == other.times*fact)))
+
     def __sub__(self, other):
         return self.__add__(-other)
 
@@ -96,7 +101,7 @@ class TemporalFields(flds.Fields, fld.Field):
             if not np.all(self.axe_x == other.axe_x) \
                     and np.all(self.axe_y == other.axe_y):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self.__has_same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
@@ -123,7 +128,7 @@ class TemporalFields(flds.Fields, fld.Field):
             if not np.all(self.axe_x == other.axe_x) \
                     and np.all(self.axe_y == other.axe_y):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self.__has_same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-- 
2.43.0


From 47104569d7243fc0d2a9bc78bd6935f67a14e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:07 +0000
Subject: [PATCH 076/132] fix: do not overflow when averaging fields of small
 integers

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 8a798a7..ba4b1bd 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -328,10 +328,10 @@ class TemporalFields(flds.Fields, fld.Field):
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum <= nmb_min
         result_f.mask = mask
-        result_f.change_dtype(dtype)
         fact = mask_cum
         fact[mask] = 1
         result_f /= fact
+        result_f.change_dtype(dtype)
         result_f.xy_scale = self.fields[0].xy_scale
         return result_f
 
-- 
2.43.0


From 444d3ffaa7dc8656734d67be1b4f0e06882f969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:41 +0000
Subject: [PATCH 077/132] fix: convert the gradients along y to consistent
 units when reconstructing a field

---
 IMTreatment/field_treatment/field_treatment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index e70619a..b8c2f90 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -233,6 +233,8 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
         unit_values = field_dx.unit_values*field_dx.unit_x
         fact_unit_values = unit_values.asNumber()
         unit_values /= unit_values.asNumber()
+        unit_values_y = field_dy.unit_values*field_dy.unit_y
+        du_dy = du_dy*(unit_values_y.asNumber(unit_values)/fact_unit_values)
 
         ###  Getting borders
         # 1 (0, 0)
-- 
2.43.0


From f569115160c5b4aa09a0425d66b821561781c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:34 +0000
Subject: [PATCH 078/132] fix: extrapolate until an upper wall, and not further

---
 IMTreatment/field_treatment/field_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index b8c2f90..0576b56 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -1190,7 +1190,7 @@ def extrapolate_until_wall(field, direction='x', position=0.,
             ext_field.extend(nmb_down=np.int((axe_y[0] - position)/dy),
                              inplace=True)
         else:
-            ext_field.extend(nmb_up=np.int((position - axe_y[1])/dy),
+            ext_field.extend(nmb_up=np.int((position - axe_y[-1])/dy),
                              inplace=True)
     # ScalarField
     if isinstance(field, ScalarField):
-- 
2.43.0


From d8c34360e18630d9d3d037b852c6e9a08047bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:05 +0000
Subject: [PATCH 079/132] fix: use the mean velocity of the surrounding points
 in kappa2

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 726c37d..a564a51 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -491,8 +491,8 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
         if kind == 'kappa2':
             nmbpts = len(indsaround)
             for indaround in indsaround:
-                v_mean[0] += Vx[ind_x, ind_y]
-                v_mean[1] += Vy[ind_x, ind_y]
+                v_mean[0] += Vx[indaround[0], indaround[1]]
+                v_mean[1] += Vy[indaround[0], indaround[1]]
             v_mean[0] /= nmbpts
             v_mean[1] /= nmbpts
         # Loop on neighbouring points
-- 
2.43.0


From 93ee2c5ebecb2d6f8f1889d87c089285263bb94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:17 +0000
Subject: [PATCH 080/132] fix: subtract the local y velocity in angle
 deviations

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index a564a51..1f9e355 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -124,7 +124,7 @@ def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
             tmp_Vx = vectorfield.comp_x[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vy = vectorfield.comp_y[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vx -= vectorfield.comp_x[ind_x, ind_y]
-            tmp_Vy -= vectorfield.comp_x[ind_x, ind_y]
+            tmp_Vy -= vectorfield.comp_y[ind_x, ind_y]
             angles = _get_angles(tmp_Vx, tmp_Vy)
         # getting neightbour angles repartition
         angles = np.sort(angles)
-- 
2.43.0


From a96ded2466d8c91c5ff003bd49bd043476cfb194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:36 +0000
Subject: [PATCH 081/132] fix: return the whole array of lambda2

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 1f9e355..3c00c50 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1283,7 +1283,7 @@ def get_lambda2(vectorfield, mask=None, raw=False):
             lambda2[i, j] = l2
     # returning
     if raw:
-        return np.ma.masked_array(l2, mask)
+        return np.ma.masked_array(lambda2, mask)
     else:
         lambd_sf = ScalarField()
         axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
-- 
2.43.0


From 0186090603b00361abacdf1ca7a309424c59c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:56 +0000
Subject: [PATCH 082/132] fix: halve the shear rate too in the Q criterion

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 3c00c50..9ce0c3c 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1104,7 +1104,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    qcrit = .5*(norm_rot2) - norm_shear2
+    qcrit = .5*(norm_rot2 - norm_shear2)
     unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
     scale = unit_values.asNumber()
     qcrit *= scale
@@ -1204,7 +1204,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    Q = .5*(norm_rot2) - norm_shear2
+    Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
-- 
2.43.0


From 650912e1c59343e0a66e34f2d01d9830c3ed3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:14 +0000
Subject: [PATCH 083/132] fix: divide the circulation by the area of the window
 in stokes vorticity

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 9ce0c3c..6215dd6 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -944,7 +944,7 @@ def get_stokes_vorticity(vf, window_size=2, raw=False):
             bord_vec = -Vx[i:i + window_size, j + window_size - 1].copy()
             tmp_vort += np.trapz(bord_vec, dx=dx)
             # adding coefficients
-            tmp_vort *= 1./(dx*dy*window_size**2)
+            tmp_vort *= 1./(dx*dy*(window_size - 1)**2)
             # storing
             vort[i, j] = tmp_vort
     # returning
-- 
2.43.0


From 05fd2f98e5e171f1ac173fb022f284b523ffd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:33 +0000
Subject: [PATCH 084/132] fix: take the given mask into account in iota

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 6215dd6..29683a2 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -591,7 +591,7 @@ def get_iota(vectorfield, mask=None, radius=None, ind=False, raw=False):
     theta_y[filty] = theta2_y[filty]
     iota = 1/2.*np.sqrt(theta_x**2 + theta_y**2)
     # getting mask
-    maskf = np.logical_or(vectorfield.mask, np.isnan(iota))
+    maskf = np.logical_or(mask, np.isnan(iota))
     # returning
     if raw:
         return np.ma.masked_array(iota, maskf)
-- 
2.43.0


From 24c9bfecb9e14fcede98f6089508be0b1ae0d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:09 +0000
Subject: [PATCH 085/132] fix: do not count the central point when the radius
 is given in axis units

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 29683a2..28d24d4 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -700,11 +700,11 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
     if ind:
         motif = vectorfield.get_points_around(indcentral, radius, ind)
         motif = motif - indcentral
-        motif = np.delete(motif, int(len(motif)/2), axis=0)
     else:
         ptcentral = [axe_x[indcentral[0]], axe_y[indcentral[1]]]
         motif = vectorfield.get_points_around(ptcentral, radius, ind)
         motif = motif - indcentral
+    motif = motif[np.any(motif != 0, axis=1)]
     nmbpts = len(motif)
     # Generating masks
     # creating surrounding masked point zone mask
-- 
2.43.0


From 2e8364d802d6e8d2e60c6c7a555b7b93949fc21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:24 +0000
Subject: [PATCH 086/132] fix: mask the borders according to the used points
 when the axes have different steps

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 28d24d4..e2b5f74 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -728,11 +728,11 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
         border_x, border_y = np.meshgrid(border_x, border_y)
         mask_border = np.transpose(np.logical_or(border_x, border_y))
     else:
-        delta = (axe_x[1] - axe_x[0] + axe_y[1] - axe_y[0])/2
-        border_x = np.logical_or(axe_x <= axe_x[0] + (radius - delta),
-                                 axe_x >= axe_x[-1] - (radius - delta))
-        border_y = np.logical_or(axe_y <= axe_y[0] + (radius - delta),
-                                 axe_y >= axe_y[-1] - (radius - delta))
+        indx = np.arange(len(axe_x))
+        indy = np.arange(len(axe_y))
+        border = np.max(np.abs(motif)) if nmbpts > 0 else 0
+        border_x = np.logical_or(indx < border, indx > indx[-1] - border)
+        border_y = np.logical_or(indy < border, indy > indy[-1] - border)
         border_x, border_y = np.meshgrid(border_x, border_y)
         mask_border = np.transpose(np.logical_or(border_x, border_y))
     # creating dev mask
-- 
2.43.0


From 60549e5193fa1a86bea491a068582cb4f7fefd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:58 +0000
Subject: [PATCH 087/132] fix: mask the Q and Nk criteria where the gradients
 are masked

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index e2b5f74..94bbc13 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1105,6 +1105,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
     qcrit = .5*(norm_rot2 - norm_shear2)
+    mask = np.logical_or(mask, qcrit.mask)
     unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
     scale = unit_values.asNumber()
     qcrit *= scale
@@ -1157,6 +1158,7 @@ def get_Nk_criterion(vectorfield, mask=None, raw=False):
     norm_rot = 1./2.**.5*np.abs(Exy - Eyx)
     norm_shear = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)**.5
     Nkcrit = norm_rot/norm_shear
+    mask = np.logical_or(mask, Nkcrit.mask)
     unit_values = make_unit('')
     if raw:
         return np.ma.masked_array(Nkcrit, mask)
-- 
2.43.0


From d957a285b6dddde92d6a10ec40ee49de48272de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:11 +0000
Subject: [PATCH 088/132] fix: do not fail to compute swirling strengths near
 masked points

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 94bbc13..b52ebe2 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -989,6 +989,7 @@ def get_swirling_strength(vf, raw=False):
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     mask = tmp_vf.mask
     du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    mask = np.logical_or(mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
-- 
2.43.0


From ccdd1091c1edcdb407a0aa7ba1d5a4f10a2e4fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:31 +0000
Subject: [PATCH 089/132] fix: fill the field before computing the improved
 swirling strength

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index b52ebe2..6e32248 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1037,7 +1037,7 @@ def get_improved_swirling_strength(vf, raw=False):
     if not isinstance(vf, VectorField):
         raise TypeError()
     tmp_vf = vf.copy()
-    tmp_vf.fill()
+    tmp_vf.fill(inplace=True)
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
-- 
2.43.0


From 07af2b9ba02f502940c256bcd3cd39012d863f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:01 +0000
Subject: [PATCH 090/132] fix: do not share the custom fields between vortex
 systems

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 9c13636..5c281cf 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -732,6 +732,7 @@ class VortexSystem(object):
         """
         if not isinstance(custfield, CustomField):
             raise TypeError()
+        custfield = custfield.copy()
         custfield.id = self.curr_cf_id
         self.curr_cf_id += 1
         self.custfields.append(custfield)
-- 
2.43.0


From 09359ae1c957b8d85bba36fd07e6b91040a3b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:15 +0000
Subject: [PATCH 091/132] fix: refresh the image vortices before returning
 their contributions

---
 IMTreatment/vortex_creation/vortex_creation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 5c281cf..bb91d71 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -893,6 +893,9 @@ class VortexSystem(object):
         cf_ids : Mx1 array of integer
             Associated id
         """
+        # refresh if necessary
+        if self.to_refresh:
+            self.refresh_imaginary_vortex()
         vects = []
         vects_cf = []
         if detailed:
-- 
2.43.0


From a1a38840a6794b09ffd5098cd1fbc8b9e8e4a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:28 +0000
Subject: [PATCH 092/132] fix: update the number of vortices when removing one

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index bb91d71..4123fc3 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -765,6 +765,7 @@ class VortexSystem(object):
                 self.im_vortex[i].id -= 1
         # adapt current id
         self.curr_id -= 1
+        self.nmb_vortex -= 1
 
     def display(self):
         """
-- 
2.43.0


From f05f9a3cab5cb8fb72ddbbdda5d2db819b12e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:39 +0000
Subject: [PATCH 093/132] fix: radial velocity outside of Lamb-Chaplygin
 vortices

---
 IMTreatment/vortex_creation/vortex_creation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 4123fc3..f555cf1 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -468,7 +468,7 @@ class LambChaplyginVortex(Vortex):
             Vr = -2*self.U/(r*k*jn(0, k*self.rv))*jn(1, k*r)*np.cos(theta)
             Vphi = 2*self.U/(jn(0, k*self.rv))*np.sin(theta)*J1_p
         else:
-            Vr = -self.U*(r - self.rv**2/r)*np.cos(theta)
+            Vr = -self.U*(1 - self.rv**2/r**2)*np.cos(theta)
             Vphi = +self.U*(1 + self.rv**2/r**2)*np.sin(theta)
         # get velocity in the cartesian refenrentiel
         Vx, Vy = self._cyl_to_cart(theta, Vr, Vphi)
-- 
2.43.0


From 6dc7617e9b68597ae93fc51ba8b22b3bff63854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:51 +0000
Subject: [PATCH 094/132] fix: velocity at the center of Lamb-Chaplygin
 vortices

---
 IMTreatment/vortex_creation/vortex_creation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index f555cf1..6a22210 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -463,7 +463,10 @@ class LambChaplyginVortex(Vortex):
         # compute Bessel root number
         k = jn_zeros(1, self.Bessel_root_nmb)[-1]/self.rv
         # compute stream function
-        if r < self.rv:
+        if r == 0:
+            Vr = -self.U/jn(0, k*self.rv)
+            Vphi = 0
+        elif r < self.rv:
             J1_p = (jn(2, k*r) - jn(0, k*r))/(-2)
             Vr = -2*self.U/(r*k*jn(0, k*self.rv))*jn(1, k*r)*np.cos(theta)
             Vphi = 2*self.U/(jn(0, k*self.rv))*np.sin(theta)*J1_p
-- 
2.43.0


From 8df4904f9a11cce8ef5a886bf895d5d97c3f698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:57 +0000
Subject: [PATCH 095/132] fix: turbulent profiles of Blasius boundary layers

---
 IMTreatment/boundary_layer/boundary_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ae9be9a..5a55361 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -241,12 +241,12 @@ class BlasiusBL(object):
             u = u_over_U*self.Uinf
         # Turbulent case
         else:
-            delta, _, _ = self.get_thickness(x, allTurbulent=True)
+            delta = self.get_BL_properties(x, allTurbulent=True)[0][0]
             if y is None:
                 theta = np.linspace(0, 10, 200)
-                y = theta*delta.y[0]
+                y = theta*delta
             else:
-                theta = y/delta.y[0]
+                theta = y/delta
             u_over_U = np.power(theta, 1./7.)
             u_over_U[theta > 1] = 1.
             u = u_over_U*self.Uinf
-- 
2.43.0


From 9fec4c8520c3767635b5b9ae1c4719b1ae749c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:14 +0000
Subject: [PATCH 096/132] fix: Clauser's thickness of fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 5a55361..c2e99df 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -898,8 +898,8 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
             axe = obj.axe_y
         profiles = [obj.get_profile(direction, x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
-                                        nu=nu)
-                  for prof, _ in profiles]
+                                        nu=nu, tau=tau)
+                  for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
 
 
-- 
2.43.0


From 0140ab1490c0b7b87504c618624009403dbdeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:59 +0000
Subject: [PATCH 097/132] fix: masked points in the boundary layer thicknesses

---
 IMTreatment/boundary_layer/boundary_layer.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index c2e99df..bd05973 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -929,10 +929,8 @@ def get_displ_thickness(obj, direction=1):
             return 0
         obj = obj.crop([0, bl_thick])
         # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        mask = np.logical_or(obj.mask, obj.x < 0)
+        obj = Profile(obj.x[~mask], obj.y[~mask])
         # if there is no more value in the profile (all masked)
         if len(obj.x) == 0:
             return 0
@@ -986,10 +984,8 @@ def get_momentum_thickness(obj, direction=1):
             return 0
         obj = obj.crop([0, bl_thick])
         # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        mask = np.logical_or(obj.mask, obj.x < 0)
+        obj = Profile(obj.x[~mask], obj.y[~mask])
         # if there is no more profile (all masked)
         if len(obj.x) == 0:
             return 0
-- 
2.43.0


From eaac2102b10c6023306d874aeac028cf95504db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:43 +0000
Subject: [PATCH 098/132] fix: unit of the shear stress fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index bd05973..38db0e0 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1141,19 +1141,17 @@ def get_shear_stress(obj, direction=1, method='simple',
         # get shear stresses
         values = np.zeros(obj.shape)
         for i in range(len(profiles)):
+            tau_prof = get_shear_stress(profiles[i], direction=1,
+                                        method=method, respace=False,
+                                        tau_w_guess=tau_w_guess,
+                                        rho=rho, nu=nu)
             if direction == 1:
-                values[i, :] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[i, :] = tau_prof.y
             else:
-                values[:, i] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[:, i] = tau_prof.y
         # returning
         mask = np.isnan(values)
-        unit_values = profiles[0].unit_y
+        unit_values = tau_prof.unit_y
         tau_w = ScalarField()
         tau_w.import_from_arrays(obj.axe_x, obj.axe_y, values, mask=mask,
                                  unit_x=obj.unit_x, unit_y=obj.unit_y,
-- 
2.43.0


From bee96c9ab1000b1c2a2726efef6ecce93011e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 099/132] fix: separation points near the walls inside or at
 the end of fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 38db0e0..57e518b 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1213,7 +1213,7 @@ def get_separation_position(obj, wall_direction, wall_position,
         # checking masked values
         if np.any(obj.mask):
             warnings.warn("I can give weird results if masked values remains")
-        V = obj.values_as_sf
+        V = obj
         if wall_direction == 1:
             axe = axe_x
         else:
@@ -1240,7 +1240,8 @@ def get_separation_position(obj, wall_direction, wall_position,
             pts.append(get_separation_position(field,
                                                wall_direction=wall_direction,
                                                wall_position=wall_position,
-                                               interval=interval))
+                                               interval=interval,
+                                               nmb_lines=nmb_lines))
         return Profile(times, pts, unit_x=obj.unit_times,
                        unit_y=unit_axe)
     else:
@@ -1251,17 +1252,12 @@ def get_separation_position(obj, wall_direction, wall_position,
     if wall_position < axe[0]:
         lines_pos = axe[0:nmb_lines]
     elif wall_position > axe[-1]:
-        lines_pos = axe[-nmb_lines-1:-1]
+        lines_pos = axe[-nmb_lines:]
     else:
         inds = V.get_indice_on_axe(wall_direction, wall_position)
-        if len(inds) == 1:
-            inds = [inds[0], inds[0] + 1]
-        if inds[0] - nmb_lines/2 < 0:
-            lines_pos = axe[0:nmb_lines]
-        elif inds[-1] + nmb_lines/2 > len(axe):
-            lines_pos = axe[-nmb_lines-1:-1]
-        else:
-            lines_pos = axe[inds[0] - nmb_lines/2:inds[1] + nmb_lines/2]
+        start = inds[0] - nmb_lines//2 + 1
+        start = max(0, min(start, len(axe) - nmb_lines))
+        lines_pos = axe[start:start + nmb_lines]
     # Getting separation points on surrounding lines
     seps = np.array([])
     new_lines_pos = np.array([])
-- 
2.43.0


From 3d2bd7fd9aa0d38f137c04cd0095698f7822eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:53 +0000
Subject: [PATCH 100/132] fix: boundary layer functions on fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 57e518b..ec5f418 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -846,7 +846,7 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -896,7 +896,7 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
                                         nu=nu, tau=tau)
                   for prof in profiles]
@@ -950,7 +950,7 @@ def get_displ_thickness(obj, direction=1):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -1005,7 +1005,7 @@ def get_momentum_thickness(obj, direction=1):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -1136,7 +1136,7 @@ def get_shear_stress(obj, direction=1, method='simple',
         else:
             axe = obj.axe_y
         # get profiles
-        profiles = [obj.get_profile(direction, pos_ind, ind=True)
+        profiles = [obj.get_profile('xy'[direction - 1], pos_ind, ind=True)
                     for pos_ind in range(len(axe))]
         # get shear stresses
         values = np.zeros(obj.shape)
@@ -1263,7 +1263,7 @@ def get_separation_position(obj, wall_direction, wall_position,
     new_lines_pos = np.array([])
     for lp in lines_pos:
         # extraction one line
-        tmp_profile = V.get_profile(wall_direction, lp)
+        tmp_profile = V.get_profile('xy'[wall_direction - 1], lp)
         # getting the velocity sign changment on the line
         values = tmp_profile.get_interpolated_values(y=0)
         values = np.array(values)
-- 
2.43.0


From d68aedcbde169020fafb78248d3b3d2d6affd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:06 +0000
Subject: [PATCH 101/132] fix: units of the boundary layer thicknesses along y

---
 IMTreatment/boundary_layer/boundary_layer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ec5f418..79b9948 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -848,7 +848,9 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
             axe = obj.axe_y
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        if direction == 1:
+            return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=obj.unit_y, unit_y=obj.unit_x)
     else:
         raise TypeError("Can't compute (yet ?) BL thickness on this kind of"
                         " data : {}".format(type(obj)))
@@ -900,7 +902,9 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
                                         nu=nu, tau=tau)
                   for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        if direction == 1:
+            return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=obj.unit_y, unit_y=obj.unit_x)
 
 
 def get_displ_thickness(obj, direction=1):
@@ -952,7 +956,9 @@ def get_displ_thickness(obj, direction=1):
             axe = obj.axe_y
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        if direction == 1:
+            return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=obj.unit_y, unit_y=obj.unit_x)
     else:
         raise TypeError("Can't compute (yet ?) BL displacement thickness on"
                         "this kind of data : {}".format(type(obj)))
@@ -1007,7 +1013,9 @@ def get_momentum_thickness(obj, direction=1):
             axe = obj.axe_y
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        if direction == 1:
+            return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=obj.unit_y, unit_y=obj.unit_x)
     else:
         raise TypeError("Can't compute (yet ?) BL momentum thickness on"
                         "this kind of data")
-- 
2.43.0


From 2ac3ca23577187687214bc025088661041fe3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 102/132] fix: radius of clockwise vortices and of points that
 are in no vortex

---
 .../vortex_properties/vortex_properties.py    | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 573888c..04e6b30 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -76,20 +76,28 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
     # getting the ~initial maximum vorticity of the zone
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
-    max_vort = vort.values[ind_x, ind_y]
+    values = vort.values
+    if values[ind_x, ind_y] < 0:
+        values = -values
+    max_vort = values[ind_x, ind_y]
     # getting zone around point
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
-    zone_number = zones[ind_x, ind_y]
-    # getting the real maximum vorticity
-    max_vort = np.max(vort.values[zones == zone_number])
-    # getting the real zones
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
+    zones, nmb_zones = msr.label(values > eps_detection*max_vort)
     zone_number = zones[ind_x, ind_y]
+    if zone_number != 0:
+        # getting the real maximum vorticity
+        max_vort = np.max(values[zones == zone_number])
+        # getting the real zones
+        zones, nmb_zones = msr.label(values > eps_detection*max_vort)
+        zone_number = zones[ind_x, ind_y]
     # getting the zone area and radius
-    area = np.sum(zones == zone_number)*dx*dy
-    radius = (area/np.pi)**.5
+    if zone_number == 0:
+        radius = 0.
+        center = np.array(vort_center, dtype=float)
+    else:
+        area = np.sum(zones == zone_number)*dx*dy
+        radius = (area/np.pi)**.5
     # getting the new center
-    if output_center:
+    if output_center and zone_number != 0:
         center = np.array(msr.center_of_mass(np.abs(vort.values),
                                              zones == zone_number))
         center[0] = VF.axe_x[0] + center[0]*dx
-- 
2.43.0


From 63e260a9c9b59d0a3bf7e92f89bc99c0aed43626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:28 +0000
Subject: [PATCH 103/132] fix: unit of the vortex radii

---
 IMTreatment/vortex_properties/vortex_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 04e6b30..42c92f2 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -104,7 +104,7 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
         center[1] = VF.axe_y[0] + center[1]*dy
     # optional computed unit
     if output_unit:
-        unit_radius = (VF.unit_x**2 + VF.unit_y**2)**.5
+        unit_radius = VF.unit_x.copy()
     # return
     if not output_unit and not output_center:
         return radius
-- 
2.43.0


From 5483e4f555b204d9a1d3e35459aec1dc96b053f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:06 +0000
Subject: [PATCH 104/132] fix: properties of vortices centered on a grid point

---
 IMTreatment/vortex_properties/vortex_properties.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 42c92f2..4e9374e 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -257,9 +257,6 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
     unit_int = prop_crit.unit_values*prop_crit.unit_x*prop_crit.unit_y
-    # check if value is positive at the vortex center
-    if VF.magnitude[ind_x, ind_y] <= 0:
-        raise ValueError()
     # get first guess vortex zone (use value at center as a predica of
     #    the maxima)
     tmp_maxi = size_crit.values[ind_x, ind_y]
-- 
2.43.0


From 14fb0e7e4181cd8b6f811c9b42f3afdc3c3654ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:41 +0000
Subject: [PATCH 105/132] fix: properties of points at the border of vortices

---
 IMTreatment/vortex_properties/vortex_properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 4e9374e..51d0eb4 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -274,6 +274,11 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     vort_zones = size_crit.values > size_crit_maxi*size_crit_lim
     vort_zones_labs, _ = msr.label(vort_zones)
     lab = vort_zones_labs[ind_x, ind_y]
+    if lab == 0:
+        if output_unit:
+            return 0, unit_int
+        else:
+            return 0
     # get prop_crit integral along zone
     tmp_prop_crit = prop_crit.values.copy()
     tmp_prop_crit[lab != vort_zones_labs] = 0.
-- 
2.43.0


From 787b52ba271ff708c98832135ee73a088cf55a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:15 +0000
Subject: [PATCH 106/132] fix: trajectory linking distance of critical points

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index bb42f88..6b02af4 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1736,7 +1736,7 @@ class CritPoints(object):
                         = np.unravel_index(np.argmin(dist2_mat),
                                            dist2_mat.shape)
                     # if dist to big or nothing remaining, we stop
-                    if (dist2_mat[indmin_pt, indmin_line] > epsilon or
+                    if (dist2_mat[indmin_pt, indmin_line] > self.epsilon2 or
                             dist2_mat[indmin_pt, indmin_line] == np.inf):
                         break
                     # append pt to Line
-- 
2.43.0


From e6a529eea75d922befa6d8b6b80cbcb66d06ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:33 +0000
Subject: [PATCH 107/132] fix: clear the trajectories of modified critical
 points

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 6b02af4..61af616 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1556,8 +1556,8 @@ class CritPoints(object):
         This method is called when some points are modified (deleted or added).
         """
         self.current_epsilon = None
-        for i in range(len(self.iter_traj)):
-            self.iter_traj[i] = None
+        for cp_type in self.cp_types:
+            self.__setattr__("{}_traj".format(cp_type), None)
 
     def _remove_void_trajectories(self):
         """
-- 
2.43.0


From e3ca6f10177f748057fd13e5e46dfceeab92bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:45 +0000
Subject: [PATCH 108/132] fix: adding an empty set of critical points

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 61af616..8496b48 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -469,9 +469,9 @@ class CritPoints(object):
     def __add__(self, obj):
         if isinstance(obj, CritPoints):
             if len(obj.times) == 0:
-                return self
+                return self.copy()
             if len(self.times) == 0:
-                return obj
+                return obj.copy()
             if not self.unit_time == obj.unit_time:
                 raise ValueError()
             if not self.unit_x == obj.unit_x:
-- 
2.43.0


From 19ac252f335c0d68b89a355eb34b0a92a5ef6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:58 +0000
Subject: [PATCH 109/132] fix: origin and time unit of critical points without
 trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 8496b48..20b08e0 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1204,6 +1204,8 @@ class CritPoints(object):
             for pt in pts:
                 pt.set_origin(x=x, y=y)
         for trajs in self.iter_traj:
+            if trajs is None:
+                continue
             for traj in trajs:
                 traj.set_origin(x=x, y=y)
 
@@ -1241,10 +1243,14 @@ class CritPoints(object):
         elif axe == 'time':
             for kind in self.iter:
                 for pt in kind:
-                    pt.change_unit('v', new_unit)
+                    if len(pt.v) == 0:
+                        pt.unit_v = new_unit
+                    else:
+                        pt.change_unit('v', new_unit)
             for kind in self.iter_traj:
-                for pt in kind:
-                    pt.change_unit('v', new_unit)
+                if kind is not None:
+                    for pt in kind:
+                        pt.change_unit('v', new_unit)
             old_unit = self.unit_time
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-- 
2.43.0


From 676181d54fe5686a207aa776e79577d19794ecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:46 +0000
Subject: [PATCH 110/132] fix: time unit of the trajectories of critical points

---
 IMTreatment/vortex_detection/vortex_detection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 20b08e0..8a48b73 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -626,30 +626,35 @@ class CritPoints(object):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             focs = np.append(focs, pts.decompose())
         focs_c = np.array([])
         for i, pts in enumerate(self.foc_c):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             focs_c = np.append(focs_c, pts.decompose())
         nodes_i = np.array([])
         for i, pts in enumerate(self.node_i):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             nodes_i = np.append(nodes_i, pts.decompose())
         nodes_o = np.array([])
         for i, pts in enumerate(self.node_o):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             nodes_o = np.append(nodes_o, pts.decompose())
         sadds = np.array([])
         for i, pts in enumerate(self.sadd):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             sadds = np.append(sadds, pts.decompose())
         # getting trajectories
         self.foc_traj = self._get_cp_time_evolution(focs, times=self.times,
-- 
2.43.0


From 957933f3104e5cda63da733ecf8b643b1c267548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:01 +0000
Subject: [PATCH 111/132] fix: time cropping of critical points

---
 .../vortex_detection/vortex_detection.py       | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 8a48b73..a5b6456 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1336,6 +1336,8 @@ class CritPoints(object):
             if ind:
                 filt = np.zeros(shape=(len(tmp_cp.times)), dtype=bool)
                 filt[intervt[0]:intervt[1]] = True
+                intervt = [np.min(tmp_cp.times[filt], initial=np.inf),
+                           np.max(tmp_cp.times[filt], initial=-np.inf)]
             else:
                 filt = np.logical_and(tmp_cp.times >= intervt[0],
                                       tmp_cp.times <= intervt[1])
@@ -1345,10 +1347,12 @@ class CritPoints(object):
             tmp_cp.sadd = tmp_cp.sadd[filt]
             tmp_cp.node_i = tmp_cp.node_i[filt]
             tmp_cp.node_o = tmp_cp.node_o[filt]
-            for traj_type in self.iter_traj:
-                [traj.crop(intervv=intervt, ind=ind, inplace=True)
+            for traj_type in tmp_cp.iter_traj:
+                if traj_type is None:
+                    continue
+                [traj.crop(intervv=intervt, inplace=True)
                  for traj in traj_type]
-            self._remove_void_trajectories()
+            tmp_cp._remove_void_trajectories()
         # spatial cropping
         if intervx is not None or intervy is not None:
             for kind in tmp_cp.iter:
@@ -1577,8 +1581,12 @@ class CritPoints(object):
         for traj_type in self.cp_types:
             traj_type = "{}_traj".format(traj_type)
             trajs = self.__getattribute__(traj_type)
-            filt = np.array([len(traj) != 0 for traj in trajs])
-            self.__setattr__(traj_type, trajs[filt])
+            if trajs is None:
+                continue
+            trajs = [traj for traj in trajs if len(traj) != 0]
+            if len(trajs) > 1:
+                trajs = np.asarray(trajs)
+            self.__setattr__(traj_type, trajs)
 
     def _sort_by_time(self):
         """
-- 
2.43.0


From 04bb6d60d177d07d7b5cfd1fd8e59a57c82afcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:19 +0000
Subject: [PATCH 112/132] fix: topological simplification of critical points

---
 IMTreatment/vortex_detection/vortex_detection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index a5b6456..7a79bd4 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2181,7 +2181,7 @@ class TopoPoints(object):
             raise ValueError()
         if xy.shape[1] != 2:
             raise ValueError()
-        if not xy.shape[0] != types.shape:
+        if xy.shape[0] != types.shape[0]:
             raise ValueError()
         # storing
         self.xy = xy
@@ -2204,7 +2204,7 @@ class TopoPoints(object):
         # check params
         if not isinstance(CP_obj, CritPoints):
             raise TypeError()
-        if not isinstance(wanted_ind, int):
+        if not isinstance(wanted_ind, (int, np.integer)):
             raise TypeError()
         if wanted_ind > len(CP_obj.foc) - 1:
             raise ValueError()
@@ -2216,7 +2216,7 @@ class TopoPoints(object):
             for pt in typ[wanted_ind].xy:
                 xy.append(pt)
                 types.append(i + 1)
-        self.import_from_arrays(xy, types)
+        self.import_from_arrays(np.reshape(xy, (-1, 2)), types)
 
     def _get_dist2(self):
         # initialize array
@@ -2263,7 +2263,7 @@ class TopoPoints(object):
         types = [[typ] for typ in types]
         pbis = self.pbis.copy()
         # simplication loop
-        while True:
+        while self.dim != 0:
             # get min position
             amin = np.argmin(dist2)
             ind_1 = int(amin/self.dim)
-- 
2.43.0


From 08f7caa00c9d980bc0d9977065a7f757fd09f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:03 +0000
Subject: [PATCH 113/132] fix: linking distance of critical points in another
 unit

---
 IMTreatment/vortex_detection/vortex_detection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 7a79bd4..10210d9 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -612,11 +612,10 @@ class CritPoints(object):
         elif isinstance(epsilon, NUMBERTYPES):
             pass
         elif isinstance(epsilon, unum.Unum):
-            fact = epsilon/self.unit_x
-            unit_fact = fact.strUnit()
-            if unit_fact != '[]':
+            try:
+                epsilon = epsilon.asNumber(self.unit_x)
+            except unum.IncompatibleUnitsError:
                 raise ValueError()
-            epsilon = fact.asNumber()
         else:
             raise TypeError()
         self.current_epsilon = epsilon
-- 
2.43.0


From b4f2fa04d64b0bb1b8a32e9bb778268448b61373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:50 +0000
Subject: [PATCH 114/132] fix: critical points in cells where a point has
 opposite components

---
 IMTreatment/vortex_detection/vortex_detection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 10210d9..be3276f 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -233,11 +233,12 @@ class VF(object):
                 res_pos = pos
                 return pos
             # check if null values
-            nmb_zeros = np.sum(Vx_bl + Vy_bl == 0)
+            zeros = np.logical_and(Vx_bl == 0, Vy_bl == 0)
+            nmb_zeros = np.sum(zeros)
             if nmb_zeros == 1:
-                inds = np.array(np.where(Vx_bl + Vy_bl == 0)).reshape(2)
-                res_pos = np.array([axe_x[ind_x + inds[0]],
-                                    axe_y[ind_y + inds[1]]])
+                inds = np.array(np.where(zeros)).reshape(2)
+                res_pos = np.array([axe_x[ind_x + inds[1]],
+                                    axe_y[ind_y + inds[0]]])
                 return res_pos
             elif nmb_zeros > 1:
                 res_pos = pos
-- 
2.43.0


From c3de91247dae57d6a64839b6ac220780381f8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:03 +0000
Subject: [PATCH 115/132] fix: position of the critical points of linear fields

---
 .../vortex_detection/vortex_detection.py       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index be3276f..6fbb080 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -285,13 +285,23 @@ class VF(object):
                     x_sols[j] = x_sols[j].as_real_imag()[0]
                 if np.iscomplex(y_sols[j]):
                     y_sols[j] = y_sols[j].as_real_imag()[0]
-                if (x_sols[j] < 0 or x_sols[j] > real_dx or
-                        y_sols[j] < 0 or y_sols[j] > real_dy):
+                if not (0 <= x_sols[j] <= real_dx and
+                        0 <= y_sols[j] <= real_dy):
                     continue
                 tmp_sol.append([x_sols[j], y_sols[j]])
-            # if no more points
-            if len(tmp_sol) == 0:
+            # if no more points (or linear field), use the linear approximation
+            cross = [np.abs(V[0, 0] - V[0, 1] - V[1, 0] + V[1, 1])
+                     for V in [Vx_bl, Vy_bl]]
+            if (len(tmp_sol) == 0 or
+                    np.max(cross) <= 1e-10*np.max(np.abs([Vx_bl, Vy_bl]))):
+                jac = _get_jacobian_matrix(Vx_bl, Vy_bl, real_dx, real_dy)
                 res_pos = np.array([tmp_x, tmp_y])
+                if np.linalg.det(jac) != 0:
+                    mean_v = np.array([np.mean(Vx_bl), np.mean(Vy_bl)])
+                    shift = np.linalg.solve(jac, mean_v)
+                    if (np.abs(shift[0]) <= real_dx/2. and
+                            np.abs(shift[1]) <= real_dy/2.):
+                        res_pos = res_pos - shift
             # if multiple points
             elif len(tmp_sol) != 1:
                 tmp_sol = np.array(tmp_sol)
-- 
2.43.0


From ee50bab3bff3c2201e1a2d6ebeffc57225bc1037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 116/132] fix: do not smooth the field given to
 get_critical_points

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 6fbb080..84ea624 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2746,7 +2746,8 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
             tmp_vf = obj
         # smoothing if necessary
         if smoothing_size != 0:
-            tmp_vf.smooth(tos='gaussian', size=smoothing_size, inplace=True)
+            tmp_vf = tmp_vf.smooth(tos='gaussian', size=smoothing_size,
+                                   inplace=False)
         # get cp positions
         if kind == 'pbi':
             res = _get_cp_pbi_on_VF(tmp_vf, time=time, unit_time=unit_time,
-- 
2.43.0


From 8e85dc2caa1d3f5e85b354075802bbb163a00aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:26 +0000
Subject: [PATCH 117/132] fix: type of critical points on grids with different
 steps

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 84ea624..4fa094f 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -158,7 +158,8 @@ class VF(object):
                 if tmp_vf.pbi_x[1] == -1:
                     cp_types.append(0)
                 else:
-                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy)
+                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy,
+                                               delta_x, delta_y)
                     eigvals, eigvects = np.linalg.eig(jac)
                     tau = np.real(eigvals[0])
                     mu = np.sum(np.abs(np.imag(eigvals)))
-- 
2.43.0


From dbd5478cc393fe96a576eec90f5040511d52d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:51 +0000
Subject: [PATCH 118/132] fix: removal of modes, and smoothing of modes that is
 not in place

---
 IMTreatment/pod/pod.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1220be9..1c9bb7f 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -176,12 +176,12 @@ class ModalFields(Field):
             modes_to_keep = np.array(modes_to_keep, dtype=int)
         else:
             if isinstance(modes_to_remove, int):
-                modes_to_remove = np.arrange(len(self.modes) - modes_to_remove,
-                                             len(self.modes))
+                modes_to_remove = np.arange(len(self.modes) - modes_to_remove,
+                                            len(self.modes))
             if not isinstance(modes_to_remove, ARRAYTYPES):
                 raise TypeError()
             modes_to_remove = np.array(modes_to_remove, dtype=int)
-            modes_to_keep = np.arrange(len(self.modes))
+            modes_to_keep = np.arange(len(self.modes))
             modes_to_keep = np.delete(modes_to_keep, modes_to_remove)
         # get data
         if inplace:
@@ -388,7 +388,7 @@ class ModalFields(Field):
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
-                tmp_MF.mdes[n].smooth(tos=tos, size=size, inplace=True)
+                tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From 68835e397f8124cd7d8253772f8d3fa2373a424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:02 +0000
Subject: [PATCH 119/132] fix: keep the modes when computing their spatial
 coherence

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1c9bb7f..831a00c 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -711,7 +711,7 @@ class ModalFields(Field):
             center_y = np.int(len(axe_y)/2.)
 
             def get_field_spec_std(data):
-                data -= np.mean(data)
+                data = data - np.mean(data)
                 spec = np.abs(np.real(np.fft.rfft2(data)))
                 spec = np.fft.fftshift(spec)
                 spec /= spint.simps(spint.simps(spec))
-- 
2.43.0


From 397c6b2832e17109322a283eda91fd5a6d27d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:13 +0000
Subject: [PATCH 120/132] fix: refuse modes that do not exist when
 reconstructing

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 831a00c..5419226 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -478,7 +478,7 @@ class ModalFields(Field):
             wanted_modes = np.array(wanted_modes)
             if not isinstance(wanted_modes[0], NUMBERTYPES):
                 raise TypeError()
-            if wanted_modes.max() > len(self.modes):
+            if wanted_modes.max() >= len(self.modes):
                 raise ValueError()
         else:
             raise TypeError()
-- 
2.43.0


From 9152ba49678bc288602b542ba0cdf2f1573b99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:03 +0000
Subject: [PATCH 121/132] fix: keep the instant at the lower bound when
 cropping modal fields

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 5419226..57669cd 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -281,7 +281,7 @@ class ModalFields(Field):
                 elif intervt[0] >= times[-1]:
                     raise ValueError()
                 else:
-                    ind_1 = np.where(times > intervt[0])[0][0]
+                    ind_1 = np.where(times >= intervt[0])[0][0]
                 if intervt[1] >= times[-1]:
                     ind_2 = len(times)
                 elif intervt[1] <= times[0]:
-- 
2.43.0


From 550d9df8c01aa810a8fb4c04babf83888cd580e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:28 +0000
Subject: [PATCH 122/132] fix: place each row of an ascii file at its
 coordinates in scalar fields

---
 IMTreatment/file_operation/file_operation.py | 53 ++++++++------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7c55a1e..69121a9 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1693,38 +1693,27 @@ def import_sf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     y_org = np.sort(np.unique(y))
     vx = data[:, vx_col-1]
 
-    # check if structured or not
-    X1 = x.reshape(len(x_org), len(y_org))
-    X2 = x.reshape(len(y_org), len(x_org))
-    if np.allclose(np.mean(X1, axis=1), x_org):
-        vx_org = vx.reshape(len(x_org), len(y_org))
-        mask = np.isnan(vx_org)
-    elif np.allclose(np.mean(X2, axis=0), x_org):
-        vx_org = vx.reshape(len(y_org), len(x_org)).transpose()
-        vx_org = np.fliplr(vx_org)
-        mask = np.isnan(vx_org)
-    else:
-        # Masking all the initial fields (to handle missing values)
-        vx_org = np.zeros((y_org.shape[0], x_org.shape[0]))
-        vx_org_mask = np.ones(vx_org.shape)
-        vx_org = np.ma.masked_array(vx_org, vx_org_mask)
-        #loop on all 'v' values
-        x_ind = 0
-        y_ind = 0
-        for i in np.arange(vx.shape[0]):
-            x_tmp = x[i]
-            y_tmp = y[i]
-            vx_tmp = vx[i]
-            #find x index
-            if x_org[x_ind] != x_tmp:
-                x_ind = np.where(x_tmp == x_org)[0][0]
-            #find y index
-            if y_org[y_ind] != y_tmp:
-                y_ind = np.where(y_tmp == y_org)[0][0]
-            #put the value at its place
-            vx_org[y_ind, x_ind] = vx_tmp
-        # Treating 'nan' values
-        mask = np.logical_or(vx_org.mask, np.isnan(vx_org.data))
+    # Masking all the initial fields (to handle missing values)
+    vx_org = np.zeros((x_org.shape[0], y_org.shape[0]))
+    vx_org_mask = np.ones(vx_org.shape)
+    vx_org = np.ma.masked_array(vx_org, vx_org_mask)
+    #loop on all 'v' values
+    x_ind = 0
+    y_ind = 0
+    for i in np.arange(vx.shape[0]):
+        x_tmp = x[i]
+        y_tmp = y[i]
+        vx_tmp = vx[i]
+        #find x index
+        if x_org[x_ind] != x_tmp:
+            x_ind = np.where(x_tmp == x_org)[0][0]
+        #find y index
+        if y_org[y_ind] != y_tmp:
+            y_ind = np.where(y_tmp == y_org)[0][0]
+        #put the value at its place
+        vx_org[x_ind, y_ind] = vx_tmp
+    # Treating 'nan' values
+    mask = np.logical_or(vx_org.mask, np.isnan(vx_org.data))
 
     #store field in attributes
     tmpsf = ScalarField()
-- 
2.43.0


From 3c499f60743249e048198bc5bd9a751de28374a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:37 +0000
Subject: [PATCH 123/132] fix: read ascii files with only one row

---
 IMTreatment/file_operation/file_operation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 69121a9..41abb65 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1596,7 +1596,7 @@ def import_profile_from_ascii(filepath, x_col=1, y_col=2,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
@@ -1639,7 +1639,7 @@ def import_pts_from_ascii(filepath, x_col=1, y_col=2, v_col=None,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
@@ -1685,7 +1685,7 @@ def import_sf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     if 'names' in kwargs:
         kwargs.pop('names')
     # extract data from file
-    data = np.genfromtxt(filepath, **kwargs)
+    data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
     # get axes
     x = data[:, x_col-1]
     x_org = np.sort(np.unique(x))
@@ -1763,7 +1763,7 @@ def import_vf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     if 'names' in kwargs:
         kwargs.pop('names')
     # extract data from file
-    data = np.genfromtxt(filepath, **kwargs)
+    data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
     # get axes
     x = data[:, x_col-1]
     x_org = np.unique(x)
-- 
2.43.0


From cea4aff83ca468c620bdb7ea804d981d85622965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:26 +0000
Subject: [PATCH 124/132] fix: import objects with only one point from matlab
 files

---
 IMTreatment/file_operation/file_operation.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 41abb65..ca506dc 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -504,7 +504,7 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
     for key, entry in kwargs.items():
         if entry in keys:
             tdata = data[entry]
-            while not isinstance(tdata, str) and len(tdata) == 1:
+            while np.ndim(tdata) > 0 and len(tdata) == 1:
                 tdata = tdata[0]
             print(tdata)
             if key in ['unit_x', 'unit_y', 'unit_values']:
@@ -523,6 +523,19 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
                 build_dic[key] = build_dic[key][0]
         except TypeError:
             pass
+    # Give back their dimensions to the arrays of length 1
+    for key in ['axe_x', 'axe_y', 'x', 'y', 'v']:
+        if key in build_dic:
+            build_dic[key] = np.atleast_1d(build_dic[key])
+    for key in ['values', 'comp_x', 'comp_y', 'mask']:
+        if key in build_dic and 'axe_x' in build_dic and 'axe_y' in build_dic:
+            build_dic[key] = np.reshape(build_dic[key],
+                                        (len(build_dic['axe_x']),
+                                         len(build_dic['axe_y'])))
+    if 'mask' in build_dic and 'x' in build_dic:
+        build_dic['mask'] = np.atleast_1d(build_dic['mask'])
+    if 'xy' in build_dic:
+        build_dic['xy'] = np.reshape(build_dic['xy'], (-1, 2))
     # Fill the object
     if obj in ['ScalarField', 'VectorField']:
         ress = res()
-- 
2.43.0


From a5e514ed3cb2eb1fb8eb7b20743a16ddcb8aec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:42 +0000
Subject: [PATCH 125/132] fix: write pictures that do not exist yet, and lists
 of fields, the right way up

---
 IMTreatment/file_operation/file_operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index ca506dc..1c39695 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1498,7 +1498,7 @@ def export_to_picture(SF, filepath):
     filepath : string
         Path to the picture file.
     """
-    filepath = check_path(filepath)
+    filepath = check_path(filepath, newfile=True)
     values = SF.values[:, ::-1].transpose()
     imageio.imwrite(filepath, values)
 
@@ -1521,7 +1521,7 @@ def export_to_pictures(SFs, filepath):
     values = []
     if isinstance(SFs, ARRAYTYPES):
         for i in np.arange(len(SFs)):
-            values.append(SFs[i].values)
+            values.append(SFs[i].values[:, ::-1].transpose())
     elif isinstance(SFs, (SpatialScalarFields, TemporalScalarFields)):
         for i in np.arange(len(SFs.fields)):
             values.append(SFs.fields[i].values[:, ::-1].transpose())
-- 
2.43.0


From 3a4b3aa9c1eeba1f08f192e12a78fdc677d45694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:07 +0000
Subject: [PATCH 126/132] fix: comparing objects with incompatible units or
 different shapes

---
 IMTreatment/core/points.py                       |  8 ++++----
 IMTreatment/core/profile.py                      |  6 +++---
 IMTreatment/core/scalarfield.py                  | 10 ++++++----
 IMTreatment/core/temporalfields.py               | 10 ++++++----
 IMTreatment/core/vectorfield.py                  |  8 ++++----
 IMTreatment/utils/__init__.py                    |  2 +-
 IMTreatment/utils/units.py                       | 11 +++++++++++
 IMTreatment/vortex_detection/vortex_detection.py |  5 +++--
 8 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 7a7b857..b70266a 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -29,7 +29,7 @@ import copy
 from scipy import stats
 from scipy import ndimage
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 
 
 class Points(object):
@@ -151,11 +151,11 @@ class Points(object):
             return False
         if not np.all(self.v == obj.v):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_v == obj.unit_v:
+        if not same_units(self.unit_v, obj.unit_v):
             return False
         return True
 
diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 007493f..1138a52 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -30,7 +30,7 @@ import scipy.interpolate as spinterp
 from scipy import ndimage
 import scipy.optimize as spopt
 import scipy.signal as spsign
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from .. import plotlib as pplt
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from .scalarfield import ScalarField
@@ -243,9 +243,9 @@ class Profile(object):
             return False
         if not np.all(self.y[~self.mask] == obj.y[~obj.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
         return True
 
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 1977909..8e960af 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -33,7 +33,7 @@ from scipy import ndimage
 
 from .. import plotlib as pplt
 from . import field as fld, profile as prof, points as pts
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -53,6 +53,8 @@ class ScalarField(fld.Field):
     def __eq__(self, another):
         if not isinstance(another, ScalarField):
             return False
+        if not self.shape == another.shape:
+            return False
         if not np.allclose(self.axe_x, another.axe_x):
             return False
         if not np.allclose(self.axe_y, another.axe_y):
@@ -62,11 +64,11 @@ class ScalarField(fld.Field):
         if not np.allclose(self.values[~self.mask],
                       another.values[~another.mask]):
             return False
-        if not np.all(self.unit_x == another.unit_x):
+        if not same_units(self.unit_x, another.unit_x):
             return False
-        if not np.all(self.unit_y == another.unit_y):
+        if not same_units(self.unit_y, another.unit_y):
             return False
-        if not np.all(self.unit_values == another.unit_values):
+        if not same_units(self.unit_values, another.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index ba4b1bd..d05dd65 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -26,7 +26,7 @@ from .. import plotlib as pplt
 import numpy as np
 import unum
 import copy
-from ..utils import make_unit, ProgressCounter
+from ..utils import make_unit, same_units, ProgressCounter
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from . import field as fld
 from . import fields as flds
@@ -181,9 +181,11 @@ class TemporalFields(flds.Fields, fld.Field):
             if not np.all(self.__getattribute__(attr) ==
                           obj.__getattribute__(attr)):
                 return False
-        for attr in ['field_type', 'unit_x', 'unit_y', 'unit_times']:
-            if not (self.__getattribute__(attr) ==
-                    obj.__getattribute__(attr)):
+        if not self.field_type == obj.field_type:
+            return False
+        for attr in ['unit_x', 'unit_y', 'unit_times']:
+            if not same_units(self.__getattribute__(attr),
+                              obj.__getattribute__(attr)):
                 return False
         return True
 
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 5902e95..bda75e0 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -31,7 +31,7 @@ from scipy import ndimage
 from .. import plotlib as pplt
 import unum
 from . import field, scalarfield as sf
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -286,11 +286,11 @@ class VectorField(field.Field):
             return False
         if not np.all(self.comp_y[~self.mask] == obj.comp_y[~self.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_values == obj.unit_values:
+        if not same_units(self.unit_values, obj.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/utils/__init__.py b/IMTreatment/utils/__init__.py
index 7e2dc48..dc1aad5 100644
--- a/IMTreatment/utils/__init__.py
+++ b/IMTreatment/utils/__init__.py
@@ -24,7 +24,7 @@
 Utlities used by IMTreatment modules
 """
 
-from .units import make_unit
+from .units import make_unit, same_units
 from .types import  ARRAYTYPES, INTEGERTYPES, STRINGTYPES, NUMBERTYPES
 from .files import Files, remove_files_in_dirs
 from .progresscounter import ProgressCounter
diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index 5031bc4..727af86 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -33,6 +33,17 @@ except:
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 
 
+def same_units(unit1, unit2):
+    """
+    Check if two units are the same (units that cannot be converted into each
+    other are just different).
+    """
+    try:
+        return bool(unit1 == unit2)
+    except unum.IncompatibleUnitsError:
+        return False
+
+
 def make_unit(string):
     """
     Function helping for the creation of units. For more details, see the
diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 4fa094f..023dd21 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -24,7 +24,7 @@
 from ..core import Points, OrientedPoints, Profile, ScalarField, VectorField,\
     TemporalScalarFields,\
     TemporalVectorFields
-from ..utils import ProgressCounter, make_unit
+from ..utils import ProgressCounter, make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 from ..vortex_criterions import get_kappa, get_gamma, get_iota, \
     get_residual_vorticity
@@ -522,7 +522,8 @@ class CritPoints(object):
                           self.__getattribute__(attr2)):
                 return False
         for attr in ['unit_time', 'unit_x', 'unit_y']:
-            if obj.__getattribute__(attr) != self.__getattribute__(attr):
+            if not same_units(obj.__getattribute__(attr),
+                              self.__getattribute__(attr)):
                 return False
         for attr in ['times', 'colors', 'cp_types']:
             if not np.all(obj.__getattribute__(attr) ==
-- 
2.43.0


From d30c819ebea284e56ad11a1a0f31f6a5f14f075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:06 +0000
Subject: [PATCH 127/132] fix: clouds with different numbers of points are
 different

---
 IMTreatment/core/points.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index b70266a..5bcfc29 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -147,6 +147,8 @@ class Points(object):
     def __eq__(self, obj):
         if not isinstance(obj, Points):
             return False
+        if len(self.xy) != len(obj.xy) or len(self.v) != len(obj.v):
+            return False
         if not np.all(self.xy == obj.xy):
             return False
         if not np.all(self.v == obj.v):
-- 
2.43.0


From 89931e4e3c334ed85e4b8a2ae389eacb5717f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:27 +0000
Subject: [PATCH 128/132] fix: profiles with different numbers of points are
 different

---
 IMTreatment/core/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 1138a52..e08fa6b 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -237,6 +237,8 @@ class Profile(object):
     def __eq__(self, obj):
         if not isinstance(obj, Profile):
             return False
+        if len(self.x) != len(obj.x):
+            return False
         if not np.all(self.mask == obj.mask):
             return False
         if not np.all(self.x[~self.mask] == obj.x[~obj.mask]):
-- 
2.43.0


From a49d0dbb173ec776d4ec5a7ad3fa2fb1c06ff3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:43 +0000
Subject: [PATCH 129/132] fix: adding a field to spatial fields must not alter
 it

---
 IMTreatment/core/spatialfields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9a62c72..cafa9f5 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -154,6 +154,8 @@ class SpatialFields(flds.Fields):
         # check
         if not isinstance(field, self.fields_type):
             raise TypeError()
+        if copy:
+            field = field.copy()
         # first field
         if len(self.fields) == 0:
             self.unit_x = field.unit_x
@@ -170,7 +172,7 @@ class SpatialFields(flds.Fields):
         # crop fields
         field.crop_masked_border(hard=False, inplace=True)
         # add field
-        flds.Fields.add_field(self, field, copy=copy)
+        flds.Fields.add_field(self, field, copy=False)
 
     def get_value(self, x, y, unit=False, error=True):
         """
-- 
2.43.0


From bc60616a8cdbc35161325fb14d60cd2c884a65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:09 +0000
Subject: [PATCH 130/132] fix: division, power and iteration of spatial fields

---
 IMTreatment/core/spatialfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index cafa9f5..9df8a5a 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -63,7 +63,7 @@ class SpatialFields(flds.Fields):
 
     def __truediv__(self, other):
         if isinstance(other, (NUMBERTYPES, unum.Unum)):
-            final_vfs = self.__class__.__init__()
+            final_vfs = self.__class__()
             for field in self.fields:
                 final_vfs.add_field(field/other)
             return final_vfs
@@ -79,12 +79,12 @@ class SpatialFields(flds.Fields):
                             "on a Vectorfield")
         final_vfs = self.__class__()
         for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+            final_vfs.add_field(field**number)
         return final_vfs
 
     def __iter__(self):
         for i in np.arange(len(self.fields)):
-            yield self.times[i], self.fields[i]
+            yield self.fields[i]
 
     @property
     def mask(self):
-- 
2.43.0


From 68c55006b9dd4fb237216851312118ef727470d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:39 +0000
Subject: [PATCH 131/132] fix: values of spatial fields on the borders, with
 units and on grids

---
 IMTreatment/core/spatialfields.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9df8a5a..5655dff 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -191,8 +191,8 @@ class SpatialFields(flds.Fields):
         # get interesting fields
         inter_ind = []
         for i, field in enumerate(self.fields):
-            if (x > field.axe_x[0] and x < field.axe_x[-1] and
-                    y > field.axe_y[0] and y < field.axe_y[-1]):
+            if (x >= field.axe_x[0] and x <= field.axe_x[-1] and
+                    y >= field.axe_y[0] and y <= field.axe_y[-1]):
                 inter_ind.append(i)
         # get values (mean over fields if necessary)
         if len(inter_ind) == 0:
@@ -209,6 +209,8 @@ class SpatialFields(flds.Fields):
             for field in self.fields[inter_ind][1::]:
                 values += field.get_value(x, y, ind=False, unit=False)
             values /= len(inter_ind)
+        if unit:
+            values = values*self.unit_values
         return values
 
     def get_values_on_grid(self, axe_x, axe_y):
@@ -238,7 +240,7 @@ class SpatialFields(flds.Fields):
                         mask[i, j] = True
                     else:
                         values[i, j] = val
-            tmp_f = sf.ScalarField
+            tmp_f = sf.ScalarField()
             tmp_f.import_from_arrays(axe_x, axe_y, values, mask=mask,
                                      unit_x=self.unit_x, unit_y=self.unit_y,
                                      unit_values=self.unit_values)
-- 
2.43.0


From dd45d437188372de3b5f73c6eef26351b0d9427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:05 +0000
Subject: [PATCH 132/132] fix: profiles of spatial fields

---
 IMTreatment/core/spatialfields.py | 34 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 5655dff..00eb55e 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -272,8 +272,8 @@ class SpatialFields(flds.Fields):
 
         Parameters
         ----------
-        direction : integer
-            Direction along which we choose a position (1 for x and 2 for y)
+        direction : string in ['x', 'y']
+            Direction along which we choose a position
         position : float, interval of float
             Position, interval in which we want a profile
 
@@ -289,11 +289,10 @@ class SpatialFields(flds.Fields):
         if self.fields_type == vf.VectorField:
             if component is None:
                 component = 'magnitude'
-            else:
-                try:
-                    comp = self.__getattribute__("{}_as_sf".format(component))
-                except AttributeError:
-                    raise ValueError()
+            try:
+                comp = self.__getattribute__("{}_as_sf".format(component))
+            except AttributeError:
+                raise ValueError()
         elif self.fields_type == sf.ScalarField:
             if component is None:
                 component = "values"
@@ -303,15 +302,15 @@ class SpatialFields(flds.Fields):
                 raise ValueError()
         # get fields of interest
         inter_ind = []
-        if direction == 1:
+        if direction == 'x':
             for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_x[-1]) and \
-                   np.any(position > field.axe_x[0]):
+                if np.any(position <= field.axe_x[-1]) and \
+                   np.any(position >= field.axe_x[0]):
                     inter_ind.append(i)
-        elif direction == 2:
+        elif direction == 'y':
             for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_y[-1]) and \
-                   np.any(position > field.axe_y[0]):
+                if np.any(position <= field.axe_y[-1]) and \
+                   np.any(position >= field.axe_y[0]):
                     inter_ind.append(i)
         # get profiles
         if len(inter_ind) == 0:
@@ -319,23 +318,26 @@ class SpatialFields(flds.Fields):
         elif len(inter_ind) == 1:
             return comp[inter_ind[0]].get_profile(direction=direction,
                                                   position=position,
-                                                  ind=False)[0]
+                                                  ind=False)
         else:
             # get profiles
             x = np.array([])
             y = np.array([])
+            mask = np.array([], dtype=bool)
             for ind in inter_ind:
                 tmp_comp = comp[ind]
                 tmp_prof = tmp_comp.get_profile(direction=direction,
                                                 position=position,
-                                                ind=False)[0]
+                                                ind=False)
                 x = np.concatenate((x, tmp_prof.x))
                 y = np.concatenate((y, tmp_prof.y))
+                mask = np.concatenate((mask, tmp_prof.mask))
             # recreate profile object
             ind_sort = np.argsort(x)
             x = x[ind_sort]
             y = y[ind_sort]
-            fin_prof = prof.Profile(x, y, mask=False, unit_x=tmp_prof.unit_x,
+            mask = mask[ind_sort]
+            fin_prof = prof.Profile(x, y, mask=mask, unit_x=tmp_prof.unit_x,
                                     unit_y=tmp_prof.unit_y)
 
             return fin_prof
-- 
2.43.0

