From fd166fd5f50e229a6688723f5e40bc560da10e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 001/261] fix: flip the mask with the values when importing
 decreasing axes

---
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..e81a011 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -503,9 +503,11 @@ class ScalarField(fld.Field):
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
             values = values[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             values = values[:, ::-1]
+            mask = mask[:, ::-1]
         # storing datas
         self.axe_x = axe_x
         self.axe_y = axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..78f86f2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -557,10 +557,12 @@ class VectorField(field.Field):
             axe_x = axe_x[::-1]
             comp_x = comp_x[::-1]
             comp_y = comp_y[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
+            mask = mask[:, ::-1]
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From 2814d97f5e7a60f82895fb5bdb77b751f50a5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 002/261] fix: refuse arrays of inconsistent sizes in
 ScalarField.import_from_arrays

---
 IMTreatment/core/scalarfield.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e81a011..d92c697 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -499,6 +499,12 @@ class ScalarField(fld.Field):
                 mask = mask.transpose()
             except:
                 pass
+        if values.shape != (len(axe_x), len(axe_y)):
+            raise ValueError("'values' shape {} is not consistent with the "
+                             "axes lengths {}"
+                             .format(values.shape, (len(axe_x), len(axe_y))))
+        if mask.shape != values.shape:
+            raise ValueError("'mask' and 'values' should have the same shape")
         # Be sure axes are crescent
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
-- 
2.43.0


From b3a559a0e57ec337207b1044e568632f409026fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 003/261] fix: accept mask=None in
 VectorField.import_from_arrays

---
 IMTreatment/core/vectorfield.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 78f86f2..7be7100 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -516,7 +516,9 @@ class VectorField(field.Field):
         axe_y = np.array(axe_y, dtype=float)
         comp_x = np.array(comp_x, dtype=dtype)
         comp_y = np.array(comp_y, dtype=dtype)
-        if mask is not None and not isinstance(mask, bool):
+        if mask is None:
+            mask = False
+        elif not isinstance(mask, bool):
             mask = np.array(mask, dtype=bool)
         # Be sure nan values are masked
         mask = np.logical_or(mask, np.isnan(comp_x))
-- 
2.43.0


From 1fa933b5a429b0057225d11fdf45a79f3d9828d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:23 +0000
Subject: [PATCH 004/261] fix: keep the grid lines at coordinate 0 when adding
 vector fields on overlapping grids

---
 IMTreatment/core/vectorfield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 7be7100..4051db7 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -76,16 +76,16 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <
+                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <
+                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_y])
-                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <
+                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_x])
-                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <
+                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_y])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
-- 
2.43.0


From 118fefef34fce055643eefe3f5b5305c89ae60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 005/261] fix: refuse to add fields whose axes are expressed in
 different units

---
 IMTreatment/core/scalarfield.py | 3 +++
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d92c697..55faccb 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -87,6 +87,9 @@ class ScalarField(fld.Field):
                 self.unit_y + otherone.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            if self.unit_x != otherone.unit_x or \
+                    self.unit_y != otherone.unit_y:
+                raise ValueError("Fields axes should have the same units")
             # identical shape and axis
             if np.all(self.axe_x == otherone.axe_x) and \
                     np.all(self.axe_y == otherone.axe_y):
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 4051db7..400b5a6 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -64,6 +64,8 @@ class VectorField(field.Field):
                 self.unit_y + other.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            if self.unit_x != other.unit_x or self.unit_y != other.unit_y:
+                raise ValueError("Fields axes should have the same units")
             # identical shape and axis
             if np.all(self.axe_x == other.axe_x) and \
                     np.all(self.axe_y == other.axe_y):
-- 
2.43.0


From 11c700233814cdd2863c9c9458af0f1daf71941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 006/261] fix: account for grid and units when multiplying a
 vector field by a scalar field

---
 IMTreatment/core/vectorfield.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 400b5a6..84688d6 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -232,9 +232,17 @@ class VectorField(field.Field):
         elif isinstance(other, sf.ScalarField):
             if other.shape != self.shape:
                 raise ValueError()
+            if np.any(self.axe_x != other.axe_x)\
+                    or np.any(self.axe_y != other.axe_y)\
+                    or self.unit_x != other.unit_x\
+                    or self.unit_y != other.unit_y:
+                raise ValueError("Fields are not consistent")
             tmpvf = self.copy()
-            tmpvf.comp_x *= other.values
-            tmpvf.comp_y *= other.values
+            new_unit = tmpvf.unit_values*other.unit_values
+            scale = new_unit.asNumber()
+            tmpvf.unit_values = new_unit/scale
+            tmpvf.comp_x = self.comp_x*other.values*scale
+            tmpvf.comp_y = self.comp_y*other.values*scale
             tmpvf.mask = np.logical_or(other.mask, self.mask)
             return tmpvf
         else:
-- 
2.43.0


From e69110e6221cd94598b9fd63835140a951bd35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 007/261] fix: refuse to add a quantity of another dimension to
 a vector field

---
 IMTreatment/core/vectorfield.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 84688d6..6bf5ba0 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -140,6 +140,11 @@ class VectorField(field.Field):
             else:
                 raise ValueError()
         elif isinstance(other, unum.Unum):
+            try:
+                self.unit_values + other
+            except:
+                raise ValueError("Given number have to be consistent with"
+                                 "the vector field (same units)")
             tmpvf = self.copy()
             fact = (other / self.unit_values).asNumber()
             tmpvf.comp_x = self.comp_x + fact
-- 
2.43.0


From dfc550d83f779722540dd74ddbb0a260a67ae57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 008/261] fix: accept units that are normalized up to rounding
 for vector field values

---
 IMTreatment/core/vectorfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 6bf5ba0..42ee0f7 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -409,7 +409,7 @@ class VectorField(field.Field):
     @unit_values.setter
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
-            if new_unit_values.asNumber() == 1:
+            if np.isclose(new_unit_values.asNumber(), 1):
                 self.__unit_values = new_unit_values
             else:
                 raise ValueError()
-- 
2.43.0


From 66e57c62d12a03bc118bc1b997a38b9838f7925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 009/261] fix: normalize the unit of a scalar field multiplied
 by a quantity

---
 IMTreatment/core/scalarfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 55faccb..dc4b5e6 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -253,8 +253,10 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values *= obj.asNumber()
-            tmpsf.unit_values *= obj/obj.asNumber()
+            unit_values = tmpsf.unit_values * obj
+            tmpsf.values *= unit_values.asNumber()
+            unit_values /= unit_values.asNumber()
+            tmpsf.unit_values = unit_values
             tmpsf.mask = self.mask
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
-- 
2.43.0


From cee054623251cc7001a7d19db31fa5235fbc9d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 010/261] fix: keep masked points masked when raising a vector
 field to the power 0

---
 IMTreatment/core/vectorfield.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 42ee0f7..44df2ec 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -263,6 +263,7 @@ class VectorField(field.Field):
         tmpvf = self.copy()
         tmpvf.comp_x = np.power(tmpvf.comp_x, number)
         tmpvf.comp_y = np.power(tmpvf.comp_y, number)
+        tmpvf.mask = self.mask
         tmpvf.unit_values = np.power(tmpvf.unit_values, number)
         return tmpvf
 
-- 
2.43.0


From 2b3508137c37c83532999416618fb5d802eedabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 011/261] fix: cropped fields no longer share their arrays with
 the original

---
 IMTreatment/core/field.py       | 4 ++--
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..e616fe1 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -568,8 +568,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1].copy()
+            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1].copy()
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index dc4b5e6..1d7677a 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1425,9 +1425,9 @@ class ScalarField(fld.Field):
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
             cropfield.__values = self.values[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 44df2ec..9bb6e02 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1017,11 +1017,11 @@ class VectorField(field.Field):
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
             cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def crop_masked_border(self, hard=False, inplace=False):
-- 
2.43.0


From 0854077d49057771240ecc5600be1ddfa9147507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 012/261] fix: extend fields by exactly the asked number of
 points

---
 IMTreatment/core/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index e616fe1..a94ccc0 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -597,22 +597,22 @@ class Field(object):
         if nmb_left != 0:
             dx = self.axe_x[1] - self.axe_x[0]
             x0 = self.axe_x[0]
-            new_xs = np.arange(x0-dx*nmb_left, x0, dx)
+            new_xs = x0 + dx*np.arange(-nmb_left, 0)
             new_axe_x = np.concatenate((new_xs, new_axe_x))
         if nmb_right != 0:
             dx = self.axe_x[-1] - self.axe_x[-2]
             x0 = self.axe_x[-1]
-            new_xs = np.arange(x0 + dx, x0+dx*(nmb_right + 1), dx)
+            new_xs = x0 + dx*np.arange(1, nmb_right + 1)
             new_axe_x = np.concatenate((new_axe_x, new_xs))
         if nmb_down != 0:
             dy = self.axe_y[1] - self.axe_y[0]
             y0 = self.axe_y[0]
-            new_ys = np.arange(y0-dy*nmb_down, y0, dy)
+            new_ys = y0 + dy*np.arange(-nmb_down, 0)
             new_axe_y = np.concatenate((new_ys, new_axe_y))
         if nmb_up != 0:
             dy = self.axe_y[-1] - self.axe_y[-2]
             y0 = self.axe_y[-1]
-            new_ys = np.arange(y0 + dy, y0+dy*(nmb_up + 1), dy)
+            new_ys = y0 + dy*np.arange(1, nmb_up + 1)
             new_axe_y = np.concatenate((new_axe_y, new_ys))
         if inplace:
             self.__axe_x = new_axe_x
-- 
2.43.0


From baa6286401a7223b68d65a5864616f8d04b4b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 013/261] fix: return the extended scalar field when not
 working in place

---
 IMTreatment/core/scalarfield.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 1d7677a..0f1e725 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1503,8 +1503,13 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
+            new_field = ScalarField()
+            new_field.import_from_arrays(axe_x=tmpsf.axe_x, axe_y=tmpsf.axe_y,
+                                         values=new_values, mask=new_mask,
+                                         unit_x=tmpsf.unit_x,
+                                         unit_y=tmpsf.unit_y,
+                                         unit_values=tmpsf.unit_values)
+            new_field.xy_scale = tmpsf.xy_scale
             return new_field
 
     def mirroring(self, direction, position, inds_to_mirror='all',
-- 
2.43.0


From 79a6f8cc354cccebbf5f67d9f0d4828bff5993d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 014/261] fix: masked points added by extend() hold no value

---
 IMTreatment/core/vectorfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 9bb6e02..131c8f3 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1109,8 +1109,8 @@ class VectorField(field.Field):
                                            nmb_right=nmb_right, nmb_up=nmb_up,
                                            nmb_down=nmb_down, inplace=False)
             new_shape = new_field.shape
-        new_Vx = np.zeros(new_shape, dtype=float)
-        new_Vy = np.zeros(new_shape, dtype=float)
+        new_Vx = np.full(new_shape, np.nan)
+        new_Vy = np.full(new_shape, np.nan)
         if nmb_right == 0:
             slice_x = slice(nmb_left, new_Vx.shape[0] + 2)
         else:
-- 
2.43.0


From 59245b91242ec94cfc2e023bf10a365600de4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:00 +0000
Subject: [PATCH 015/261] fix: filling with crop=True and inplace=False leaves
 the original field untouched

---
 IMTreatment/core/scalarfield.py | 5 +++++
 IMTreatment/core/vectorfield.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 0f1e725..8bb1bd2 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1837,6 +1837,11 @@ class ScalarField(fld.Field):
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
         if crop:
+            if not inplace:
+                tmp_sf = self.copy()
+                tmp_sf.fill(kind=kind, value=value, inplace=True,
+                            reduce_tri=reduce_tri, crop=True)
+                return tmp_sf
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 131c8f3..f4925bc 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -962,6 +962,11 @@ class VectorField(field.Field):
         if not value.shape == (2,):
             raise ValueError()
         if crop:
+            if not inplace:
+                tmp_vf = self.copy()
+                tmp_vf.fill(kind=kind, value=value, inplace=True,
+                            reduce_tri=reduce_tri, crop=True)
+                return tmp_vf
             self.crop_masked_border(hard=False, inplace=True)
         # filling components
         comp_x = self.comp_x_as_sf
-- 
2.43.0


From 0436b99d369d01316140c64c917eaedc9707ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:00 +0000
Subject: [PATCH 016/261] fix: crop_masked_border() returns a field even when
 nothing is masked

---
 IMTreatment/core/scalarfield.py | 4 +++-
 IMTreatment/core/vectorfield.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 8bb1bd2..d1d59a0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1759,7 +1759,9 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            if inplace:
+                return None
+            return tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f4925bc..eb03a1a 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1046,7 +1046,9 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            if inplace:
+                return None
+            return tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
-- 
2.43.0


From f0ad41993c2e3535dee157a3697c3a7f0f8ce5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:00 +0000
Subject: [PATCH 017/261] fix: reduce spatial resolution by odd factors

---
 IMTreatment/core/scalarfield.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d1d59a0..53929f0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2053,16 +2053,16 @@ class ScalarField(fld.Field):
                                                    [~mask[intervx, intervy]])
 
         else:
-            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2, fact)
-            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2, fact)
+            inds_x = np.arange((fact - 1)//2, len(axe_x) - (fact - 1)//2, fact)
+            inds_y = np.arange((fact - 1)//2, len(axe_y) - (fact - 1)//2, fact)
             new_values = np.zeros((len(inds_x), len(inds_y)))
             new_mask = np.zeros((len(inds_x), len(inds_y)))
             for i in np.arange(len(inds_x)):
-                intervx = slice(inds_x[i] - (fact - 1)/2,
-                                inds_x[i] + (fact - 1)/2 + 1)
+                intervx = slice(inds_x[i] - (fact - 1)//2,
+                                inds_x[i] + (fact - 1)//2 + 1)
                 for j in np.arange(len(inds_y)):
-                    intervy = slice(inds_y[j] - (fact - 1)/2,
-                                    inds_y[j] + (fact - 1)/2 + 1)
+                    intervy = slice(inds_y[j] - (fact - 1)//2,
+                                    inds_y[j] + (fact - 1)//2 + 1)
                     if np.all(mask[intervx, intervy]):
                         new_mask[i, j] = True
                         new_values[i, j] = 0.
-- 
2.43.0


From 58a88b0a2361dcad1b75ecfcad58607f78accd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:00 +0000
Subject: [PATCH 018/261] fix: keep units when reducing the spatial resolution
 in place

---
 IMTreatment/core/scalarfield.py | 1 -
 IMTreatment/core/vectorfield.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 53929f0..0af1e72 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2073,7 +2073,6 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
                                     unit_x=self.unit_x, unit_y=self.unit_y,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index eb03a1a..d8d57ca 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1230,7 +1230,6 @@ class VectorField(field.Field):
         Vy.reduce_spatial_resolution(fact, inplace=True)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
                                     mask=Vx.mask, unit_x=self.unit_x,
-- 
2.43.0


From 31a04a37281c0ff1bd6a3b1c88123f2dc8ec622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:00 +0000
Subject: [PATCH 019/261] fix: get_zones_centers() no longer modifies its
 argument nor its default value

---
 IMTreatment/core/scalarfield.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 0af1e72..e00fefc 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -655,16 +655,15 @@ class ScalarField(fld.Field):
         pts : pts.Points object
             Contening the centers coordinates
         """
-        # correcting python's problem with egality...
-        bornes[0] -= 0.00001*abs(bornes[0])
-        bornes[1] += 0.00001*abs(bornes[1])
         # checking parameters coherence
         if not isinstance(bornes, ARRAYTYPES):
             raise TypeError("'bornes' must be an array")
-        if not isinstance(bornes, np.ndarray):
-            bornes = np.array(bornes, dtype=float)
+        bornes = np.array(bornes, dtype=float)
         if not bornes.shape == (2,):
             raise ValueError("'bornes' must be a 2x1 array")
+        # correcting python's problem with egality...
+        bornes[0] -= 0.00001*abs(bornes[0])
+        bornes[1] += 0.00001*abs(bornes[1])
         if bornes[0] == bornes[1]:
             return None
         if not bornes[0] < bornes[1]:
-- 
2.43.0


From 266e873627d8701d4f9f40f0a69d1e8044f86fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:00 +0000
Subject: [PATCH 020/261] fix: get_profile() accepts intervals of indices

---
 IMTreatment/core/scalarfield.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e00fefc..d027b0a 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -864,7 +864,7 @@ class ScalarField(fld.Field):
                 if pos < axe.min():
                     pos = axe.min()
         elif isinstance(position, ARRAYTYPES) and ind:
-            if np.min(position) < -len(axe) + 1 or \
+            if np.min(position) < 0 or \
                np.max(position) > len(axe) - 1:
                 raise ValueError("'position' must be included in"
                                  " the choosen axis values")
@@ -940,13 +940,14 @@ class ScalarField(fld.Field):
                 profile = self.values[:, axe_mask].mean(1)
                 axe = self.axe_x
         elif isinstance(position, ARRAYTYPES) and ind:
+            inds = slice(int(position[0]), int(position[1]) + 1)
             if direction == 'x':
-                prof_mask = self.mask[position[0]:position[1], :].mean(0)
-                profile = self.values[position[0]:position[1], :].mean(0)
+                prof_mask = self.mask[inds, :].mean(0)
+                profile = self.values[inds, :].mean(0)
                 axe = self.axe_y
             else:
-                prof_mask = self.mask[:, position[0]:position[1]].mean(1)
-                profile = self.values[:, position[0]:position[1]].mean(1)
+                prof_mask = self.mask[:, inds].mean(1)
+                profile = self.values[:, inds].mean(1)
                 axe = self.axe_x
         return prof.Profile(axe, profile, prof_mask, unit_x, unit_y)
 
-- 
2.43.0


From c336808d7d174f7b7f7b3b4246c9f0cdf4e2a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:00 +0000
Subject: [PATCH 021/261] fix: profile along the nearest line is independent
 from the field

---
 IMTreatment/core/scalarfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d027b0a..d3b8e8d 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -949,7 +949,8 @@ class ScalarField(fld.Field):
                 prof_mask = self.mask[:, inds].mean(1)
                 profile = self.values[:, inds].mean(1)
                 axe = self.axe_x
-        return prof.Profile(axe, profile, prof_mask, unit_x, unit_y)
+        return prof.Profile(axe.copy(), np.array(profile),
+                            np.array(prof_mask), unit_x, unit_y)
 
     def get_histogram(self, cum=False, normalized=False, bins=None,
                       range=None):
-- 
2.43.0


From 11ca8dabda4db4de608926e787d996f2cecc4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:00 +0000
Subject: [PATCH 022/261] fix: histograms ignore masked values and are placed
 at the bin centers

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d3b8e8d..a8feb80 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -969,11 +969,11 @@ class ScalarField(fld.Field):
         """
         if bins is None:
             bins = 10
-        hist, xs = np.histogram(self.values.flatten(),
+        hist, xs = np.histogram(self.values[~self.mask],
                                 bins=bins,
                                 range=range,
                                 density=normalized)
-        xs = xs[0:-1] + np.mean(xs[0:2])
+        xs = (xs[0:-1] + xs[1:])/2.
         if cum:
             hist = np.cumsum(hist)
 
-- 
2.43.0


From e8c05e4815e872526c2a5bf9ebefafc60e31c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:45 +0000
Subject: [PATCH 023/261] fix: time units given as strings are stored

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..431392d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -265,7 +265,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a495f81..125cbb5 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -107,7 +107,7 @@ class TemporalPoints(object):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From 347e00c8d61aa6a3de00cd749279b3ed8f7a14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:16 +0000
Subject: [PATCH 024/261] fix: times given in another unit are converted to the
 unit of the series

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 431392d..94d93d6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1134,7 +1134,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 125cbb5..a324a24 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -218,7 +218,7 @@ class TemporalPoints(object):
         # if not
         else:
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         self.point_sets.append(pt)
-- 
2.43.0


From 1b50a14e8474f82ff5a54b3b4d7a60f5c4ad3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:16 +0000
Subject: [PATCH 025/261] fix: refuse to add fields with other axes to a
 temporal series

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 94d93d6..b904ab8 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1130,7 +1130,8 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.array_equal(axe_x, vaxe_x) and
+                    np.array_equal(axe_y, vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-- 
2.43.0


From 74d7197a513d123309c5d739d02abaab6fa7763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:16 +0000
Subject: [PATCH 026/261] fix: products, quotients and powers of temporal
 fields keep the times

---
 IMTreatment/core/temporalfields.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index b904ab8..43a13d5 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -99,12 +99,14 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -123,7 +125,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
             if not np.all(self.axe_x == other.axe_x) \
@@ -131,7 +134,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other,
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
@@ -149,8 +153,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(np.power(field, number), time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From 86912e81f9c54e475ac57351c5bba01969a7cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:16 +0000
Subject: [PATCH 027/261] fix: divide temporal fields by numbers and quantities

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 43a13d5..fbb86ad 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -140,7 +140,7 @@ class TemporalFields(flds.Fields, fld.Field):
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
-- 
2.43.0


From abc1e48436060a89012b60e501154a80c45eeed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:16 +0000
Subject: [PATCH 028/261] fix: refuse products and quotients of temporal fields
 on different axes or times

---
 IMTreatment/core/temporalfields.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index fbb86ad..b7cf766 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -92,8 +92,8 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x) and
+                    np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
             if not np.all(self.times == other.times):
                 raise Exception()
@@ -118,8 +118,8 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x) and
+                    np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
             if not np.all(self.times == other.times):
                 raise Exception()
@@ -129,8 +129,8 @@ class TemporalFields(flds.Fields, fld.Field):
                               time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x) and
+                    np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-- 
2.43.0


From ed042219c6ff732de383182e51628514844efc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:17 +0000
Subject: [PATCH 029/261] fix: concatenated temporal fields keep the times of
 the added fields

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index b7cf766..078678f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -68,7 +68,8 @@ class TemporalFields(flds.Fields, fld.Field):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
-- 
2.43.0


From 08a38c234ec5474e9949fbc85c3b8eda89a1c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 030/261] fix: mean fields use 'nmb_min' as the minimum number
 of values

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 078678f..3cf7887 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -319,7 +319,7 @@ class TemporalFields(flds.Fields, fld.Field):
             added_field.fill(kind='value', value=0., inplace=True)
             result_f += added_field
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < nmb_min
         result_f.mask = mask
         result_f.change_dtype(dtype)
         fact = mask_cum
-- 
2.43.0


From 14910899a138553864dfe8ce4824e2851e68aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 031/261] fix: Reynolds stresses use 'nmb_val_min' as the
 minimum number of values

---
 IMTreatment/core/temporalvectorfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..8354a06 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -189,7 +189,7 @@ class TemporalVectorFields(tf.TemporalFields):
                         rs_xx[i, j] += u_p[n][i, j]**2
                         rs_xy[i, j] += u_p[n][i, j]*v_p[n][i, j]
                         nmb_val += 1
-                if nmb_val > nmb_val_min:
+                if nmb_val >= nmb_val_min:
                     rs_xx[i, j] /= nmb_val
                     rs_yy[i, j] /= nmb_val
                     rs_xy[i, j] /= nmb_val
-- 
2.43.0


From 903469ea6f7604893a27481d4ded41c78f350512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 032/261] fix: minimum fields take every unmasked value into
 account

---
 IMTreatment/core/temporalscalarfields.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..0f50a6e 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -61,14 +61,18 @@ class TemporalScalarFields(tf.TemporalFields):
         if len(self.fields) == 0:
             raise ValueError("There is no fields in this object")
         result_f = self.fields[0].copy()
+        values = result_f.values.copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_min_mask = np.logical_and(field.values < result_f.values,
+            new_min_mask = np.logical_or(field.values < values,
+                                         mask_cum == 0)
+            new_min_mask = np.logical_and(new_min_mask,
                                           np.logical_not(field.mask))
-            result_f.values[new_min_mask] = field.values[new_min_mask]
+            values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < nmb_min
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From 6e1ea7550622d83f800a563db89d9b4be9e572f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 033/261] fix: maximum fields take every unmasked value into
 account

---
 IMTreatment/core/temporalscalarfields.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 0f50a6e..e1ec395 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -89,14 +89,18 @@ class TemporalScalarFields(tf.TemporalFields):
         if len(self.fields) == 0:
             raise ValueError("There is no fields in this object")
         result_f = self.fields[0].copy()
+        values = result_f.values.copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_max_mask = np.logical_and(field.values > result_f.values,
+            new_max_mask = np.logical_or(field.values > values,
+                                         mask_cum == 0)
+            new_max_mask = np.logical_and(new_max_mask,
                                           np.logical_not(field.mask))
-            result_f.values[new_max_mask] = field.values[new_max_mask]
+            values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < nmb_min
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From 122b828add39a5c324f408b1fbcabd507516a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 034/261] fix: interpolated fields are independent from the
 series

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3cf7887..8039bb7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -338,7 +338,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[self.times == time][0].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
-- 
2.43.0


From b7bbce27cf7f1b347165cf65f56359e4d131b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 035/261] fix: time profiles along moving points use the
 position at each time

---
 IMTreatment/core/temporalfields.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 8039bb7..6cdeb8d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -493,10 +493,12 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
-            pt = np.array(pt, dtype=int)
+            inds = np.zeros((len(self.times), 2), dtype=int)
+            for n in np.where(~mask_times)[0]:
+                x, y = pt.xy[np.where(pt.v == self.times[n])[0][0]]
+                inds[n] = [self.get_indice_on_axe(1, x, kind='nearest'),
+                           self.get_indice_on_axe(2, y, kind='nearest')]
+            pt = inds
         if wanted_times is not None:
             if wanted_times[-1] <= wanted_times[0]:
                 raise ValueError()
@@ -511,7 +513,7 @@ class TemporalFields(flds.Fields, fld.Field):
         compo = np.empty(dim, dtype=float)
         masks = np.empty(dim, dtype=float)
         for i, time_ind in enumerate(w_times_ind):
-            ind_x, ind_y = pt[i]
+            ind_x, ind_y = pt[time_ind]
             compo[i] = self.fields[time_ind].__getattribute__(component)[ind_x,
                                                                          ind_y]
             masks[i] = self.fields[time_ind].mask[ind_x, ind_y]
@@ -559,14 +561,19 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
-            pt = np.array(pt, dtype=int)
+            inds = np.zeros((len(self.times), 2), dtype=int)
+            for n in np.where(~mask_times)[0]:
+                x, y = pt.xy[np.where(pt.v == self.times[n])[0][0]]
+                inds[n] = [self.get_indice_on_axe(1, x, kind='nearest'),
+                           self.get_indice_on_axe(2, y, kind='nearest')]
+            pt = inds
         if len(prof) != len(self):
             raise ValueError()
         # do it
         for i in range(len(prof)):
+            if mask_times[i]:
+                continue
+            ind_x, ind_y = pt[i]
             self.fields[i].__getattribute__(comp)[ind_x, ind_y] = prof.y[i]
 
     def get_temporal_spectrum(self, component, pt, ind=False,
-- 
2.43.0


From c4c92d2221f3e2e12877071eaf36d7d69966ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 036/261] fix: remove exactly the asked fields when several are
 given

---
 IMTreatment/core/fields.py         | 3 +--
 IMTreatment/core/temporalfields.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..a7cdcb9 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -148,8 +148,7 @@ class Fields(object):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.fields = np.delete(self.fields, nmb)
+        self.fields = np.delete(self.fields, fieldnumbers)
 
     def set_origin(self, x=None, y=None):
         """
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 6cdeb8d..9e07674 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1166,8 +1166,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.__times = np.delete(self.times, nmb)
+        self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
-- 
2.43.0


From 5eecc40a56b54f59ace56545adef50fded9c69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 037/261] fix: reduce the spatial resolution of a copy without
 touching the original

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 9e07674..7d65733 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1194,8 +1194,8 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
+        tmpfs.axe_x = tmpfs.fields[0].axe_x
+        tmpfs.axe_y = tmpfs.fields[0].axe_y
         return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
-- 
2.43.0


From 729dc99cf771d388cd03361342ad5dcc110190c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 038/261] fix: keep the last complete interval when reducing
 temporal resolution

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 7d65733..a248a1f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1245,7 +1245,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 time /= nmb_in_interval
             tmp_TFS.add_field(tmp_f, time, self.unit_times)
             i += nmb_in_interval
-            if i + nmb_in_interval >= len(self):
+            if i + nmb_in_interval > len(self):
                 break
         # returning
         if inplace:
-- 
2.43.0


From 93b06446e181f3c861291cdcde02ea5a1e0539a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 039/261] fix: fields stay an array after augmenting the
 temporal resolution

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index a248a1f..4f1b5d2 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1289,9 +1289,9 @@ class TemporalFields(flds.Fields, fld.Field):
         new_times = np.array(new_times).flatten()
         new_times = np.append(new_times, tf.times[-1])
         # loop on new times
-        new_fields = []
-        for time in new_times:
-            new_fields.append(tf.get_interpolated_field(time))
+        new_fields = np.empty(len(new_times), dtype=object)
+        for i, time in enumerate(new_times):
+            new_fields[i] = tf.get_interpolated_field(time)
         # store
         tf.fields = new_fields
         tf.times = new_times
-- 
2.43.0


From 5a0852c57022e25ad0be62b26f676357c80c7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 040/261] fix: crop_masked_border() of temporal fields returns
 a copy when nothing has to be cropped

---
 IMTreatment/core/temporalfields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 4f1b5d2..b8e9e08 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1315,7 +1315,9 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            if inplace:
+                return None
+            return self.copy()
         # hard cropping
         if hard:
             if inplace:
@@ -1364,7 +1366,9 @@ class TemporalFields(flds.Fields, fld.Field):
             axe_x_m = ~np.all(mask_cum, axis=1)
             # skip if nothing to do
             if not np.any(axe_y_m) or not np.any(axe_x_m):
-                return None
+                if inplace:
+                    return None
+                return self.copy()
             # getting indices where we need to cut
             axe_x_min = np.where(axe_x_m)[0][0]
             axe_x_max = np.where(axe_x_m)[0][-1]
-- 
2.43.0


From bdb34a3c6b25042d133f4d62889cad40816ae423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 041/261] fix: update the axes of temporal fields after
 mirroring

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index b8e9e08..b03a067 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1427,8 +1427,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf.__axe_x = self.fields[0].axe_x
-        tmp_tf.__axe_y = self.fields[0].axe_y
+        tmp_tf.axe_x = tmp_tf.fields[0].axe_x
+        tmp_tf.axe_y = tmp_tf.fields[0].axe_y
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From 98f838cd2b0647c809d39163c831f433bf862aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 042/261] fix: negative scaling of temporal fields keeps
 samples at their positions and times

---
 IMTreatment/core/temporalfields.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index b03a067..38e037f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1013,17 +1013,25 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f = self
         else:
             tmp_f = self.copy()
-        # scale the field (automaticly scale the fields axis)
         # for compatibility purpose
         if not hasattr(self, "xy_scale"):
             self.xy_scale = make_unit('')
         for field in self.fields:
             if not hasattr(field, "xy_scale"):
                 field.xy_scale = self.xy_scale
-        fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
-                        inplace=True)
-        # scale the values
-        flds.Fields.scale(tmp_f, scalev=scalev, inplace=True)
+        # scale the fields
+        flds.Fields.scale(tmp_f, scalex=scalex, scaley=scaley, scalev=scalev,
+                          inplace=True)
+        # scale the common axis
+        if len(tmp_f.fields) == 0:
+            fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
+                            inplace=True)
+        else:
+            tmp_f.xy_scale = tmp_f.fields[0].xy_scale
+            tmp_f.unit_x = tmp_f.fields[0].unit_x
+            tmp_f.unit_y = tmp_f.fields[0].unit_y
+            tmp_f.axe_x = tmp_f.fields[0].axe_x
+            tmp_f.axe_y = tmp_f.fields[0].axe_y
         # scale the time
         if scalet is None:
             pass
@@ -1037,6 +1045,7 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f.times *= fact
         else:
             raise TypeError()
+        tmp_f.__sort_field_by_time()
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From ba6a954c71188f928ed70ac78431ef24706b8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 043/261] fix: times of temporal fields are stored as an array
 of their own

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 38e037f..d79a84c 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -249,7 +249,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.fields)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
-- 
2.43.0


From 1e7d0708529ad948df07cf5d8a0d89a8ccdf096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 044/261] fix: the setters of ScalarField no longer keep
 references to the given arrays

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index a8feb80..f8dcaf9 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -333,7 +333,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             self.__mask = np.isnan(new_values)
@@ -360,7 +360,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
-- 
2.43.0


From 483386ce6b8b44ed110f66436a3057c7e1ab808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 045/261] fix: filling temporal fields out of place leaves the
 original untouched

---
 IMTreatment/core/temporalscalarfields.py | 20 ++++++--------------
 IMTreatment/core/temporalvectorfields.py | 20 ++++++--------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index e1ec395..c887e7f 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -363,8 +363,14 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        if not inplace:
+            tmp_tf = self.copy()
+            tmp_tf.fill(tof=tof, kind=kind, value=value, inplace=True,
+                        crop=crop)
+            return tmp_tf
         if crop:
             self.crop_masked_border(hard=False, inplace=True)
+        fields = self.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting datas
@@ -396,8 +402,6 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
                 for ind_masked in prof.mask:
                     try:
@@ -409,19 +413,7 @@ class TemporalScalarFields(tf.TemporalFields):
                     fields[prof.mask].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tsf = self.copy()
-                fields = tmp_tsf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
-        # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tsf = self.copy()
-            tmp_tsf.fields = fields
-            return tmp_tsf
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 8354a06..6c96d4d 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -288,8 +288,14 @@ class TemporalVectorFields(tf.TemporalFields):
         elif not isinstance(value, ARRAYTYPES):
             raise TypeError()
         value = np.array(value)
+        if not inplace:
+            tmp_tf = self.copy()
+            tmp_tf.fill(tof=tof, kind=kind, value=value, inplace=True,
+                        crop=crop)
+            return tmp_tf
         if crop:
             self.crop_masked_border(hard=False, inplace=True)
+        fields = self.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting super mask (0 where no value are masked and where all
@@ -336,8 +342,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
@@ -358,19 +362,7 @@ class TemporalVectorFields(tf.TemporalFields):
                     fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tvf = self.copy()
-                fields = tmp_tvf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
-        # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tvf = self.copy()
-            tmp_tvf.fields = fields
-            return tmp_tvf
-- 
2.43.0


From e3b602fe51f2c9819048805f4544b30e173e9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 046/261] fix: temporal filling of scalar fields

---
 IMTreatment/core/temporalscalarfields.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index c887e7f..f3e5476 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -382,7 +382,7 @@ class TemporalScalarFields(tf.TemporalFields):
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = self.get_time_profile('values', [i, j], ind=True)
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -403,14 +403,14 @@ class TemporalScalarFields(tf.TemporalFields):
                 else:
                     raise ValueError("Invalid value for 'kind'")
                 # loop on all profile masked points
-                for ind_masked in prof.mask:
+                for ind_masked in np.where(prof.mask)[0]:
                     try:
-                        interp_val = interp(prof.x[prof.mask])
+                        interp_val = interp(prof.x[ind_masked])
                     except ValueError:
                         continue
                     # putting interpolated value in the field
-                    fields[prof.mask].values[i, j] = interp_val
-                    fields[prof.mask].mask[i, j] = False
+                    fields[ind_masked].values[i, j] = interp_val
+                    fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
             for i, field in enumerate(fields):
-- 
2.43.0


From 76de9620d32fbc76a926bef2229c3869cb132f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:47 +0000
Subject: [PATCH 047/261] fix: rotate fields with a single line or column

---
 IMTreatment/core/field.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index a94ccc0..ec3c7eb 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -402,24 +402,19 @@ class Field(object):
             pass
         elif angle == 90:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_y[::-1], tmp_field.axe_x
+                = -tmp_field.axe_y[::-1], tmp_field.axe_x
             tmp_field.__unit_x, tmp_field.__unit_y \
                 = tmp_field.unit_y, tmp_field.unit_x
         elif angle == 180:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_x[::-1], tmp_field.axe_y[::-1]
+                = -tmp_field.axe_x[::-1], -tmp_field.axe_y[::-1]
         elif angle == 270:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_y, tmp_field.axe_x[::-1]
+                = tmp_field.axe_y, -tmp_field.axe_x[::-1]
             tmp_field.__unit_x, tmp_field.__unit_y \
                 = tmp_field.unit_y, tmp_field.unit_x
         else:
             raise Exception()
-        # correction non-crescent axis
-        if tmp_field.axe_x[-1] < tmp_field.axe_x[0]:
-            tmp_field.__axe_x = -tmp_field.axe_x
-        if tmp_field.axe_y[-1] < tmp_field.axe_y[0]:
-            tmp_field.__axe_y = -tmp_field.axe_y
         # returning
         if not inplace:
             return tmp_field
-- 
2.43.0


From ea482fb72253a0ed84688be68a37cf4500d46e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:47 +0000
Subject: [PATCH 048/261] fix: crop fields to their first line or column by
 index

---
 IMTreatment/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index ec3c7eb..3032346 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -522,8 +522,8 @@ class Field(object):
             raise ValueError("'intervy' values must be crescent")
         # checking crooping windows
         if ind:
-            if intervx[0] < 0 or intervx[1] == 0 or \
-                    intervy[0] < 0 or intervy[1] == 0:
+            if intervx[0] < 0 or intervx[1] < 0 or \
+                    intervy[0] < 0 or intervy[1] < 0:
                 raise ValueError("Invalid cropping window")
         else:
             if np.all(intervx < axe_x[0]) or np.all(intervx > axe_x[-1])\
-- 
2.43.0


From 8f712e3493c5e0f713459c573ac3d96b2ef0713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:47 +0000
Subject: [PATCH 049/261] fix: mirror fields with masked borders from the
 cropped axes

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index f8dcaf9..55cf7ab 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1549,13 +1549,13 @@ class ScalarField(fld.Field):
                             .format(type(position)))
         position = float(position)
         # get data
-        axe_x = self.axe_x
-        axe_y = self.axe_y
         if inplace:
             tmp_vf = self
         else:
             tmp_vf = self.copy()
         tmp_vf.crop_masked_border(inplace=True)
+        axe_x = tmp_vf.axe_x
+        axe_y = tmp_vf.axe_y
         # get side to mirror
         if direction == 'x':
             axe = axe_x
-- 
2.43.0


From 6191a1db9f58e671c190d9dfc56e67e7db56e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 050/261] fix: merging point sets converts units and leaves
 both sets untouched

---
 IMTreatment/core/points.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..dc54f84 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -101,16 +101,16 @@ class Points(object):
             if another.xy.shape == (0,):
                 new_xy = self.xy
             elif self.xy.shape == (0,):
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = xy
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
             # testing v presence
             v_presence = True
@@ -126,11 +126,11 @@ class Points(object):
                 if self.v is None and another.v is None:
                     v = np.array([])
                 elif self.v is None:
-                    v = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v = another.v*(another.unit_v/self.unit_v).asNumber()
                 elif another.v is None:
                     v = self.v
                 else:
-                    v_tmp = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v_tmp = another.v*(another.unit_v/self.unit_v).asNumber()
                     v = np.append(self.v, v_tmp)
                 return Points(new_xy, v,
                               unit_x=self.unit_x,
-- 
2.43.0


From 0d728cdb3cd3fc118eebed1cd6a4319ba29083fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 051/261] fix: point sets no longer keep references to the
 given coordinates

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index dc54f84..5b4a971 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From 5c1e23c245a1fbf93a2510195533015a0ba0a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 052/261] fix: points without values have an empty array of
 values

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 5b4a971..1cada12 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -55,7 +55,7 @@ class Points(object):
         name : string, optional
             Name of the points set
         """
-        self.__v = []
+        self.__v = np.array([])
         if len(xy) == 0:
             xy = np.empty((0, 2), dtype=float)
         self.xy = xy
@@ -187,7 +187,7 @@ class Points(object):
     @v.setter
     def v(self, values):
         if values is None:
-            self__v = None
+            self.__v = np.array([])
         else:
             values = np.array(values, subok=True)
             if not values.ndim == 1:
-- 
2.43.0


From 3fd9a3c79ba93cd6ccf3369bd720adf3b17cda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 053/261] fix: evolution of a scalar field along points

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 1cada12..fa5478e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -733,8 +733,8 @@ class Points(object):
         from .scalarfield import ScalarField
         if not isinstance(SF, ScalarField):
             raise TypeError()
+        from .profile import Profile
         if len(self.xy) == 0:
-            from .profile import Profile
             return Profile()
         if axe_x is None:
             if len(self.v) == len(self.xy):
-- 
2.43.0


From c1782de4daaeb66ffff02bf0762881dd2c11f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 054/261] fix: refuse to add points with (without) value to
 points without (with) values

---
 IMTreatment/core/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index fa5478e..dd58a70 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -892,9 +892,11 @@ class Points(object):
             if not isinstance(v, NUMBERTYPES):
                 raise TypeError()
         # store new data
-        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is None and self.v.shape[0] != 0:
             raise ValueError('You should specify an associated value : v')
+        if v is not None and self.v.shape[0] != self.xy.shape[0]:
+            raise ValueError('The existing points have no associated values')
+        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is not None:
             self.__v = np.append(self.v, v)
 
-- 
2.43.0


From 8878c824c9a1f2724b308be5f64b44ebeab7105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 055/261] fix: removing points keeps the values of the other
 points

---
 IMTreatment/core/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index dd58a70..cb8f113 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -912,15 +912,15 @@ class Points(object):
         if isinstance(ind, INTEGERTYPES):
             ind = [ind]
         elif isinstance(ind, ARRAYTYPES):
-            if not np.all([isinstance(val, int) for val in ind]):
+            if not np.all([isinstance(val, INTEGERTYPES) for val in ind]):
                 raise TypeError("'ind' must be an integer or an array of"
                                 " integer")
-            ind = np.array(ind)
+            ind = np.array(ind, dtype=int)
         else:
             raise TypeError("'ind' must be an integer or an array of integer")
-        tmp_v = self.v.copy()
+        tmp_v = self.v
         self.xy = np.delete(self.xy, ind, axis=0)
-        if len(self.v) == len(self.xy) + 1:
+        if len(tmp_v) != 0:
             self.v = np.delete(tmp_v, ind, axis=0)
 
     def change_unit(self, axe, new_unit):
-- 
2.43.0


From 384a2f176f1ccb34164075e83d2d4934f9d370c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 056/261] fix: cutting points keeps the values of the other
 points

---
 IMTreatment/core/points.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index cb8f113..6ae9064 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1062,9 +1062,10 @@ class Points(object):
             out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
                                       self.xy[:, 1] < intervy[1])
             mask = np.logical_and(mask, out_zone)
+        tmp_v = tmp_pts.v
         tmp_pts.xy = tmp_pts.xy[~mask, :]
-        if len(tmp_pts.v) != 0:
-            tmp_pts.v = tmp_pts.v[~mask]
+        if len(tmp_v) != 0:
+            tmp_pts.v = tmp_v[~mask]
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
-- 
2.43.0


From 2cd02cb193b07eadcce77c085811e3f1a149f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 057/261] fix: swap the units when reversing points

---
 IMTreatment/core/points.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 6ae9064..3878012 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1191,6 +1191,7 @@ class Points(object):
         xy_tmp[:, 0] = tmp_pt.xy[:, 1]
         xy_tmp[:, 1] = tmp_pt.xy[:, 0]
         tmp_pt.xy = xy_tmp
+        tmp_pt.unit_x, tmp_pt.unit_y = tmp_pt.unit_y, tmp_pt.unit_x
         return tmp_pt
 
     def decompose(self):
-- 
2.43.0


From c41cefd95cde26fc6400165584aa12978e3f6474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 058/261] fix: decompose points without values and single
 points into independent points

---
 IMTreatment/core/orientedpoints.py | 6 ++----
 IMTreatment/core/points.py         | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..2f66f24 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -323,14 +323,12 @@ class OrientedPoints(pts.Points):
         object.
         """
         if len(self) == 1:
-            return [self]
-        if len(self) != len(self.v):
-            raise Exception()
+            return [self.copy()]
         pts_tupl = []
         for i in np.arange(len(self)):
             pts_tupl.append(OrientedPoints([self.xy[i]],
                                            [self.orientations[i]],
-                                           [self.v[i]], self.unit_x,
+                                           self.v[i:i + 1], self.unit_x,
                                            self.unit_y, self.unit_v,
                                            self.name))
         return pts_tupl
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 3878012..4de80a4 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1199,12 +1199,10 @@ class Points(object):
         return a tuple of Points object, with only one point per object.
         """
         if len(self) == 1:
-            return [self]
-        if len(self) != len(self.v):
-            raise Exception()
+            return [self.copy()]
         pts_tupl = []
         for i in np.arange(len(self)):
-            pts_tupl.append(Points([self.xy[i]], [self.v[i]], self.unit_x,
+            pts_tupl.append(Points([self.xy[i]], self.v[i:i + 1], self.unit_x,
                                    self.unit_y, self.unit_v, self.name))
         return pts_tupl
 
-- 
2.43.0


From bb6ab3b879a4f3ac41a4bab9e5ca0a13e79a161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 059/261] fix: sort points along a given order

---
 IMTreatment/core/points.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 4de80a4..23d358e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1231,7 +1231,9 @@ class Points(object):
         if not isinstance(inplace, bool):
             raise TypeError()
         # get order
-        if ref == 'x':
+        if not isinstance(ref, STRINGTYPES):
+            order = ref
+        elif ref == 'x':
             order = np.argsort(self.xy[:, 0])
         elif ref == 'y':
             order = np.argsort(self.xy[:, 1])
@@ -1239,8 +1241,6 @@ class Points(object):
             if len(self.v) == 0:
                 raise ValueError()
             order = np.argsort(self.v)
-        else:
-            order = ref
         # reordering
         if inplace:
             tmp_pt = self
-- 
2.43.0


From cd7e0e675a29b7c9c69ec15e74a7c37b973e8bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 060/261] fix: remove the undefined points of point sets
 without values

---
 IMTreatment/core/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 23d358e..8622162 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1297,7 +1297,8 @@ class Points(object):
         # get indices to remove
         inds = np.logical_or(np.isnan(tmp_pts.xy[:, 0]),
                              np.isnan(tmp_pts.xy[:, 1]))
-        inds = np.logical_or(inds, np.isnan(tmp_pts.v))
+        if len(tmp_pts.v) != 0:
+            inds = np.logical_or(inds, np.isnan(tmp_pts.v))
         # remove
         for ind in np.where(inds)[0][::-1]:
             tmp_pts.remove(ind)
-- 
2.43.0


From 06c3662ab36ae1775da6ad89214e360524db615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 061/261] fix: order points on a line together with their
 values

---
 IMTreatment/core/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 8622162..676e21e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1266,7 +1266,7 @@ class Points(object):
         clf = NearestNeighbors(2).fit(self.xy)
         G = clf.kneighbors_graph()
         import networkx as nx
-        T = nx.from_scipy_sparse_matrix(G)
+        T = nx.from_scipy_sparse_array(G)
         order = list(nx.dfs_preorder_nodes(T, 0))
         paths = [list(nx.dfs_preorder_nodes(T, i)) for i in range(len(self.xy))]
         mindist = np.inf
@@ -1283,7 +1283,9 @@ class Points(object):
         new_x = self.xy[:, 0][opt_order]
         new_y = self.xy[:, 1][opt_order]
         # return
+        new_v = self.v[opt_order] if len(self.v) != 0 else self.v
         tmp_pts.xy = np.array(list(zip(new_x, new_y)))
+        tmp_pts.v = new_v
         return tmp_pts
 
     def remove_nans(self, inplace=False):
-- 
2.43.0


From 53b6e7a51a172f6ef8226559f9d790db2022159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 062/261] fix: sort, cut and reverse oriented points with their
 orientations

---
 IMTreatment/core/orientedpoints.py | 37 ++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 2f66f24..de94260 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -317,6 +317,43 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def cut(self, intervx=None, intervy=None):
+        """
+        Return a point cloud where the given area has been removed.
+        """
+        mask = np.ones(len(self.xy), dtype=bool)
+        if intervx is not None:
+            mask = np.logical_and(mask, np.logical_and(
+                self.xy[:, 0] > intervx[0], self.xy[:, 0] < intervx[1]))
+        if intervy is not None:
+            mask = np.logical_and(mask, np.logical_and(
+                self.xy[:, 1] > intervy[0], self.xy[:, 1] < intervy[1]))
+        tmp_pts = self.copy()
+        tmp_pts.remove(np.where(mask)[0])
+        return tmp_pts
+
+    def reverse(self):
+        """
+        Return a Points object where x and y axis are switched.
+        """
+        tmp_pts = super(OrientedPoints, self).reverse()
+        tmp_pts.orientations = tmp_pts.orientations[..., ::-1]
+        return tmp_pts
+
+    def sort(self, ref='x', inplace=False):
+        """
+        Sort the points according to the reference (see Points.sort).
+        """
+        if isinstance(ref, STRINGTYPES) and ref in ['x', 'y', 'v']:
+            data = {'x': self.xy[:, 0], 'y': self.xy[:, 1], 'v': self.v}[ref]
+            if len(data) != len(self.xy):
+                raise ValueError()
+            ref = np.argsort(data)
+        res = super(OrientedPoints, self).sort(ref=ref, inplace=inplace)
+        tmp_pts = self if inplace else res
+        tmp_pts.orientations = tmp_pts.orientations[np.array(ref, dtype=int)]
+        return res
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
-- 
2.43.0


From b220e6d4c0d4ca33c2d448f844f3d7ff04bf07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 063/261] fix: iterate over every oriented point

---
 IMTreatment/core/orientedpoints.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index de94260..737b524 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -77,9 +77,7 @@ class OrientedPoints(pts.Points):
         self.orientations = orientations
 
     def __iter__(self):
-        for i in np.arange(len(self.xy)):
-            pts_iter = pts.Points.__iter__(self)
-            pts_value = next(pts_iter)
+        for i, pts_value in enumerate(pts.Points.__iter__(self)):
             if type(pts_value) is tuple:
                 yield pts_value + (self.orientations[i],)
             else:
-- 
2.43.0


From 890dd306d86d250e651b3edebcfd1c444b4fad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 064/261] fix: refuse orientations that do not match the points

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 737b524..206209a 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -69,7 +69,7 @@ class OrientedPoints(pts.Points):
         if len(xy) != 0 and not orientations.ndim == 3:
             raise ValueError("'orientations' must have 3 dimensions, not {}"
                              .format(orientations.ndim))
-        if not orientations.shape[0:3:2] != [len(xy), 2]:
+        if len(xy) != 0 and orientations.shape[0:3:2] != (len(xy), 2):
             raise ValueError()
         # initialize data
         pts.Points.__init__(self, xy=xy, v=v, unit_x=unit_x, unit_y=unit_y,
-- 
2.43.0


From 47231af0357456d6a2766e6dcec02a29613228f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 065/261] fix: streamlines from oriented points

---
 IMTreatment/core/orientedpoints.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 206209a..72bcadf 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -140,13 +140,12 @@ class OrientedPoints(pts.Points):
             Each Points object represent a streamline
         """
         # check parameters
-        from .field_treatment import get_streamlines
+        from ..field_treatment import get_streamlines
         from . import vectorfield as vfp
         if not isinstance(vf, vfp.VectorField):
             raise TypeError()
         # getting streamlines
-        streams = get_streamlines(vf, self.xy, delta=delta, interp=interp,
-                                  reverse_direction=reverse_direction)
+        streams = get_streamlines(vf, self.xy, reverse=reverse_direction)
         return streams
 
     def get_streamlines_from_orientations(self, vf, delta=.25, interp='linear',
-- 
2.43.0


From c5941192515f8909626368ce903d1d4c2feb404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 066/261] fix: scaling temporal points keeps the axes that are
 not scaled and the time order

---
 IMTreatment/core/temporalpoints.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a324a24..805efd9 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -132,10 +132,14 @@ class TemporalPoints(object):
         else:
             tmp_ps = self.copy()
         for i in range(len(self.point_sets)):
-            tmp_ps.point_sets[i].scale(scalex=scalex,
-                                       scaley=scaley,
-                                       scalev=scalev,
-                                       inplace=True)
+            tmp_ps.point_sets[i].scale(
+                scalex=1. if scalex is None else scalex,
+                scaley=1. if scaley is None else scaley,
+                scalev=1. if scalev is None else scalev,
+                inplace=True)
+        if len(tmp_ps.point_sets) != 0:
+            tmp_ps.__unit_x = tmp_ps.point_sets[0].unit_x
+            tmp_ps.__unit_y = tmp_ps.point_sets[0].unit_y
         # scale the time
         if scalet is None:
             pass
@@ -149,6 +153,7 @@ class TemporalPoints(object):
             tmp_ps.times *= fact
         else:
             raise TypeError()
+        tmp_ps.__sort_field_by_time()
         # returning
         return tmp_ps
 
-- 
2.43.0


From 9200a5ad2ba9a6da28c548f42aabc962fcffa955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 067/261] fix: change the units of temporal points

---
 IMTreatment/core/temporalpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 805efd9..1299b40 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -179,7 +179,10 @@ class TemporalPoints(object):
             raise TypeError()
         if axe in ['x', 'y', 'values']:
             for pt in self.point_sets:
-                pt.change_unit(axe, new_unit)
+                pt.change_unit('v' if axe == 'values' else axe, new_unit)
+            if len(self.point_sets) != 0:
+                self.__unit_x = self.point_sets[0].unit_x
+                self.__unit_y = self.point_sets[0].unit_y
         elif axe == 'time':
             old_unit = self.unit_times
             new_unit = old_unit.asUnit(new_unit)
-- 
2.43.0


From ccaac58c7b0697ff5872a58fc1005f4fb2580e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 068/261] fix: points added to temporal points are independent
 from the given ones

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 1299b40..f7bb709 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -229,7 +229,7 @@ class TemporalPoints(object):
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt)
+        self.point_sets.append(pt.copy())
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From f70ab2b3ff621876a48821b8a753eec6998c2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 069/261] fix: times of temporal points are stored as an array
 of their own

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index f7bb709..b93aa15 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -82,7 +82,7 @@ class TemporalPoints(object):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.point_sets)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
-- 
2.43.0


From 43216f0359db118db9e535522b1df95ce7f67220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 070/261] fix: remove exactly the asked point sets when several
 are given

---
 IMTreatment/core/temporalpoints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index b93aa15..9b14418 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -244,9 +244,9 @@ class TemporalPoints(object):
         """
         if isinstance(indice, INTEGERTYPES):
             indice = [indice]
-        for i in indice:
-            self.__times = np.delete(self.times, i)
-            self.point_sets = np.delete(self.point_sets, i)
+        kept = np.delete(np.arange(len(self.point_sets)), indice)
+        self.__times = self.times[kept]
+        self.point_sets = [self.point_sets[i] for i in kept]
 
     def crop(self, intervx=None, intervy=None, intervv=None, intervt=None,
              full_output=False, ind=False, inplace=False):
-- 
2.43.0


From 4010a10eeeaf78dad64e3a247ea48f5dd54e53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 071/261] fix: crop temporal points out of place without
 touching the original, and by time indices

---
 IMTreatment/core/temporalpoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 9b14418..f11a3a5 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -291,6 +291,7 @@ class TemporalPoints(object):
                 else:
                     ind2 = np.where(intervt[1] >= self.times)[0][-1]
                 intervt = [ind1, ind2]
+            intervt = [int(intervt[0]), int(intervt[1])]
         # crop
         if inplace:
             croppts = self
@@ -301,7 +302,7 @@ class TemporalPoints(object):
             croppts.point_sets = croppts.point_sets[intervt[0]:intervt[1] + 1]
             croppts.times = croppts.times[intervt[0]:intervt[1] + 1]
         # spatial
-        for pt in self.point_sets:
+        for pt in croppts.point_sets:
             pt.crop(intervx=intervx, intervy=intervy, intervv=intervv,
                     inplace=True)
         # returning
-- 
2.43.0


From 7f40c6de16ff701e4ab35a4f4f22b9f0aeaf6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 072/261] fix: profiles honour mask=True and refuse masks of
 another size

---
 IMTreatment/core/profile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..e3546d8 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -65,8 +65,7 @@ class Profile(object):
         if not isinstance(y, np.ma.MaskedArray):
             y = np.array(y, dtype=float)
         if isinstance(mask, bool):
-            mask = np.empty(x.shape, dtype=bool)
-            mask.fill(False)
+            mask = np.full(x.shape, mask, dtype=bool)
         if not isinstance(mask, ARRAYTYPES):
             raise TypeError("'mask' must be an array")
         if not isinstance(mask, (np.ndarray, np.ma.MaskedArray)):
@@ -83,6 +82,8 @@ class Profile(object):
             raise TypeError("'unit_y' must be a 'Unit' object")
         if not len(x) == len(y):
             raise ValueError("'x' and 'y' must have the same length")
+        if not len(x) == len(mask):
+            raise ValueError("'x' and 'mask' must have the same length")
         order = np.argsort(x)
         self.__x = x[order]
         self.__y = y[order]
@@ -308,7 +309,10 @@ class Profile(object):
             self.__mask = np.empty(self.y.shape, dtype=bool)
             self.__mask.fill(mask)
         elif isinstance(mask, ARRAYTYPES):
-            self.__mask = np.array(mask, dtype=bool)
+            mask = np.array(mask, dtype=bool)
+            if mask.shape != self.__y.shape:
+                raise ValueError("'mask' and 'y' must have the same length")
+            self.__mask = mask
         else:
             raise Exception()
         self.__y[self.__mask] = np.NaN
-- 
2.43.0


From 71954e1b43c35412fb54b4c6a8098f3e5a1a4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 073/261] fix: refuse to add a quantity of another dimension to
 a profile

---
 IMTreatment/core/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index e3546d8..e416423 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -103,6 +103,10 @@ class Profile(object):
             name = self.name
             mask = self.mask
         elif isinstance(otherone, unum.Unum):
+            try:
+                self.unit_y + otherone
+            except unum.IncompatibleUnitsError:
+                raise ValueError("Incompatible units")
             y = self.y + (otherone/self.unit_y).asNumber()
             name = self.name
             mask = self.mask
-- 
2.43.0


From f8bd0264f656603d83115f089c4eab02c086d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 074/261] fix: sums of profiles in different units

---
 IMTreatment/core/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index e416423..b9444c4 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -116,11 +116,13 @@ class Profile(object):
                 self.unit_y + otherone.unit_y
             except:
                 raise ValueError("Profiles have not the same unit system")
+            if not np.isclose((otherone.unit_x/self.unit_x).asNumber(), 1):
+                raise ValueError("Profiles have not the same x unit")
             if not len(self.x) == len(otherone.x):
                 raise ValueError("Profiles have not the same length")
             if not all(self.x == otherone.x):
                 raise ValueError("Profiles have not the same x axis")
-            y = self.y + (self.unit_y/otherone.unit_y*otherone.y).asNumber()
+            y = self.y + otherone.y*(otherone.unit_y/self.unit_y).asNumber()
             name = ""
             mask = np.logical_or(self.mask, otherone.mask)
         else:
-- 
2.43.0


From d946b2ed41598da883b3e0b2fae00613c0c9d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 075/261] fix: refuse products of profiles on different
 abscissae and normalize their unit

---
 IMTreatment/core/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index b9444c4..d53a4a1 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -148,7 +148,7 @@ class Profile(object):
             y = self.y*new_unit_y.asNumber()
             new_unit_y = new_unit_y/new_unit_y.asNumber()
         elif isinstance(otherone, Profile):
-            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
+            if np.any(abs(otherone.x - self.x) > 1e-6*np.mean(abs(self.x))):
                 raise ValueError("Given profiles does'nt share the same"
                                  " x axis")
             if not otherone.unit_x == self.unit_x:
@@ -177,6 +177,8 @@ class Profile(object):
             mask = np.logical_or(self.mask[filt_self],
                                  otherone.mask[filt_other])
             unit_y = self.unit_y*otherone.unit_y
+            values = values*unit_y.asNumber()
+            unit_y = unit_y/unit_y.asNumber()
             tmp_prof = Profile(x, values, mask=mask, unit_x=self.unit_x,
                                unit_y=unit_y)
             return tmp_prof
-- 
2.43.0


From 4fa39eb77df34edc4265662e468644223b63da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 076/261] fix: dividing by a profile leaves it untouched and
 checks the abscissa unit

---
 IMTreatment/core/profile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d53a4a1..8930797 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -203,7 +203,9 @@ class Profile(object):
             name = self.name
             unit_y = tmpunit/tmpunit.asNumber()
         elif isinstance(otherone, Profile):
-            if not np.all(self.x == otherone.x):
+            if len(self.x) != len(otherone.x) or \
+               not np.all(self.x == otherone.x) or \
+               not otherone.unit_x == self.unit_x:
                 raise ValueError("Profile has to have identical x axis in "
                                  "order to divide them")
             else:
@@ -211,8 +213,8 @@ class Profile(object):
                 tmp_unit = self.unit_y/otherone.unit_y
                 y_tmp = self.y.copy()
                 y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                y_other = np.where(otherone.y == 0, 1, otherone.y)
+                y = y_tmp/y_other*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From 8dfbc1977208a634c9c46e5d2f4237b04d52a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 077/261] fix: keep masked points masked when raising a profile
 to the power 0

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8930797..0ed032d 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -229,8 +229,8 @@ class Profile(object):
                             "on a Profile")
         y = np.power(self.y, number)
         unit_y = np.power(self.unit_y, number)
-        return Profile(x=self.x, y=y, unit_x=self.unit_x, unit_y=unit_y,
-                       name=self.name)
+        return Profile(x=self.x, y=y, mask=self.mask, unit_x=self.unit_x,
+                       unit_y=unit_y, name=self.name)
 
     def __len__(self):
         return len(self.x)
-- 
2.43.0


From 1b3ef069ad48368d24516367b25e5dd054f26bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 078/261] fix: a refused abscissa leaves the profile untouched

---
 IMTreatment/core/profile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 0ed032d..13ddf0e 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -272,13 +272,12 @@ class Profile(object):
 
     @x.setter
     def x(self, values):
-        if isinstance(values, ARRAYTYPES):
-            self.__x = np.array(values, dtype=float)
-        else:
+        if not isinstance(values, ARRAYTYPES):
             raise Exception("'x' should be an array, not {}"
                             .format(type(values)))
         if len(values) != len(self.__y):
             raise Exception("Please set 'y' before 'x'")
+        self.__x = np.array(values, dtype=float)
         if len(self.__x) > 1:
             ind_sort = np.argsort(self.__x)
             self.__x = self.__x[ind_sort]
-- 
2.43.0


From cb21020ec33200e976e10b624a848d113b909135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 079/261] fix: fill the masked points of a profile with a value

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 13ddf0e..43bf7c7 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1602,7 +1602,7 @@ class Profile(object):
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From d107a6b1c3c3e9f1424eee60c16f078bc35c9f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 080/261] fix: fill profiles with crop=True

---
 IMTreatment/core/profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 43bf7c7..cd072a5 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1588,12 +1588,15 @@ class Profile(object):
         """
         # check if filling really necessary
         if not np.any(self.mask) and inplace:
-            return None,
+            return None
         elif not np.any(self.mask):
             return self.copy()
         # crop if asked
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_prof = self if inplace else self.copy()
+            tmp_prof.crop_masked_border(inplace=True)
+            return tmp_prof.fill(kind=kind, fill_value=fill_value,
+                                 inplace=inplace)
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From dbaeb383cdff0e87f9baa3646b3cccf0e47b3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 081/261] fix: lengths of the correlations and convolutions of
 profiles

---
 IMTreatment/core/profile.py     | 4 ++--
 IMTreatment/core/scalarfield.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index cd072a5..048f913 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -964,7 +964,7 @@ class Profile(object):
             return corr
         else:
             dx = self.x[1] - self.x[0]
-            x = np.arange(0, dx*len(corr), dx)
+            x = dx*np.arange(len(corr))
             return Profile(x, corr, unit_x=self.unit_x, unit_y=make_unit(''))
 
     def get_fitting(self, func, p0=None, output_param=False):
@@ -1202,7 +1202,7 @@ class Profile(object):
         # get convolution
         conv = np.convolve(self.y, other_prof.y, mode=mode)
         # store in a profile
-        conv_prof = Profile(np.arange(0, dx*len(conv), dx),
+        conv_prof = Profile(dx*np.arange(len(conv)),
                             conv, unit_x=self.unit_x,
                             unit_y=self.unit_y*other_prof.unit_y)
         # return
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 55cf7ab..76dc03a 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1013,7 +1013,7 @@ class ScalarField(fld.Field):
             cor /= nmb
             # returning
             dx = self.axe_x[1] - self.axe_x[0]
-            x = np.arange(0, len(cor)*dx, dx)
+            x = dx*np.arange(len(cor))
             return prof.Profile(x=x, y=cor, unit_x=self.unit_x,
                                 unit_y=make_unit(''))
         elif direction == 'y':
@@ -1029,7 +1029,7 @@ class ScalarField(fld.Field):
             cor /= nmb
             # returning
             dy = self.axe_y[1] - self.axe_y[0]
-            y = np.arange(0, len(cor)*dy, dy)
+            y = dy*np.arange(len(cor))
             return prof.Profile(x=y, y=cor, unit_x=self.unit_y,
                                 unit_y=make_unit(''))
         else:
-- 
2.43.0


From 4b23fc6dfbca642fd4110b5569a1359155742dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:17 +0000
Subject: [PATCH 082/261] fix: cropping a profile beyond its end keeps the last
 sample

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 048f913..a92f254 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1444,7 +1444,7 @@ class Profile(object):
                     or all(intervx > np.max(self.x)):
                 raise ValueError("'intervx' values are out of profile")
             ind1 = 0
-            ind2 = -1
+            ind2 = len(new_x)
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-- 
2.43.0


From 6479187b54bd08538e6d71aaea2334c5f9ce385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:17 +0000
Subject: [PATCH 083/261] fix: crop profiles along x and y at the same time

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index a92f254..a079d17 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1464,7 +1464,7 @@ class Profile(object):
             new_mask = new_mask[indices[0]:indices[1]]
         # treat intervy with ind=False
         if not ind and intervy is not None:
-            filt = np.logical_and(self.y > intervy[0], self.y < intervy[1])
+            filt = np.logical_and(new_y > intervy[0], new_y < intervy[1])
             new_x = new_x[filt]
             new_y = new_y[filt]
             new_mask = new_mask[filt]
@@ -1487,7 +1487,7 @@ class Profile(object):
             return None
         else:
             tmp_prof = Profile(new_x, new_y, new_mask, self.unit_x,
-                               self.unit_y)
+                               self.unit_y, name=self.name)
             return tmp_prof
 
     def scale(self, scalex=1., scaley=1., inplace=False):
-- 
2.43.0


From f62fbc1c5f0c74a3208e5a116cf8ba7c4ae2be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:30 +0000
Subject: [PATCH 084/261] fix: refuse fields whose axes or values are in other
 units in a temporal series

---
 IMTreatment/core/temporalfields.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d79a84c..a72451d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1156,6 +1156,16 @@ class TemporalFields(flds.Fields, fld.Field):
                     np.array_equal(axe_y, vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
+            try:
+                same_units = np.allclose(
+                    [field.unit_x.asNumber(self.unit_x),
+                     field.unit_y.asNumber(self.unit_y),
+                     field.unit_values.asNumber(self.unit_values)], 1)
+            except unum.IncompatibleUnitsError:
+                same_units = False
+            if not same_units:
+                raise ValueError("Units of the new field must be consistent "
+                                 "with current units")
             # storing time
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
-- 
2.43.0


From 3f0771618316b85a0778d391f6640c96a2161daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:23 +0000
Subject: [PATCH 085/261] fix: flip the mask of vector fields with their values
 when scaling by negative factors

---
 IMTreatment/core/vectorfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index d8d57ca..6ae1e74 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -750,12 +750,15 @@ class VectorField(field.Field):
         if revx and revy:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[::-1, ::-1]
+            tmp_f.__mask = tmp_f.mask[::-1, ::-1]
         elif revx:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, :]
             tmp_f.comp_y = tmp_f.comp_y[::-1, :]
+            tmp_f.__mask = tmp_f.mask[::-1, :]
         elif revy:
             tmp_f.comp_x = tmp_f.comp_x[:, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[:, ::-1]
+            tmp_f.__mask = tmp_f.mask[:, ::-1]
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From 5aa3cba6fc3de3e74d7ee8f2f1485742b88cbd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:23 +0000
Subject: [PATCH 086/261] fix: accept time units that are normalized up to
 rounding

---
 IMTreatment/core/temporalfields.py | 4 ++--
 IMTreatment/core/temporalpoints.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index a72451d..dd4f702 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -266,7 +266,7 @@ class TemporalFields(flds.Fields, fld.Field):
     @unit_times.setter
     def unit_times(self, new_unit_times):
         if isinstance(new_unit_times, unum.Unum):
-            if new_unit_times.asNumber() == 1:
+            if np.isclose(new_unit_times.asNumber(), 1):
                 self.__unit_times = new_unit_times
             else:
                 raise ValueError()
@@ -1129,7 +1129,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("'time' should be a number, not {}"
                             .format(type(time)))
         if isinstance(unit_times, unum.Unum):
-            if unit_times.asNumber() != 1:
+            if not np.isclose(unit_times.asNumber(), 1):
                 raise ValueError()
         elif isinstance(unit_times, STRINGTYPES):
             unit_times = make_unit(unit_times)
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index f11a3a5..86683a7 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -102,7 +102,7 @@ class TemporalPoints(object):
     @unit_times.setter
     def unit_times(self, new_unit_times):
         if isinstance(new_unit_times, unum.Unum):
-            if new_unit_times.asNumber() == 1:
+            if np.isclose(new_unit_times.asNumber(), 1):
                 self.__unit_times = new_unit_times
             else:
                 raise ValueError()
@@ -211,7 +211,7 @@ class TemporalPoints(object):
             raise TypeError("'time' should be a number, not {}"
                             .format(type(time)))
         if isinstance(unit_times, unum.Unum):
-            if unit_times.asNumber() != 1:
+            if not np.isclose(unit_times.asNumber(), 1):
                 raise ValueError()
         elif isinstance(unit_times, STRINGTYPES):
             unit_times = make_unit(unit_times)
-- 
2.43.0


From 9fc65a7d2be578cae1fe95b445366326785ccda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 087/261] fix: fields with a single line or column can be
 imported

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 76dc03a..0ce7c4c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -490,8 +490,8 @@ class ScalarField(fld.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
-- 
2.43.0


From de3adb1715c4225f952dd91b5f7d8d5e4516de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:03 +0000
Subject: [PATCH 088/261] fix: vector fields with a single line or column can
 be imported

---
 IMTreatment/core/vectorfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 6ae1e74..f9d3404 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -555,8 +555,8 @@ class VectorField(field.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
-- 
2.43.0


From bbb60d6ec4117652855770e89754f4ed76bc0a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:00 +0000
Subject: [PATCH 089/261] fix: positions of a value in a profile: every place
 where it is reached, index form of abscissa look-up

---
 IMTreatment/core/profile.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index a079d17..8931224 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -589,13 +589,13 @@ class Profile(object):
             values2 = np.ma.masked_array(self.y, self.mask)
         else:
             value = y
+            values = np.ma.masked_array(self.y, self.mask)
             if ind:
-                values = np.arange(self.y)
+                values2 = np.arange(len(self.x))
             else:
-                values = np.ma.masked_array(self.y, self.mask)
-            values2 = np.array(self.x)
+                values2 = np.array(self.x)
         # if the wanted value is already present
-        if np.any(value == values):
+        if x is not None and np.any(value == values):
             i_values = values2[np.where(value == values)[0]]
         # if we have to do an interpolation
         else:
@@ -605,12 +605,16 @@ class Profile(object):
                 val_ipp = values[ind + 1]
                 val2_i = values2[ind]
                 val2_ipp = values2[ind + 1]
-                if (val_i >= value and val_ipp < value) \
-                        or (val_i <= value and val_ipp > value):
+                if val_i == value:
+                    i_values.append(val2_i)
+                elif (val_i > value and val_ipp < value) \
+                        or (val_i < value and val_ipp > value):
                     i_value = ((val2_i*np.abs(val_ipp - value) +
                                val2_ipp*np.abs(values[ind] - value)) /
                                np.abs(values[ind] - val_ipp))
                     i_values.append(i_value)
+            if len(values) != 0 and values[-1] == value:
+                i_values.append(values2[-1])
         # returning
         return i_values
 
@@ -629,14 +633,8 @@ class Profile(object):
         # check parameters
         if not isinstance(value, NUMBERTYPES):
             raise TypeError()
-        # if the asked value is present
-        if np.any(self.y == value):
-            ind_0 = np.argwhere(self.y == value)[0]
-            if ind:
-                return ind_0
-            else:
-                pos_0 = [self.x[i] for i in ind_0]
-                return pos_0
+        # samples with the asked value
+        exact = np.where(self.y == value)[0]
         # search for positions
         y = self.y
         y[self.mask] = 0
@@ -646,6 +644,7 @@ class Profile(object):
         chang = np.abs(np.logical_xor(sign[1::], sign[0:-1:]))
         mask_chang = np.logical_or(self.mask[1::], self.mask[0:-1:])
         chang[mask_chang] = False
+        chang[np.logical_or(y[1::] == 0, y[0:-1:] == 0)] = False
         ind_0 = np.argwhere(chang).flatten()
         # get interpolated 0-value position
         val_1 = np.abs(y[ind_0])
@@ -659,6 +658,12 @@ class Profile(object):
             x_1 = x[ind_0]
             x_2 = x[ind_0 + 1]
         pos_0 = x_1 + val_1/(val_1 + val_2)*(x_2 - x_1)
+        # add the samples with the asked value
+        if len(exact) != 0:
+            pos_exact = exact if ind else x[exact]
+            if len(pos_0) == 0:
+                return pos_exact
+            pos_0 = np.sort(np.concatenate((pos_0, pos_exact)))
         # returning
         return pos_0
 
-- 
2.43.0


From 2d2974fe62bc92c52631de9a6bff2b7d345e92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:47 +0000
Subject: [PATCH 090/261] fix: integer values of points can be scaled and
 converted

---
 IMTreatment/core/points.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 676e21e..ab5a4bb 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -190,6 +190,8 @@ class Points(object):
             self.__v = np.array([])
         else:
             values = np.array(values, subok=True)
+            if values.dtype.kind in 'iu':
+                values = values.astype(float)
             if not values.ndim == 1:
                 raise ValueError()
             if not len(values) in [0, len(self.__xy)]:
-- 
2.43.0


From 40205f1d090f18c3de42950cd8dcd62aa746d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:47 +0000
Subject: [PATCH 091/261] fix: sub-resolution of point densities

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index ab5a4bb..816d39f 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -461,8 +461,8 @@ class Points(object):
         if not isinstance(ponderated, bool):
             raise TypeError()
         if isinstance(subres, int) and subres > 0:
-            subres = np.floor(subres/2)*2
-            subres2 = (subres)/2
+            subres = int(np.floor(subres/2)*2)
+            subres2 = subres//2
         elif subres is None:
             pass
         else:
-- 
2.43.0


From 039aa7e3a5f2b7794e16f0cf4e5a44efdf74b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:47 +0000
Subject: [PATCH 092/261] fix: unit of the abscissa of point velocities

---
 IMTreatment/core/points.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 816d39f..4c5c97f 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -697,21 +697,24 @@ class Points(object):
         # getting xaxis
         if xaxis == 'time':
             x_prof = times[:-1] + dt/2.
+            unit_prof = self.unit_v
         elif xaxis == 'x':
             x_prof = x[:-1] + dx/2.
+            unit_prof = self.unit_x
         elif xaxis == 'y':
             x_prof = y[:-1] + dy/2.
+            unit_prof = self.unit_y
         # returning profiles
         from .profile import Profile
         unit_Vx = self.unit_x/self.unit_v
         Vx *= unit_Vx.asNumber()
         unit_Vx /= unit_Vx.asNumber()
-        prof_x = Profile(x_prof, Vx, mask=False, unit_x=self.unit_v,
+        prof_x = Profile(x_prof, Vx, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vx)
         unit_Vy = self.unit_y/self.unit_v
         Vy *= unit_Vy.asNumber()
         unit_Vy /= unit_Vy.asNumber()
-        prof_y = Profile(x_prof, Vy, mask=False, unit_x=self.unit_v,
+        prof_y = Profile(x_prof, Vy, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vy)
         return prof_x, prof_y
 
-- 
2.43.0


From c1ab096ccea37ca517bc77e7a2302539e18688b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 093/261] fix: ordering points on a line with current
 scikit-learn

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 4c5c97f..409e876 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1268,7 +1268,7 @@ class Points(object):
             tmp_pts = self.copy()
         #
         from sklearn.neighbors import NearestNeighbors
-        clf = NearestNeighbors(2).fit(self.xy)
+        clf = NearestNeighbors(n_neighbors=2).fit(self.xy)
         G = clf.kneighbors_graph()
         import networkx as nx
         T = nx.from_scipy_sparse_array(G)
-- 
2.43.0


From d0f5e65066eb3fd2eafdc7b0b9464157b09be061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 094/261] fix: point densities with different units in x and y

---
 IMTreatment/core/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 409e876..9d62a52 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -408,7 +408,8 @@ class Points(object):
             unit_values = make_unit('')
         elif output_format == "concentration":
             unit_values = 1/self.unit_x/self.unit_y
-            values = values*len(self.xy)
+            values = values*len(self.xy)*unit_values.asNumber()
+            unit_values = unit_values/unit_values.asNumber()
         else:
             raise ValueError()
         # return
@@ -528,6 +529,8 @@ class Points(object):
                 unit_values = self.unit_v/self.unit_x/self.unit_y
             else:
                 unit_values = 1/self.unit_x/self.unit_y
+            values = values*unit_values.asNumber()
+            unit_values = unit_values/unit_values.asNumber()
             sf.import_from_arrays(axe_x, axe_y, values, mask=False,
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=unit_values)
-- 
2.43.0


From 8f31a713edf67cad5fa563bb88b03d3d7beaa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:23 +0000
Subject: [PATCH 095/261] fix: sums of temporal fields with times in different
 units

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index dd4f702..c4ee1bc 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -63,7 +63,8 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            if self.unit_times == other.unit_times and \
+               np.array_equal(self.times, other.times):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
-- 
2.43.0


From 559c03547c91ff9734f2cfdb9c6c334764d0d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:24 +0000
Subject: [PATCH 096/261] fix: phase maps of square fields are no longer
 transposed

---
 IMTreatment/core/temporalscalarfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index f3e5476..dfcab84 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -284,14 +284,14 @@ class TemporalScalarFields(tf.TemporalFields):
         norm = sf.ScalarField()
         norm.import_from_arrays(axe_x=self.axe_x,
                                 axe_y=self.axe_y,
-                                values=norms.transpose(),
+                                values=norms,
                                 unit_x=self.unit_x,
                                 unit_y=self.unit_y,
                                 unit_values="")
         phase = sf.ScalarField()
         phase.import_from_arrays(axe_x=self.axe_x,
                                  axe_y=self.axe_y,
-                                 values=phases.transpose(),
+                                 values=phases,
                                  unit_x=self.unit_x,
                                  unit_y=self.unit_y,
                                  unit_values="rad")
-- 
2.43.0


From 5e40f365836fc413c1bc07c811007347f3dc7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:24 +0000
Subject: [PATCH 097/261] fix: frequency maps carry the unit of the frequency

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index c4ee1bc..ce85f2e 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -838,7 +838,7 @@ class TemporalFields(flds.Fields, fld.Field):
                                            mask=map_freq_mask,
                                            unit_x=self.unit_x,
                                            unit_y=self.unit_y,
-                                           unit_values=spec.unit_y)
+                                           unit_values=spec.unit_x)
             map_freq_quality_sf = sf.ScalarField()
             map_freq_quality_sf.import_from_arrays(axe_x=self.axe_x,
                                                    axe_y=self.axe_y,
-- 
2.43.0


From 02b06f08d0ebec0d18deada658d2401f1cc2716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 098/261] fix: temporal series of dimensionless fields

---
 IMTreatment/core/temporalfields.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index ce85f2e..29b7e3b 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1158,10 +1158,11 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             try:
-                same_units = np.allclose(
-                    [field.unit_x.asNumber(self.unit_x),
-                     field.unit_y.asNumber(self.unit_y),
-                     field.unit_values.asNumber(self.unit_values)], 1)
+                same_units = np.all(
+                    [abs(((new - old)/old).asNumber()) < 1e-6
+                     for new, old in [(field.unit_x, self.unit_x),
+                                      (field.unit_y, self.unit_y),
+                                      (field.unit_values, self.unit_values)]])
             except unum.IncompatibleUnitsError:
                 same_units = False
             if not same_units:
-- 
2.43.0


From 51f89aef5c6b6e7637133ef89a9e8dae22f9b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 099/261] fix: removing a field from a series removes its time
 too

---
 IMTreatment/core/temporalfields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 29b7e3b..83b14ad 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1190,6 +1190,8 @@ class TemporalFields(flds.Fields, fld.Field):
         self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
+    remove_field = remove_fields
+
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
         """
         Reduce the spatial resolution of the fields by a factor 'fact'
-- 
2.43.0


From 5c1a418e475bec3cd0d04e1660ca4cbb817e1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:33 +0000
Subject: [PATCH 100/261] fix: evenly spacing a profile in place returns the
 profile itself

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8931224..00df4a1 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1748,7 +1748,7 @@ class Profile(object):
         dxs = self.x[1::] - self.x[:-1:]
         dxi = self.x[1] - self.x[0]
         if np.all(np.abs(dxs - dxi) < 1e-6*np.max(dxs)):
-            return self.copy()
+            return tmpp
         # getting data
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From 8797101f814ddc2c3adf46a589cd4ddc27ed518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 101/261] fix: a refused import leaves a vector field untouched

---
 IMTreatment/core/vectorfield.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f9d3404..4f3c08e 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -525,8 +525,6 @@ class VectorField(field.Field):
             Should be a type supported by numpy arrays.
             Default to 'float'.
         """
-        # overwrite previous
-        self.__clean()
         # Use numpy arrays
         axe_x = np.array(axe_x, dtype=float)
         axe_y = np.array(axe_y, dtype=float)
@@ -570,6 +568,11 @@ class VectorField(field.Field):
                 mask = mask.transpose()
             except:
                 pass
+        shape = (len(axe_x), len(axe_y))
+        if comp_x.shape != shape or comp_y.shape != shape or \
+           mask.shape != shape:
+            raise ValueError("Components and mask shapes are not consistent "
+                             "with the axes lengths {}".format(shape))
         # Be sure axes are crescent
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
@@ -581,6 +584,8 @@ class VectorField(field.Field):
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
             mask = mask[:, ::-1]
+        # overwrite previous
+        self.__clean()
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From 21a9a7e097c0dee7a1ff0fb445b66dbb8c9497f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:51 +0000
Subject: [PATCH 102/261] fix: a failed import or export restores the garbage
 collector and closes the file

---
 IMTreatment/file_operation/file_operation.py | 38 ++++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7c55a1e..7b716c0 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -303,16 +303,16 @@ def import_from_file(filepath, **kw):
     filepath = check_path(filepath)
     extension = path.splitext(filepath)[1]
     # importing file
-    if extension == ".imt":
+    gc_enabled = gc.isenabled()
+    if extension in [".imt", ".cimt"]:
+        file_open = open if extension == ".imt" else gzip.open
         gc.disable()
-        with open(filepath, 'rb') as f:
-            obj = pickle.load(f)
-        gc.enable()
-    elif extension == ".cimt":
-        gc.disable()
-        with gzip.open(filepath, 'rb') as f:
-            obj = pickle.load(f)
-        gc.enable()
+        try:
+            with file_open(filepath, 'rb') as f:
+                obj = pickle.load(f)
+        finally:
+            if gc_enabled:
+                gc.enable()
     else:
         raise IOError("File is not readable "
                       "(unknown extension : {})".format(extension))
@@ -347,21 +347,21 @@ def export_to_file(obj, filepath, compressed=True, **kw):
         # creating/filling up the file
         raise TypeError("'compressed' must be a boolean")
     if compressed:
-        gc.disable()
         if path.splitext(filepath)[1] != ".cimt":
             filepath = filepath + ".cimt"
-        f = gzip.open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
+        file_open = gzip.open
     else:
-        gc.disable()
         if path.splitext(filepath)[1] != ".imt":
             filepath = filepath + ".imt"
-        f = open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
+        file_open = open
+    gc_enabled = gc.isenabled()
+    gc.disable()
+    try:
+        with file_open(filepath, 'wb') as f:
+            pickle.dump(obj, f, protocol=-1)
+    finally:
+        if gc_enabled:
+            gc.enable()
 
 
 def imts_to_imt(imts_path, imt_path, kind):
-- 
2.43.0


From c4f590502f705b249c8bb039d176f717634a16ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:51 +0000
Subject: [PATCH 103/261] fix: concatenating imt files keeps the order of the
 files

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7b716c0..8d4b798 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -385,7 +385,7 @@ def imts_to_imt(imts_path, imt_path, kind):
     if not isinstance(kind, STRINGTYPES):
         raise TypeError()
     # getting paths
-    paths = glob(imts_path + "/*")
+    paths = sorted(glob(imts_path + "/*"))
     # getting data type
     if kind == 'TSF':
         imts_type = 'SF'
-- 
2.43.0


From 930c340faf9435422280208bcd40007bffe32b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:51 +0000
Subject: [PATCH 104/261] fix: units of the values of points imported from
 matlab

---
 IMTreatment/file_operation/file_operation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 8d4b798..7f88f12 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -506,8 +506,7 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
             tdata = data[entry]
             while not isinstance(tdata, str) and len(tdata) == 1:
                 tdata = tdata[0]
-            print(tdata)
-            if key in ['unit_x', 'unit_y', 'unit_values']:
+            if key in ['unit_x', 'unit_y', 'unit_v', 'unit_values']:
                 if isinstance(tdata, str):
                     build_dic[key] = tdata
                 else:
-- 
2.43.0


From 1b975a22206510bdebcff1156969a6a5933998f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:51 +0000
Subject: [PATCH 105/261] fix: pictures can be exported to new files, with the
 same orientation for lists of fields

---
 IMTreatment/file_operation/file_operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7f88f12..345a651 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1484,7 +1484,7 @@ def export_to_picture(SF, filepath):
     filepath : string
         Path to the picture file.
     """
-    filepath = check_path(filepath)
+    filepath = check_path(filepath, newfile=True)
     values = SF.values[:, ::-1].transpose()
     imageio.imwrite(filepath, values)
 
@@ -1507,7 +1507,7 @@ def export_to_pictures(SFs, filepath):
     values = []
     if isinstance(SFs, ARRAYTYPES):
         for i in np.arange(len(SFs)):
-            values.append(SFs[i].values)
+            values.append(SFs[i].values[:, ::-1].transpose())
     elif isinstance(SFs, (SpatialScalarFields, TemporalScalarFields)):
         for i in np.arange(len(SFs.fields)):
             values.append(SFs.fields[i].values[:, ::-1].transpose())
-- 
2.43.0


From cf68cdffd4ee05a0a3e9a136390f06603c1b01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 106/261] fix: scalar fields read from text tables in any order
 of the rows

---
 IMTreatment/file_operation/file_operation.py | 40 ++++----------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 345a651..649f488 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1692,38 +1692,14 @@ def import_sf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     y_org = np.sort(np.unique(y))
     vx = data[:, vx_col-1]
 
-    # check if structured or not
-    X1 = x.reshape(len(x_org), len(y_org))
-    X2 = x.reshape(len(y_org), len(x_org))
-    if np.allclose(np.mean(X1, axis=1), x_org):
-        vx_org = vx.reshape(len(x_org), len(y_org))
-        mask = np.isnan(vx_org)
-    elif np.allclose(np.mean(X2, axis=0), x_org):
-        vx_org = vx.reshape(len(y_org), len(x_org)).transpose()
-        vx_org = np.fliplr(vx_org)
-        mask = np.isnan(vx_org)
-    else:
-        # Masking all the initial fields (to handle missing values)
-        vx_org = np.zeros((y_org.shape[0], x_org.shape[0]))
-        vx_org_mask = np.ones(vx_org.shape)
-        vx_org = np.ma.masked_array(vx_org, vx_org_mask)
-        #loop on all 'v' values
-        x_ind = 0
-        y_ind = 0
-        for i in np.arange(vx.shape[0]):
-            x_tmp = x[i]
-            y_tmp = y[i]
-            vx_tmp = vx[i]
-            #find x index
-            if x_org[x_ind] != x_tmp:
-                x_ind = np.where(x_tmp == x_org)[0][0]
-            #find y index
-            if y_org[y_ind] != y_tmp:
-                y_ind = np.where(y_tmp == y_org)[0][0]
-            #put the value at its place
-            vx_org[y_ind, x_ind] = vx_tmp
-        # Treating 'nan' values
-        mask = np.logical_or(vx_org.mask, np.isnan(vx_org.data))
+    # Masking all the initial fields (to handle missing values)
+    vx_org = np.zeros((len(x_org), len(y_org)))
+    mask = np.ones(vx_org.shape, dtype=bool)
+    # put the values at their place
+    x_ind = np.searchsorted(x_org, x)
+    y_ind = np.searchsorted(y_org, y)
+    vx_org[x_ind, y_ind] = vx
+    mask[x_ind, y_ind] = np.isnan(vx)
 
     #store field in attributes
     tmpsf = ScalarField()
-- 
2.43.0


From a519f2ac9e29ea2dbc1840045b18c5a7e5cf7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 107/261] fix: import of series of vector fields from text
 files

---
 IMTreatment/file_operation/file_operation.py | 21 +++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 649f488..73dfdbd 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1843,13 +1843,15 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
             raise ValueError("'interval' must be a 2x1 array")
         if interval[0] > interval[1]:
             interval = [interval[1], interval[0]]
-    filepath = check_path(filepath)
-    paths = glob.glob(filepath)
+    paths = sorted(glob(filepath))
+    if len(paths) == 0:
+        raise FileNotFoundError("No file corresponding to '{}'"
+                                .format(filepath))
     if interval is None:
         interval = [0, len(paths)-1]
-    if interval[0] < 0 or interval[1] > len(paths):
+    if interval[0] < 0 or interval[1] > len(paths) - 1:
         raise ValueError("'interval' is out of bounds")
-    if times == []:
+    if len(times) == 0:
         times = np.arange(len(paths))
     if len(paths) != len(times):
         raise ValueError("Not enough values in 'times'")
@@ -1865,11 +1867,12 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
         if len(path) != ref_path_len:
             raise Warning("You should check your files names,"
                           "i may have taken them in the wrong order.")
-        tmp_vf = VectorField()
-        tmp_vf.import_from_ascii(path, x_col, y_col, vx_col, vy_col,
-                                 unit_x, unit_y, unit_values, times[i],
-                                 unit_time, **kwargs)
-        fields.add_field(tmp_vf)
+        tmp_vf = import_vf_from_ascii(path, x_col, y_col, vx_col, vy_col,
+                                      unit_x, unit_y, unit_values, **kwargs)
+        if kind == 'TVF':
+            fields.add_field(tmp_vf, time=times[i], unit_times=unit_time)
+        else:
+            fields.add_field(tmp_vf)
     return fields
 
 
-- 
2.43.0


From 5621022de641dfc64df00e896b88700a83aed95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 108/261] fix: orientation of the supplementary fields of VC7
 files

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 73dfdbd..e7169f5 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -971,7 +971,7 @@ def import_from_VC7(filename, infos=False, add_fields=False):
     if add_fields and fmt in [1, 3]:
         suppl_fields = []
         for i in np.arange(4, v_array.shape[0]):
-            suppl_fields.append(np.transpose(np.array(v_array[i])))
+            suppl_fields.append(np.array(v_array[i]))
     # Get and apply scale on values
     scale_i = atts['_SCALE_I']
     scale_i = scale_i.split("\n")
-- 
2.43.0


From 624480f74c0edc30a54c3d3c52ab41dea051e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 109/261] fix: conversion of a single VC7 file to a new imt
 file

---
 IMTreatment/file_operation/file_operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index e7169f5..4acbc7f 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1229,7 +1229,7 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
     """
     # checking parameters
     vc7_path = check_path(vc7_path)
-    imt_path = check_path(imt_path)
+    imt_path = check_path(imt_path, newfile=True)
     # checking if file or directory
     if path.isdir(vc7_path):
         if kind in ['SVF', 'TVF']:
@@ -1246,8 +1246,8 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
                 export_to_file(VF, imt_path + "/{}".format(name),
                                compressed=compressed)
     elif path.isfile(vc7_path):
-        SF = import_from_IM7(vc7_path, **kwargs)
-        export_to_file(SF, imt_path)
+        VF = import_from_VC7(vc7_path, **kwargs)
+        export_to_file(VF, imt_path)
     else:
         raise ValueError()
 
-- 
2.43.0


From 720201b74271949a169ece4001dc9a2ac5abbb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:12 +0000
Subject: [PATCH 110/261] fix: corrupted and truncated compressed files are
 refused

---
 IMTreatment/file_operation/file_operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 4acbc7f..224d7be 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -310,6 +310,8 @@ def import_from_file(filepath, **kw):
         try:
             with file_open(filepath, 'rb') as f:
                 obj = pickle.load(f)
+                # reach the end of the file (checks compressed data integrity)
+                f.read()
         finally:
             if gc_enabled:
                 gc.enable()
-- 
2.43.0


From 388afd3d62068ba4314179cf5355a42df0ce0f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 111/261] fix: intensity scales of DaVis files mixing integers
 and decimals

---
 IMTreatment/file_operation/file_operation.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 224d7be..0103c9c 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -802,12 +802,7 @@ def import_from_IM7(filename, infos=False):
     scale_i = scale_i.split("\n")
     scale_val = scale_i[0].split(' ')
     unit_values = scale_i[1]
-    try:
-        values *= int(scale_val[0])
-        values += int(scale_val[1])
-    except ValueError:
-        values *= float(scale_val[0])
-        values += float(scale_val[1])
+    values = values*float(scale_val[0]) + float(scale_val[1])
     # X
     scale_x = atts['_SCALE_X']
     scale_x = scale_x.split("\n")
@@ -979,16 +974,8 @@ def import_from_VC7(filename, infos=False, add_fields=False):
     scale_i = scale_i.split("\n")
     unit_values = scale_i[1]
     scale_val = scale_i[0].split(' ')
-    try:
-        Vx *= int(scale_val[0])
-        Vx += int(scale_val[1])
-        Vy *= int(scale_val[0])
-        Vy += int(scale_val[1])
-    except ValueError:
-        Vx *= float(scale_val[0])
-        Vx += float(scale_val[1])
-        Vy *= float(scale_val[0])
-        Vy += float(scale_val[1])
+    Vx = Vx*float(scale_val[0]) + float(scale_val[1])
+    Vy = Vy*float(scale_val[0]) + float(scale_val[1])
     # Get and apply scale on X
     scale_x = atts['_SCALE_X']
     scale_x = scale_x.split("\n")
-- 
2.43.0


From 0373a94f1e38c00c60b282f58f44e5235b1727b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 112/261] fix: import points without values from matlab

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 0103c9c..886d02b 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -513,7 +513,7 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
                     build_dic[key] = tdata
                 else:
                     build_dic[key] = ''.join(chr(n) for n in tdata)
-            else:
+            elif np.size(tdata) > 0:
                 build_dic[key] = np.array(tdata)
     if is_h5py and dataf is not None:
         dataf.close()
-- 
2.43.0


From be920be6b5d8d4b15917d99f1ccd19a7abe296ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:10 +0000
Subject: [PATCH 113/261] fix: reconstruction from gradients takes the units
 along y into account

---
 IMTreatment/field_treatment/field_treatment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index e70619a..6aa154b 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -229,7 +229,9 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
         dx = axe_x[1] - axe_x[0]
         dy = axe_y[1] - axe_y[0]
         du_dx = field_dx.values
-        du_dy = field_dy.values
+        fact_dy = (field_dy.unit_values*field_dy.unit_y
+                   / (field_dx.unit_values*field_dx.unit_x)).asNumber()
+        du_dy = field_dy.values*fact_dy
         unit_values = field_dx.unit_values*field_dx.unit_x
         fact_unit_values = unit_values.asNumber()
         unit_values /= unit_values.asNumber()
-- 
2.43.0


From 40520c17f801664e732c2ee187d31695be1900c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:10 +0000
Subject: [PATCH 114/261] fix: eigenvalues of the jacobian have a unit and do
 not mix the units of x and y

---
 IMTreatment/field_treatment/field_treatment.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 6aa154b..829367f 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -408,10 +408,11 @@ def get_jacobian_eigenproperties(field, raw=False, eig_val=True,
     mask = np.logical_or(mask, Vx_dy.mask)
     mask = np.logical_or(mask, Vy_dx.mask)
     mask = np.logical_or(mask, Vy_dy.mask)
+    fact_dy = (field.unit_x/field.unit_y).asNumber()
     Vx_dx = Vx_dx.data
-    Vx_dy = Vx_dy.data
+    Vx_dy = Vx_dy.data*fact_dy
     Vy_dx = Vy_dx.data
-    Vy_dy = Vy_dy.data
+    Vy_dy = Vy_dy.data*fact_dy
     # loop on flatten arrays
     eig1 = np.zeros(shape, dtype=complex)
     eig2 = np.zeros(shape, dtype=complex)
@@ -456,26 +457,31 @@ def get_jacobian_eigenproperties(field, raw=False, eig_val=True,
     else:
         ret = ()
         if eig_val:
+            unit_eig = field.unit_values/field.unit_x
+            fact_eig = unit_eig.asNumber()
+            unit_eig = unit_eig/fact_eig
+            eig1_r, eig1_i = eig1_r*fact_eig, eig1_i*fact_eig
+            eig2_r, eig2_i = eig2_r*fact_eig, eig2_i*fact_eig
             eig1_re_sf = ScalarField()
             eig1_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_r,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             eig1_im_sf = ScalarField()
             eig1_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_i,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             eig2_re_sf = ScalarField()
             eig2_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_r,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             eig2_im_sf = ScalarField()
             eig2_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_i,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             ret += (eig1_re_sf, eig1_im_sf, eig2_re_sf, eig2_im_sf)
         if eig_vect:
             eig1_vf = VectorField()
-- 
2.43.0


From c2440386afa201a406da7510d36bd4daa440c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:59 +0000
Subject: [PATCH 115/261] fix: filling works when the neighbours of the masked
 points are aligned (masked corner or side)

---
 IMTreatment/core/scalarfield.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 0ce7c4c..e9c2408 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1863,6 +1863,11 @@ class ScalarField(fld.Field):
                                            np.arange(9).reshape((3, 3)))
             filt_good = np.logical_and(filt, dilated)
             xy_good = xy[filt_good.flatten()]
+            # those points alone cannot be triangulated
+            if len(xy_good) < 3 or \
+                    np.linalg.matrix_rank(xy_good - xy_good[0]) < 2:
+                filt_good = filt
+                xy_good = xy[filt_good.flatten()]
             values_good = values[filt_good]
         elif not reduce_tri and kind in ['nearest', 'linear', 'cubic']:
             xy_good = xy[filt.flatten()]
-- 
2.43.0


From 7cd98ed5010e46d84bec6e89d3be1c82a050bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:12 +0000
Subject: [PATCH 116/261] fix: streamlines started from integer coordinates
 start there

---
 IMTreatment/field_treatment/field_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 829367f..ac8b87f 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -799,7 +799,7 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
         masked_values = False
     if not isinstance(xys, ARRAYTYPES):
         raise TypeError()
-    xys = np.array(xys)
+    xys = np.array(xys, dtype=float)
     if xys.shape == (2,):
         xys = np.array([xys], subok=True, dtype=float)
     if xys.ndim != 2:
-- 
2.43.0


From 84b5c80bb42056e2d1a55784356675e7a4df4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:12 +0000
Subject: [PATCH 117/261] fix: tracklines can be reversed

---
 IMTreatment/field_treatment/field_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index ac8b87f..3666f2c 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -1032,7 +1032,7 @@ def get_tracklines(VF, xys, reverse=False, rel_err=1.e-8,
     """
     # get the track field
     track_field = get_track_field(VF)
-    return get_streamlines(track_field, xys, rel_err=rel_err,
+    return get_streamlines(track_field, xys, reverse=reverse, rel_err=rel_err,
                            max_steps=max_steps, resolution=resolution,
                            resolution_kind=resolution_kind,
                            boundary_tr=boundary_tr)
-- 
2.43.0


From 80a2a94022910b850db73590ac317f30f1294e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:12 +0000
Subject: [PATCH 118/261] fix: fast streamlines work on fields with masked
 values

---
 IMTreatment/field_treatment/field_treatment.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 3666f2c..6a29c02 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -675,10 +675,9 @@ def get_streamlines_fast(vf, xy, delta=.25, interp='linear',
     if not (interp == 'linear' or interp == 'cubic'):
         raise ValueError("Unknown interpolation method")
     # getting datas
-    tmpvf = vf.copy()
-    tmpvf.fill()
+    tmpvf = vf.fill()
     unit_x, unit_y = vf.unit_x, vf.unit_y
-    Vx, Vy = vf.comp_x, vf.comp_y
+    Vx, Vy = tmpvf.comp_x, tmpvf.comp_y
     deltaabs = delta * ((axe_x[-1]-axe_x[0])/len(axe_x)
                         + (axe_y[-1]-axe_y[0])/len(axe_y))/2.
     deltaabs2 = deltaabs**2
-- 
2.43.0


From a1ac14cc5c2576ca5ad2330c63e5e0534d539bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:03 +0000
Subject: [PATCH 119/261] fix: streamlines stop at a stagnation point instead
 of going to nan

---
 IMTreatment/field_treatment/field_treatment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 6a29c02..be7ca84 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -916,7 +916,10 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
                     if resolution_kind == "time":
                         rk_dt = resolution
                     else:
-                        rk_dt = dxy/np.linalg.norm(fun(res[-1]))*resolution
+                        vel = np.linalg.norm(fun(res[-1]))
+                        if vel == 0:
+                            break
+                        rk_dt = dxy/vel*resolution
                 except (ValueError, RuntimeWarning):
                     break
                 try:
-- 
2.43.0


From f3a3763ea46121666b6c22a9d1e9ea267464242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 120/261] fix: vorticity is the curl of the velocity, not half
 of it

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 726c37d..c387135 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -854,7 +854,7 @@ def get_vorticity(vf, raw=False):
         dy = axe_y[1] - axe_y[0]
         _, Exy = np.gradient(comp_x, dx, dy)
         Eyx, _ = np.gradient(comp_y, dx, dy)
-        vort = (Eyx - Exy)/2.
+        vort = Eyx - Exy
         if raw:
             return vort
         else:
-- 
2.43.0


From b08c392de55df253ab8d1834b94b976b1149544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 121/261] fix: vorticity from Stokes' theorem is divided by the
 area of the window contour

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index c387135..92a5c5f 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -944,7 +944,7 @@ def get_stokes_vorticity(vf, window_size=2, raw=False):
             bord_vec = -Vx[i:i + window_size, j + window_size - 1].copy()
             tmp_vort += np.trapz(bord_vec, dx=dx)
             # adding coefficients
-            tmp_vort *= 1./(dx*dy*window_size**2)
+            tmp_vort *= 1./(dx*dy*(window_size - 1)**2)
             # storing
             vort[i, j] = tmp_vort
     # returning
-- 
2.43.0


From 0272811cc34d114847a79cd6cbb4c4117defbcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 122/261] fix: Q criterion is half of the difference of the
 rotation and strain rate norms

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 92a5c5f..0618947 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1104,7 +1104,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    qcrit = .5*(norm_rot2) - norm_shear2
+    qcrit = .5*(norm_rot2 - norm_shear2)
     unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
     scale = unit_values.asNumber()
     qcrit *= scale
@@ -1204,7 +1204,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    Q = .5*(norm_rot2) - norm_shear2
+    Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
-- 
2.43.0


From d00014a77dd9dc682b4ecf699fbe6c59909be4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 123/261] fix: Q, Nk and Delta criteria are masked where the
 gradients are

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 0618947..fa63a9b 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1101,6 +1101,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, np.ma.getmaskarray(Exx))
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
@@ -1153,6 +1154,7 @@ def get_Nk_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, np.ma.getmaskarray(Exx))
     # calcul de Nk
     norm_rot = 1./2.**.5*np.abs(Exy - Eyx)
     norm_shear = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)**.5
@@ -1201,6 +1203,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, np.ma.getmaskarray(Exx))
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
@@ -1209,6 +1212,8 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
         for j in np.arange(Exx.shape[1]):
+            if mask[i, j]:
+                continue
             Jac = [[Exx[i, j], Exy[i, j]], [Eyx[i, j], Eyy[i, j]]]
             eigval, eigvect = np.linalg.eig(Jac)
             if np.all(np.imag(eigval) == 0):
-- 
2.43.0


From 5df2e0feddf484b09152ceab5f0cfe184ac7e327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 124/261] fix: lambda2 has the unit of a squared gradient, and
 can be returned as an array

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index fa63a9b..c9870b8 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1288,14 +1288,18 @@ def get_lambda2(vectorfield, mask=None, raw=False):
             lambda2[i, j] = l2
     # returning
     if raw:
-        return np.ma.masked_array(l2, mask)
+        return np.ma.masked_array(lambda2, mask)
     else:
         lambd_sf = ScalarField()
         axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
         unit_x, unit_y = vectorfield.unit_x, vectorfield.unit_y
+        unit_values = (vectorfield.unit_values/unit_x)**2
+        scale = unit_values.asNumber()
+        lambda2 *= scale
+        unit_values = unit_values/scale
         lambd_sf.import_from_arrays(axe_x, axe_y, lambda2, mask,
                                     unit_x=unit_x, unit_y=unit_y,
-                                    unit_values=make_unit(''))
+                                    unit_values=unit_values)
         return lambd_sf
 
 
-- 
2.43.0


From bb65152fbf99b25339a87042b141143adf28a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 125/261] fix: swirling strength works on fields with masked
 values and has a unit

---
 .../vortex_criterions/vortex_criterions.py      | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index c9870b8..0b7bdae 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -984,11 +984,10 @@ def get_swirling_strength(vf, raw=False):
     if not isinstance(vf, VectorField):
         raise TypeError()
     tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    mask = tmp_vf.mask
     du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    mask = np.logical_or(tmp_vf.mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
@@ -1005,8 +1004,9 @@ def get_swirling_strength(vf, raw=False):
         return swst
     else:
         unit_x, unit_y = tmp_vf.unit_x, tmp_vf.unit_y
-        # TODO: Implement unities
-        unit_values = ""
+        unit_values = vf.unit_values/vf.unit_x
+        swst *= unit_values.asNumber()
+        unit_values /= unit_values.asNumber()
         tmp_sf = ScalarField()
         tmp_sf.import_from_arrays(axe_x, axe_y, swst, mask=mask,
                                   unit_x=unit_x, unit_y=unit_y,
@@ -1036,15 +1036,10 @@ def get_improved_swirling_strength(vf, raw=False):
     if not isinstance(vf, VectorField):
         raise TypeError()
     tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
-    mask = tmp_vf.mask
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
-    du_dx, du_dy = np.gradient(comp_x, dx, dy)
-    dv_dx, dv_dy = np.gradient(comp_y, dx, dy)
+    du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    mask = np.logical_or(tmp_vf.mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
-- 
2.43.0


From 7fd0ce4739399cd87ef0fc3d2cf93fcca7b90f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 126/261] fix: kappa2 is relative to the mean velocity of the
 surrounding points

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 0b7bdae..96327c1 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -491,8 +491,8 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
         if kind == 'kappa2':
             nmbpts = len(indsaround)
             for indaround in indsaround:
-                v_mean[0] += Vx[ind_x, ind_y]
-                v_mean[1] += Vy[ind_x, ind_y]
+                v_mean[0] += Vx[indaround[0], indaround[1]]
+                v_mean[1] += Vy[indaround[0], indaround[1]]
             v_mean[0] /= nmbpts
             v_mean[1] /= nmbpts
         # Loop on neighbouring points
-- 
2.43.0


From c4a7bc13d82e35efbc6747c3aa91b804599cb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 127/261] fix: local angle deviation subtracts the velocity of
 the central point

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 96327c1..4e05edb 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -124,7 +124,7 @@ def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
             tmp_Vx = vectorfield.comp_x[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vy = vectorfield.comp_y[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vx -= vectorfield.comp_x[ind_x, ind_y]
-            tmp_Vy -= vectorfield.comp_x[ind_x, ind_y]
+            tmp_Vy -= vectorfield.comp_y[ind_x, ind_y]
             angles = _get_angles(tmp_Vx, tmp_Vy)
         # getting neightbour angles repartition
         angles = np.sort(angles)
-- 
2.43.0


From 0fe6b5395d406489b7f13ede549e5fa0378a29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 128/261] fix: non-local criteria exclude the central point and
 the borders when the radius is in axis unit

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 4e05edb..c9ad1a0 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -705,6 +705,7 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
         ptcentral = [axe_x[indcentral[0]], axe_y[indcentral[1]]]
         motif = vectorfield.get_points_around(ptcentral, radius, ind)
         motif = motif - indcentral
+        motif = motif[np.any(motif != 0, axis=1)]
     nmbpts = len(motif)
     # Generating masks
     # creating surrounding masked point zone mask
@@ -728,11 +729,11 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
         border_x, border_y = np.meshgrid(border_x, border_y)
         mask_border = np.transpose(np.logical_or(border_x, border_y))
     else:
-        delta = (axe_x[1] - axe_x[0] + axe_y[1] - axe_y[0])/2
-        border_x = np.logical_or(axe_x <= axe_x[0] + (radius - delta),
-                                 axe_x >= axe_x[-1] - (radius - delta))
-        border_y = np.logical_or(axe_y <= axe_y[0] + (radius - delta),
-                                 axe_y >= axe_y[-1] - (radius - delta))
+        indx = np.arange(len(axe_x))
+        indy = np.arange(len(axe_y))
+        nmb_x, nmb_y = np.max(np.abs(motif), axis=0)
+        border_x = np.logical_or(indx < nmb_x, indx > indx[-1] - nmb_x)
+        border_y = np.logical_or(indy < nmb_y, indy > indy[-1] - nmb_y)
         border_x, border_y = np.meshgrid(border_x, border_y)
         mask_border = np.transpose(np.logical_or(border_x, border_y))
     # creating dev mask
-- 
2.43.0


From 0e6aff9a167ee4930b3e2adef2e172ae0861850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:43 +0000
Subject: [PATCH 129/261] fix: enstrophy includes the central point

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index c9ad1a0..2d081ec 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -651,6 +651,7 @@ def get_enstrophy(vectorfield, radius=None, ind=False, mask=None,
     mask, nmbpts, mask_dev, mask_border, mask_surr, motif =\
         _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                                             dev_pass=False)
+    motif = np.concatenate((motif, [[0, 0]]))
     dv = ((vectorfield.axe_x[1] - vectorfield.axe_x[0]) *
           (vectorfield.axe_y[1] - vectorfield.axe_y[0]))
     # Loop on points
-- 
2.43.0


From bc73381a01656e7b0efd873787ce5c1f8db0527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:37 +0000
Subject: [PATCH 130/261] fix: vortex criteria do not mix the units of x and y

---
 .../vortex_criterions/vortex_criterions.py    | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 2d081ec..2f3d6bf 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -30,6 +30,23 @@ import numpy as np
 from scipy import linalg
 
 
+def _get_unit_ratio(vf):
+    """
+    Return the unit of y expressed in unit of x.
+    """
+    return (vf.unit_y/vf.unit_x).asNumber()
+
+
+def _get_raw_gradients(vf):
+    """
+    Return the gradients of the velocity components, as masked arrays, all
+    expressed in value unit over unit of x.
+    """
+    Vx_dx, Vx_dy, Vy_dx, Vy_dy = get_gradients(vf, raw=True)
+    ratio = _get_unit_ratio(vf)
+    return Vx_dx, Vx_dy/ratio, Vy_dx, Vy_dy/ratio
+
+
 def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
                         raw=False, local_treatment='none', order=1):
     """
@@ -229,7 +246,8 @@ def get_gamma(vectorfield, radius=None, ind=False, kind='gamma1', mask=None,
                                             dev_pass)
     # getting the vectors between center and neighbouring
     deltax = axe_x[1] - axe_x[0]
-    deltay = axe_y[1] - axe_y[0]
+    deltay = ((axe_y[1] - axe_y[0]) *
+              _get_unit_ratio(vectorfield))
     vector_a_x = np.zeros(motif.shape[0])
     vector_a_y = np.zeros(motif.shape[0])
     for i, indaround in enumerate(motif):
@@ -377,6 +395,8 @@ def get_NL_residual_vorticity(vectorfield, radius=None, ind=False, mask=None,
         Exy[ind_x, ind_y], a_xy = np.polyfit(axe_y[ind_ys], Vxs, 1)
         Eyx[ind_x, ind_y], _ = np.polyfit(axe_x[ind_xs], Vys, 1)
         Eyy[ind_x, ind_y], _ = np.polyfit(axe_y[ind_ys], Vys, 1)
+    Exy /= _get_unit_ratio(vectorfield)
+    Eyy /= _get_unit_ratio(vectorfield)
     # getting principal rate of strain (s)
     s = np.sqrt(4*Exx**2 + (Exy + Eyx)**2)/2.
     # getting the vorticity-tensor component
@@ -468,7 +488,8 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
                                             dev_pass)
     # getting the vectors between center and neighbouring
     deltax = axe_x[1] - axe_x[0]
-    deltay = axe_y[1] - axe_y[0]
+    deltay = ((axe_y[1] - axe_y[0]) *
+              _get_unit_ratio(vectorfield))
     vector_a_x = np.zeros(motif.shape[0])
     vector_a_y = np.zeros(motif.shape[0])
     for i, indaround in enumerate(motif):
@@ -797,7 +818,7 @@ def get_divergence(vf, raw=False):
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
         dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dy = (axe_y[1] - axe_y[0])*_get_unit_ratio(vf)
         Exx, _ = np.gradient(comp_x, dx, dy)
         _, Eyy = np.gradient(comp_y, dx, dy)
         div = Exx + Eyy
@@ -853,7 +874,7 @@ def get_vorticity(vf, raw=False):
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
         dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dy = (axe_y[1] - axe_y[0])*_get_unit_ratio(vf)
         _, Exy = np.gradient(comp_x, dx, dy)
         Eyx, _ = np.gradient(comp_y, dx, dy)
         vort = Eyx - Exy
@@ -923,6 +944,7 @@ def get_stokes_vorticity(vf, window_size=2, raw=False):
                           np.mean(axe_y[-window_size::] + dy*.9),
                           dy)
     # Loop on field
+    dy = dy*_get_unit_ratio(vf)
     vort = np.zeros((len(new_axe_x), len(new_axe_y)))
     new_mask = np.zeros((len(new_axe_x), len(new_axe_y)), dtype=bool)
     for i in np.arange(len(axe_x) - window_size + 1):
@@ -988,7 +1010,7 @@ def get_swirling_strength(vf, raw=False):
     tmp_vf = vf.copy()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    du_dx, du_dy, dv_dx, dv_dy = _get_raw_gradients(vf)
     mask = np.logical_or(tmp_vf.mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
@@ -1040,7 +1062,7 @@ def get_improved_swirling_strength(vf, raw=False):
     tmp_vf = vf.copy()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    du_dx, du_dy, dv_dx, dv_dy = _get_raw_gradients(vf)
     mask = np.logical_or(tmp_vf.mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
@@ -1097,7 +1119,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
         mask = np.array(mask)
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
-    Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    Exx, Exy, Eyx, Eyy = _get_raw_gradients(vectorfield)
     mask = np.logical_or(mask, np.ma.getmaskarray(Exx))
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
@@ -1150,7 +1172,7 @@ def get_Nk_criterion(vectorfield, mask=None, raw=False):
         mask = np.array(mask)
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
-    Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    Exx, Exy, Eyx, Eyy = _get_raw_gradients(vectorfield)
     mask = np.logical_or(mask, np.ma.getmaskarray(Exx))
     # calcul de Nk
     norm_rot = 1./2.**.5*np.abs(Exy - Eyx)
@@ -1199,7 +1221,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
         mask = np.array(mask, dtype=bool)
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
-    Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    Exx, Exy, Eyx, Eyy = _get_raw_gradients(vectorfield)
     mask = np.logical_or(mask, np.ma.getmaskarray(Exx))
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
@@ -1261,7 +1283,7 @@ def get_lambda2(vectorfield, mask=None, raw=False):
         mask = np.array(mask)
     mask = np.logical_or(mask, vectorfield.mask)
     # getting velocity gradients
-    Udx, Udy, Vdx, Vdy = get_gradients(vectorfield, raw=True)
+    Udx, Udy, Vdx, Vdy = _get_raw_gradients(vectorfield)
     mask = np.logical_or(mask, Udx.mask)
     # creating returning matrix
     lambda2 = np.zeros(vectorfield.shape)
@@ -1321,7 +1343,7 @@ def get_residual_vorticity(vf, raw=False):
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
         dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dy = (axe_y[1] - axe_y[0])*_get_unit_ratio(vf)
         # getting gradients
         Exx, Exy = np.gradient(comp_x, dx, dy)
         Eyx, Eyy = np.gradient(comp_y, dx, dy)
@@ -1388,7 +1410,7 @@ def get_shear_vorticity(vf, raw=False):
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
         dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dy = (axe_y[1] - axe_y[0])*_get_unit_ratio(vf)
         # getting gradients
         Exx, Exy = np.gradient(comp_x, dx, dy)
         Eyx, Eyy = np.gradient(comp_y, dx, dy)
-- 
2.43.0


From fb025fc40a74eb2ae264c204a1d7502b4cade116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 131/261] fix: Lamb-Chaplygin vortex: exterior radial velocity
 and centre value

---
 IMTreatment/vortex_creation/vortex_creation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 9c13636..f83c27c 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -465,10 +465,14 @@ class LambChaplyginVortex(Vortex):
         # compute stream function
         if r < self.rv:
             J1_p = (jn(2, k*r) - jn(0, k*r))/(-2)
-            Vr = -2*self.U/(r*k*jn(0, k*self.rv))*jn(1, k*r)*np.cos(theta)
+            if r == 0:
+                J1_kr = 0.5
+            else:
+                J1_kr = jn(1, k*r)/(k*r)
+            Vr = -2*self.U/jn(0, k*self.rv)*J1_kr*np.cos(theta)
             Vphi = 2*self.U/(jn(0, k*self.rv))*np.sin(theta)*J1_p
         else:
-            Vr = -self.U*(r - self.rv**2/r)*np.cos(theta)
+            Vr = -self.U*(1 - self.rv**2/r**2)*np.cos(theta)
             Vphi = +self.U*(1 + self.rv**2/r**2)*np.sin(theta)
         # get velocity in the cartesian refenrentiel
         Vx, Vy = self._cyl_to_cart(theta, Vr, Vphi)
-- 
2.43.0


From 4bfd59a712437eafad319d769b0ecb14b9381bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 132/261] fix: Hill vortex rotation sense applies to both
 velocity components

---
 IMTreatment/vortex_creation/vortex_creation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index f83c27c..b128aea 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -301,7 +301,7 @@ class HillVortex(Vortex):
         theta = self._get_theta(self.x0, x, self.y0, y)
         # compute velocity in clyndrical referentiel
         Vr = -3./4.*self.U*r*(1 - r**2/self.rv**2) \
-            * 2*np.sin(theta)*np.cos(theta)
+            * 2*np.sin(theta)*np.cos(theta)*self.rot_dir
         Vphi = 3./2.*self.U*np.sin(theta)**2 \
             * r*(1 - 2*r**2/self.rv**2)*self.rot_dir
         # get velocity in the cartesian refenrentiel
-- 
2.43.0


From 4a94116b952aa6bd7194ca461c1e841cff974178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 133/261] fix: PersoVortex has the asked maximum vorticity

---
 IMTreatment/vortex_creation/vortex_creation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index b128aea..6f41bc2 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -540,7 +540,7 @@ class PersoVortex(Vortex):
         if circ is None:
             if vort_max is None:
                 raise ValueError()
-            circ = 2*vort_max*4*np.pi*nu/(alpha)
+            circ = vort_max*4*np.pi*nu/(alpha)
         # store
         super(PersoVortex, self).__init__(x0, y0, movable=movable, idi=idi)
         self.radius = radius
-- 
2.43.0


From 904e19d6250874e7b9c125d96224619f9ef8a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 134/261] fix: VortexSystem: removing a vortex updates the
 number of vortices

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 6f41bc2..0e04158 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -768,6 +768,7 @@ class VortexSystem(object):
                 self.im_vortex[i].id -= 1
         # adapt current id
         self.curr_id -= 1
+        self.nmb_vortex -= 1
 
     def display(self):
         """
-- 
2.43.0


From fc02755a90df47c16a2cb8aaf61357e4e0941879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 135/261] fix: VortexSystem: detailed vectors use up-to-date
 wall images

---
 IMTreatment/vortex_creation/vortex_creation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 0e04158..24b584e 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -897,6 +897,8 @@ class VortexSystem(object):
         cf_ids : Mx1 array of integer
             Associated id
         """
+        if self.to_refresh:
+            self.refresh_imaginary_vortex()
         vects = []
         vects_cf = []
         if detailed:
-- 
2.43.0


From 5c5b763ff7a4f14f5ed3c306bd5110b273b2b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 136/261] fix: VortexSystem: custom fields are copied when
 added, like vortices

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 24b584e..1fdd853 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -736,6 +736,7 @@ class VortexSystem(object):
         """
         if not isinstance(custfield, CustomField):
             raise TypeError()
+        custfield = custfield.copy()
         custfield.id = self.curr_cf_id
         self.curr_cf_id += 1
         self.custfields.append(custfield)
-- 
2.43.0


From 38e8fd665360ebc439efb31d7cef3833f08161b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 137/261] fix: potential flow: open walls are not closed

---
 IMTreatment/potential_flow/potential_flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index d6b753a..e128a37 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -431,8 +431,8 @@ class object_1D(object):
             new_x += list(np.linspace(x[i], x[i + 1], tmp_nmb + 1)[:-1])
             new_y += list(np.linspace(y[i], y[i + 1], tmp_nmb + 1)[:-1])
         # closing
-        new_x += [x[0]]
-        new_y += [y[0]]
+        new_x += [x[-1]]
+        new_y += [y[-1]]
         new_x = np.array(new_x, dtype=float)
         new_y = np.array(new_y, dtype=float)
         # storing new values
-- 
2.43.0


From 1e47fcb2071561d53c3b8c85ae77de804fffc2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 138/261] fix: potential flow: abscissa along lines of negative
 slope

---
 IMTreatment/potential_flow/potential_flow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index e128a37..35c27bd 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -257,9 +257,9 @@ class System(object):
         if raw:
             return vx, vy
         else:
-            x = x - np.min(x)
-            y = y - np.min(y)
-            new_x = np.sqrt(x**2 + y**2) - np.sqrt(x[0]**2 + y[0]**2)
+            new_x = np.sqrt((x - xa)**2 + (y - ya)**2)
+            if xb < xa or (xb == xa and yb < ya):
+                new_x *= -1
             prof_vx = Profile(new_x, vx, mask=mask, unit_x='m',
                               unit_y='m/s')
             prof_vy = Profile(new_x, vy, mask=mask, unit_x='m',
-- 
2.43.0


From e1f35e3fce4584e2dad88a5861a213dc7fd32ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 139/261] fix: critical point position in cells: zero test,
 orientation of indices and linear cells

---
 .../vortex_detection/vortex_detection.py      | 71 ++++++++++++++-----
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index bb42f88..067dae2 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -233,28 +233,16 @@ class VF(object):
                 res_pos = pos
                 return pos
             # check if null values
-            nmb_zeros = np.sum(Vx_bl + Vy_bl == 0)
+            zeros = np.logical_and(Vx_bl == 0, Vy_bl == 0)
+            nmb_zeros = np.sum(zeros)
             if nmb_zeros == 1:
-                inds = np.array(np.where(Vx_bl + Vy_bl == 0)).reshape(2)
-                res_pos = np.array([axe_x[ind_x + inds[0]],
-                                    axe_y[ind_y + inds[1]]])
+                inds = np.argwhere(zeros)[0]
+                res_pos = np.array([axe_x[ind_x + inds[1]],
+                                    axe_y[ind_y + inds[0]]])
                 return res_pos
             elif nmb_zeros > 1:
                 res_pos = pos
                 return res_pos
-            # check if zero values
-            if np.any(Vx_bl == 0) or np.any(Vy_bl == 0):
-                # if only one point
-                filt = np.logical_and(Vx_bl == 0, Vy_bl == 0)
-                if np.sum(filt) == 1:
-                    tmp_inds = np.argwhere(filt)
-                    return np.array([tmp_inds[0] + axe_x[ind_x],
-                                     tmp_inds[1] + axe_y[ind_y]])
-                # else raise warning
-                warnings.warn("There is a point with zero velocity, it's"
-                              "a particular case not implemented yet. "
-                              "Skipping this cell (there will be missing CP).")
-                return np.array([np.nan, np.nan])
             # solve to get the zero velocity point
             tmp_dic = {'Vx_1': Vx_bl[0, 0], 'Vx_2': Vx_bl[0, 1],
                        'Vx_3': Vx_bl[1, 0], 'Vx_4': Vx_bl[1, 1],
@@ -288,6 +276,13 @@ class VF(object):
                         y_sols[j] < 0 or y_sols[j] > real_dy):
                     continue
                 tmp_sol.append([x_sols[j], y_sols[j]])
+            # the closed form fails on cells where velocity is (almost) linear
+            tmp_sol = [s for s in tmp_sol
+                       if _is_zero_in_cell(Vx_bl, Vy_bl, s[0]/real_dx,
+                                           s[1]/real_dy)]
+            if len(tmp_sol) == 0:
+                tmp_sol = [[x*real_dx, y*real_dy]
+                           for x, y in _get_zeros_in_cell(Vx_bl, Vy_bl)]
             # if no more points
             if len(tmp_sol) == 0:
                 res_pos = np.array([tmp_x, tmp_y])
@@ -3393,6 +3388,48 @@ def _get_saddle_orientations(vectorfield, pt):
     return np.real(orient1), np.real(orient2)
 
 
+def _is_zero_in_cell(Vx, Vy, x, y, eps=1e-6):
+    """
+    Return True if the bilinear interpolation of the velocities at the cell
+    corners (indexed by [y, x]) vanishes at the relative position (x, y).
+    """
+    coefs = np.array([[(1 - x)*(1 - y), x*(1 - y)], [(1 - x)*y, x*y]])
+    vel_max = max(np.max(np.abs(Vx)), np.max(np.abs(Vy)))
+    return (np.abs(np.sum(coefs*Vx)) <= eps*vel_max and
+            np.abs(np.sum(coefs*Vy)) <= eps*vel_max)
+
+
+def _get_zeros_in_cell(Vx, Vy):
+    """
+    Return the relative positions (x, y) inside the cell where the bilinear
+    interpolation of the velocities at the cell corners (indexed by [y, x])
+    vanishes.
+    """
+    # V = V[0] + V[1]*x + V[2]*y + V[3]*x*y
+    a, b = [(v[0, 0], v[0, 1] - v[0, 0], v[1, 0] - v[0, 0],
+             v[1, 1] - v[0, 1] - v[1, 0] + v[0, 0]) for v in (Vx, Vy)]
+    # eliminate y
+    c2 = b[1]*a[3] - b[3]*a[1]
+    c1 = b[0]*a[3] + b[1]*a[2] - b[2]*a[1] - b[3]*a[0]
+    c0 = b[0]*a[2] - b[2]*a[0]
+    q = -.5*(c1 + np.copysign(max(c1**2 - 4*c0*c2, 0)**.5, c1))
+    xs = []
+    if q != 0:
+        xs.append(c0/q)
+    if c2 != 0:
+        xs.append(q/c2)
+    res = []
+    for x in xs:
+        num, den = max([(v[0] + v[1]*x, v[2] + v[3]*x) for v in (a, b)],
+                       key=lambda v: abs(v[1]))
+        if den == 0:
+            continue
+        y = -num/den
+        if (0 <= x <= 1 and 0 <= y <= 1 and _is_zero_in_cell(Vx, Vy, x, y)):
+            res.append((x, y))
+    return res
+
+
 def _get_jacobian_matrix(Vx, Vy, dx=1., dy=1, pt=None):
     """
     Return the jacobian matrix at the center of 4 points.
-- 
2.43.0


From 174e6244bc61269e0ce67fa878d2337e2eff9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 140/261] fix: critical point type does not depend on the ratio
 of the grid steps

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 067dae2..18df7ae 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -158,7 +158,8 @@ class VF(object):
                 if tmp_vf.pbi_x[1] == -1:
                     cp_types.append(0)
                 else:
-                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy)
+                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy,
+                                               delta_x, delta_y)
                     eigvals, eigvects = np.linalg.eig(jac)
                     tau = np.real(eigvals[0])
                     mu = np.sum(np.abs(np.imag(eigvals)))
-- 
2.43.0


From b4b736c331b33f73c84d8058db1b3abe3ed4dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 141/261] fix: get_critical_points does not smooth the given
 field

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 18df7ae..23f254c 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2713,7 +2713,8 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
             tmp_vf = obj
         # smoothing if necessary
         if smoothing_size != 0:
-            tmp_vf.smooth(tos='gaussian', size=smoothing_size, inplace=True)
+            tmp_vf = tmp_vf.smooth(tos='gaussian', size=smoothing_size,
+                                   inplace=False)
         # get cp positions
         if kind == 'pbi':
             res = _get_cp_pbi_on_VF(tmp_vf, time=time, unit_time=unit_time,
-- 
2.43.0


From f74c6dcc190a2985d2e7ab7d55ac08865d8a1525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 142/261] fix: get_critical_points uses the asked mirror
 interpolation on series

---
 IMTreatment/vortex_detection/vortex_detection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 23f254c..07b7c79 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2771,6 +2771,7 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
                                       unit_time=obj.unit_times,
                                       window_size=window_size,
                                       kind=kind, mirroring=mirroring,
+                                      mirror_interp=mirror_interp,
                                       smoothing_size=smoothing_size,
                                       thread=1)
             return res
-- 
2.43.0


From 5562ca890b5293623dcb6a4f51f24eb5dbffdc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 143/261] fix: trajectories link points up to the asked
 distance

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 07b7c79..194cc68 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1732,7 +1732,7 @@ class CritPoints(object):
                         = np.unravel_index(np.argmin(dist2_mat),
                                            dist2_mat.shape)
                     # if dist to big or nothing remaining, we stop
-                    if (dist2_mat[indmin_pt, indmin_line] > epsilon or
+                    if (dist2_mat[indmin_pt, indmin_line] > self.epsilon2 or
                             dist2_mat[indmin_pt, indmin_line] == np.inf):
                         break
                     # append pt to Line
-- 
2.43.0


From 377af4114802475bb5437954f3c54c3919b46c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 144/261] fix: modifying critical points removes the outdated
 trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 194cc68..a41b3d5 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1552,8 +1552,8 @@ class CritPoints(object):
         This method is called when some points are modified (deleted or added).
         """
         self.current_epsilon = None
-        for i in range(len(self.iter_traj)):
-            self.iter_traj[i] = None
+        for cp_type in self.cp_types:
+            self.__setattr__("{}_traj".format(cp_type), None)
 
     def _remove_void_trajectories(self):
         """
-- 
2.43.0


From 3ce89b9ad257971d5f648fb5d5e567ba3fc9d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 145/261] fix: CritPoints.crop in time: works without
 trajectories, on a copy and with indices

---
 .../vortex_detection/vortex_detection.py      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index a41b3d5..d1cb1c3 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1330,10 +1330,16 @@ class CritPoints(object):
             tmp_cp.sadd = tmp_cp.sadd[filt]
             tmp_cp.node_i = tmp_cp.node_i[filt]
             tmp_cp.node_o = tmp_cp.node_o[filt]
-            for traj_type in self.iter_traj:
-                [traj.crop(intervv=intervt, ind=ind, inplace=True)
-                 for traj in traj_type]
-            self._remove_void_trajectories()
+            if len(tmp_cp.times) != 0:
+                intervv = [np.min(tmp_cp.times), np.max(tmp_cp.times)]
+            else:
+                intervv = [np.inf, -np.inf]
+            for traj_type in tmp_cp.iter_traj:
+                if traj_type is None:
+                    continue
+                for traj in traj_type:
+                    traj.crop(intervv=intervv, inplace=True)
+            tmp_cp._remove_void_trajectories()
         # spatial cropping
         if intervx is not None or intervy is not None:
             for kind in tmp_cp.iter:
@@ -1562,8 +1568,10 @@ class CritPoints(object):
         for traj_type in self.cp_types:
             traj_type = "{}_traj".format(traj_type)
             trajs = self.__getattribute__(traj_type)
-            filt = np.array([len(traj) != 0 for traj in trajs])
-            self.__setattr__(traj_type, trajs[filt])
+            if trajs is None:
+                continue
+            self.__setattr__(traj_type, [traj for traj in trajs
+                                         if len(traj) != 0])
 
     def _sort_by_time(self):
         """
-- 
2.43.0


From f237f63ae8b11094470d989eeaa68648aadac164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 146/261] fix: CritPoints: set_origin and change_unit('time')
 work without trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index d1cb1c3..347e18a 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1200,6 +1200,8 @@ class CritPoints(object):
             for pt in pts:
                 pt.set_origin(x=x, y=y)
         for trajs in self.iter_traj:
+            if trajs is None:
+                continue
             for traj in trajs:
                 traj.set_origin(x=x, y=y)
 
@@ -1239,6 +1241,8 @@ class CritPoints(object):
                 for pt in kind:
                     pt.change_unit('v', new_unit)
             for kind in self.iter_traj:
+                if kind is None:
+                    continue
                 for pt in kind:
                     pt.change_unit('v', new_unit)
             old_unit = self.unit_time
-- 
2.43.0


From 2b7c97fc2296a3e135e5416e6f298dbaac84119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:27 +0000
Subject: [PATCH 147/261] fix: cleaning trajectories also deletes the
 associated points

---
 IMTreatment/vortex_detection/vortex_detection.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 347e18a..56abfe4 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1602,7 +1602,7 @@ class CritPoints(object):
 
     def _traj_to_pts(self):
         """
-        Define new set of points based on the trajectories.
+        Only keep the points that belong to a trajectory.
         """
         # loop on each point type
         for i, traj_type in enumerate(self.iter_traj):
@@ -1611,14 +1611,12 @@ class CritPoints(object):
                          unit_v=self.unit_time)
             for traj in traj_type:
                 tot += traj
-            # replace exising points
-            self.iter[i] = np.empty((len(self.times),), dtype=object)
+            # remove the points that are not in a trajectory
             for j, time in enumerate(self.times):
-                filt = tot.v == time
-                self.iter[i][j] = Points(tot.xy[filt], v=tot.v[filt],
-                                         unit_x=tot.unit_x,
-                                         unit_y=tot.unit_y,
-                                         unit_v=tot.unit_v)
+                pts = self.iter[i][j]
+                kept = [np.argmin(np.sum((pts.xy - xy)**2, axis=1))
+                        for k, xy in enumerate(tot.xy) if tot.v[k] == time]
+                pts.remove([k for k in range(len(pts)) if k not in kept])
 
     @staticmethod
     def _get_cp_time_evolution(points, times=None, epsilon=None,
-- 
2.43.0


From 2f1915f7a7ec69b28bfa4a8d0439579b2fe585d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:27 +0000
Subject: [PATCH 148/261] fix: the sum of critical points does not share its
 points with the terms

---
 IMTreatment/vortex_detection/vortex_detection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 56abfe4..c35cc3c 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -465,9 +465,9 @@ class CritPoints(object):
     def __add__(self, obj):
         if isinstance(obj, CritPoints):
             if len(obj.times) == 0:
-                return self
+                return self.copy()
             if len(self.times) == 0:
-                return obj
+                return obj.copy()
             if not self.unit_time == obj.unit_time:
                 raise ValueError()
             if not self.unit_x == obj.unit_x:
@@ -484,6 +484,7 @@ class CritPoints(object):
             tmp_CP.node_o = np.append(self.node_o, obj.node_o)
             tmp_CP.sadd = np.append(self.sadd, obj.sadd)
             tmp_CP.times = np.append(self.times, obj.times)
+            tmp_CP = tmp_CP.copy()
             tmp_CP._sort_by_time()
             # test if there is double
             for i, t in enumerate(tmp_CP.times[0:-1]):
-- 
2.43.0


From 5dd007b11107175877a7d0175a37c99e6131f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:27 +0000
Subject: [PATCH 149/261] fix: trajectories have the time unit

---
 IMTreatment/vortex_detection/vortex_detection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index c35cc3c..2263183 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -623,30 +623,35 @@ class CritPoints(object):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             focs = np.append(focs, pts.decompose())
         focs_c = np.array([])
         for i, pts in enumerate(self.foc_c):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             focs_c = np.append(focs_c, pts.decompose())
         nodes_i = np.array([])
         for i, pts in enumerate(self.node_i):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             nodes_i = np.append(nodes_i, pts.decompose())
         nodes_o = np.array([])
         for i, pts in enumerate(self.node_o):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             nodes_o = np.append(nodes_o, pts.decompose())
         sadds = np.array([])
         for i, pts in enumerate(self.sadd):
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
+            pts.unit_v = self.unit_time
             sadds = np.append(sadds, pts.decompose())
         # getting trajectories
         self.foc_traj = self._get_cp_time_evolution(focs, times=self.times,
-- 
2.43.0


From aeaed2ca6d55c83b37fcc35d156f9fb5d4484258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:27 +0000
Subject: [PATCH 150/261] fix: topological simplification of critical points
 runs

---
 IMTreatment/vortex_detection/vortex_detection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 2263183..6033740 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1454,7 +1454,7 @@ class CritPoints(object):
             Simplified topological points field.
         """
         simpl_CP = CritPoints(unit_time=self.unit_time)
-        for i in np.arange(len(self.times)):
+        for i in range(len(self.times)):
             TP = TopoPoints()
             TP.import_from_CP(self, i)
             TP = TP.simplify(dist_min, kind=kind)
@@ -2165,6 +2165,8 @@ class TopoPoints(object):
         # check parameters
         try:
             xy = np.array(xy, dtype=float)
+            if xy.size == 0:
+                xy = xy.reshape(0, 2)
             types = np.array(types, dtype=int)
         except ValueError:
             raise TypeError()
@@ -2174,7 +2176,7 @@ class TopoPoints(object):
             raise ValueError()
         if xy.shape[1] != 2:
             raise ValueError()
-        if not xy.shape[0] != types.shape:
+        if xy.shape[0] != types.shape[0]:
             raise ValueError()
         # storing
         self.xy = xy
@@ -2256,7 +2258,7 @@ class TopoPoints(object):
         types = [[typ] for typ in types]
         pbis = self.pbis.copy()
         # simplication loop
-        while True:
+        while self.dim != 0:
             # get min position
             amin = np.argmin(dist2)
             ind_1 = int(amin/self.dim)
-- 
2.43.0


From 8f90a571c3185d231e5b51876bb435ae7a7a55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:44 +0000
Subject: [PATCH 151/261] fix: linking distance given as a quantity in another
 length unit

---
 IMTreatment/vortex_detection/vortex_detection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 6033740..d7bca1d 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -609,11 +609,10 @@ class CritPoints(object):
         elif isinstance(epsilon, NUMBERTYPES):
             pass
         elif isinstance(epsilon, unum.Unum):
-            fact = epsilon/self.unit_x
-            unit_fact = fact.strUnit()
-            if unit_fact != '[]':
+            try:
+                epsilon = epsilon.asNumber(self.unit_x)
+            except unum.IncompatibleUnitsError:
                 raise ValueError()
-            epsilon = fact.asNumber()
         else:
             raise TypeError()
         self.current_epsilon = epsilon
-- 
2.43.0


From 09d889fe552449b1dcedefbdcd42726acaaafba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:44 +0000
Subject: [PATCH 152/261] fix: empty instants get the time unit with the others
 when trajectories are computed

---
 IMTreatment/vortex_detection/vortex_detection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index d7bca1d..0f85a74 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -619,38 +619,38 @@ class CritPoints(object):
         # get points together with v as time
         focs = np.array([])
         for i, pts in enumerate(self.foc):
+            pts.unit_v = self.unit_time
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
-            pts.unit_v = self.unit_time
             focs = np.append(focs, pts.decompose())
         focs_c = np.array([])
         for i, pts in enumerate(self.foc_c):
+            pts.unit_v = self.unit_time
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
-            pts.unit_v = self.unit_time
             focs_c = np.append(focs_c, pts.decompose())
         nodes_i = np.array([])
         for i, pts in enumerate(self.node_i):
+            pts.unit_v = self.unit_time
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
-            pts.unit_v = self.unit_time
             nodes_i = np.append(nodes_i, pts.decompose())
         nodes_o = np.array([])
         for i, pts in enumerate(self.node_o):
+            pts.unit_v = self.unit_time
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
-            pts.unit_v = self.unit_time
             nodes_o = np.append(nodes_o, pts.decompose())
         sadds = np.array([])
         for i, pts in enumerate(self.sadd):
+            pts.unit_v = self.unit_time
             if len(pts) == 0:
                 continue
             pts.v = [self.times[i]]*len(pts)
-            pts.unit_v = self.unit_time
             sadds = np.append(sadds, pts.decompose())
         # getting trajectories
         self.foc_traj = self._get_cp_time_evolution(focs, times=self.times,
-- 
2.43.0


From 5437db449e1a82b6657dfca6f5f162403de40b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:44 +0000
Subject: [PATCH 153/261] fix: units of a set of critical points scaled by a
 quantity are those of its points

---
 IMTreatment/vortex_detection/vortex_detection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 0f85a74..103ff6c 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1284,18 +1284,18 @@ class CritPoints(object):
         else:
             tmp_cp = self.copy()
         # scale self v
-        new_unit = tmp_cp.unit_time*scalev
+        new_unit = scalev*tmp_cp.unit_time
         fact = new_unit.asNumber()
         new_unit /= fact
         tmp_cp.times *= fact
         tmp_cp.unit_time = new_unit
         # scale self x
-        new_unit = tmp_cp.unit_x*scalex
+        new_unit = scalex*tmp_cp.unit_x
         fact = new_unit.asNumber()
         new_unit /= fact
         tmp_cp.unit_x = new_unit
         # scale self y
-        new_unit = tmp_cp.unit_y*scaley
+        new_unit = scaley*tmp_cp.unit_y
         fact = new_unit.asNumber()
         new_unit /= fact
         tmp_cp.unit_y = new_unit
-- 
2.43.0


From 228c386a6e754ffa6e440c6db1220c1c47808b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:44 +0000
Subject: [PATCH 154/261] fix: shift between trajectories rounded to the
 nearest step in mean trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 103ff6c..7dbed1a 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1013,7 +1013,7 @@ class CritPoints(object):
                     shift = tmp_conv.x[min(list(range(len(tmp_conv))),
                                            key=lambda i: tmp_conv.y[i])]
                     dx = tmp_x.x[1] - tmp_x.x[0]
-                    shift = np.floor(shift/dx)*dx   # not allow quarter-dx
+                    shift = np.round(shift/dx)*dx   # not allow quarter-dx
                     tmp_x.x += shift
                     tmp_y.x += shift
                     tmp_t.x += shift
-- 
2.43.0


From 65526720a413aca4b33e9936b96447a639dd960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:44 +0000
Subject: [PATCH 155/261] fix: mean trajectories do not share their base
 trajectories with the set

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 7dbed1a..b7aac9e 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -985,7 +985,7 @@ class CritPoints(object):
                         av_t = tmp_t.copy()
                         used[i] = True
                         used_traj_inds.append(i)
-                        used_trajs.append(traj)
+                        used_trajs.append(traj.copy())
                         nmb_traj_used += 1
                         continue
                     # actualize reference
@@ -1022,7 +1022,7 @@ class CritPoints(object):
                     av_t.add_points(tmp_t)
                     used[i] = True
                     used_traj_inds.append(i)
-                    used_trajs.append(traj)
+                    used_trajs.append(traj.copy())
                     nmb_traj_used += 1
             # if no remaining trajectories, end the While loop
             if av_x is None:
-- 
2.43.0


From 856aff97a0b020a5eeeeaaf2dc101119641717c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:04 +0000
Subject: [PATCH 156/261] fix: refined critical points are stored as an array

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index b7aac9e..dfcbe67 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1541,6 +1541,9 @@ class CritPoints(object):
                                                       extrema=extrema)
             new_cp_pts.append(new_pt)
         # store new positions
+        tmp_pts = np.empty(len(new_cp_pts), dtype=object)
+        tmp_pts[:] = new_cp_pts
+        new_cp_pts = tmp_pts
         if inplace:
             tmp_traj = self
         else:
-- 
2.43.0


From 63731c833e32b40161f77583b78595c79bf0b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:50 +0000
Subject: [PATCH 157/261] fix: removing modes from a modal decomposition

---
 IMTreatment/pod/pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1220be9..e35416c 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -176,12 +176,12 @@ class ModalFields(Field):
             modes_to_keep = np.array(modes_to_keep, dtype=int)
         else:
             if isinstance(modes_to_remove, int):
-                modes_to_remove = np.arrange(len(self.modes) - modes_to_remove,
+                modes_to_remove = np.arange(len(self.modes) - modes_to_remove,
                                              len(self.modes))
             if not isinstance(modes_to_remove, ARRAYTYPES):
                 raise TypeError()
             modes_to_remove = np.array(modes_to_remove, dtype=int)
-            modes_to_keep = np.arrange(len(self.modes))
+            modes_to_keep = np.arange(len(self.modes))
             modes_to_keep = np.delete(modes_to_keep, modes_to_remove)
         # get data
         if inplace:
-- 
2.43.0


From 0ee1c3402bdfa62572322b5bb229612da5e8b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:50 +0000
Subject: [PATCH 158/261] fix: smoothing of modes out of place

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index e35416c..7bc9a6e 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -388,7 +388,7 @@ class ModalFields(Field):
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
-                tmp_MF.mdes[n].smooth(tos=tos, size=size, inplace=True)
+                tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From 125cd4aae2354983a3508054df4426fae9a0e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:50 +0000
Subject: [PATCH 159/261] fix: eigenvectors of the kept modes are their
 temporal vectors

---
 IMTreatment/pod/pod.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 7bc9a6e..b9d3ed0 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -213,10 +213,7 @@ class ModalFields(Field):
             if self.decomp_type == 'pod':
                 new_eigvals.add_point(tmp_pod.eigvals.x[ind],
                                       tmp_pod.eigvals.y[ind])
-                tmp_vect = []
-                for ind2 in modes_to_keep:
-                    tmp_vect.append(tmp_pod.eigvects[ind, ind2])
-                new_eigvects.append(tmp_vect)
+                new_eigvects.append(tmp_pod.eigvects[:, ind])
             if self.decomp_type == "dmd":
                 new_growth_rate.add_point(tmp_pod.growth_rate.x[ind],
                                           tmp_pod.growth_rate.y[ind])
@@ -232,7 +229,7 @@ class ModalFields(Field):
         tmp_pod.temp_evo = new_temp_evo
         if self.decomp_type == 'pod':
             tmp_pod.eigvals = new_eigvals
-            tmp_pod.eigvects = np.array(new_eigvects, dtype=float)
+            tmp_pod.eigvects = np.array(new_eigvects, dtype=float).T
         if self.decomp_type == "dmd":
             tmp_pod.growth_rate = new_growth_rate
             tmp_pod.mode_norms = new_mode_norms
-- 
2.43.0


From 5d9c8afcca2c2732ee319bfb65eb0d9c2bc81f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:50 +0000
Subject: [PATCH 160/261] fix: computing the spatial coherence of modes leaves
 them unchanged

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index b9d3ed0..5a1e0af 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -708,7 +708,7 @@ class ModalFields(Field):
             center_y = np.int(len(axe_y)/2.)
 
             def get_field_spec_std(data):
-                data -= np.mean(data)
+                data = data - np.mean(data)
                 spec = np.abs(np.real(np.fft.rfft2(data)))
                 spec = np.fft.fftshift(spec)
                 spec /= spint.simps(spint.simps(spec))
-- 
2.43.0


From c19d61e34713e6517ff5e5c4cdd76d4d55c33a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:50 +0000
Subject: [PATCH 161/261] fix: cropping a modal decomposition in time keeps the
 lower bound and crops the eigenvectors

---
 IMTreatment/pod/pod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 5a1e0af..081c6b3 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -278,7 +278,7 @@ class ModalFields(Field):
                 elif intervt[0] >= times[-1]:
                     raise ValueError()
                 else:
-                    ind_1 = np.where(times > intervt[0])[0][0]
+                    ind_1 = np.where(times >= intervt[0])[0][0]
                 if intervt[1] >= times[-1]:
                     ind_2 = len(times)
                 elif intervt[1] <= times[0]:
@@ -289,6 +289,8 @@ class ModalFields(Field):
             intervt = np.array(intervt, dtype=int)
             # crop
             tmp_mf.times = tmp_mf.times[intervt[0]:intervt[1]]
+            if hasattr(tmp_mf, 'eigvects'):
+                tmp_mf.eigvects = tmp_mf.eigvects[intervt[0]:intervt[1]]
             tmp_mf._ModalFields__temp_coh = None
             for prof in tmp_mf.temp_evo:
                 prof.crop(intervx=intervt, ind=True, inplace=True)
-- 
2.43.0


From b4100341983b85e400babad2f7c50d2c460fdb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 162/261] fix: boundary layer quantities of fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ae9be9a..a003b64 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -846,7 +846,8 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe_name = 'x' if direction == 1 else 'y'
+        profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -896,10 +897,11 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe_name = 'x' if direction == 1 else 'y'
+        profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
                                         nu=nu)
-                  for prof, _ in profiles]
+                  for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
 
 
@@ -952,7 +954,8 @@ def get_displ_thickness(obj, direction=1):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe_name = 'x' if direction == 1 else 'y'
+        profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -1009,7 +1012,8 @@ def get_momentum_thickness(obj, direction=1):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe_name = 'x' if direction == 1 else 'y'
+        profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -1140,7 +1144,8 @@ def get_shear_stress(obj, direction=1, method='simple',
         else:
             axe = obj.axe_y
         # get profiles
-        profiles = [obj.get_profile(direction, pos_ind, ind=True)
+        axe_name = 'x' if direction == 1 else 'y'
+        profiles = [obj.get_profile(axe_name, pos_ind, ind=True)
                     for pos_ind in range(len(axe))]
         # get shear stresses
         values = np.zeros(obj.shape)
-- 
2.43.0


From b997c751342eaac8fc2fcd3d90b5fe56b24c8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 163/261] fix: units of boundary layer thicknesses swept along
 y

---
 IMTreatment/boundary_layer/boundary_layer.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index a003b64..ca57f2c 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -843,13 +843,13 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
         return value[0]
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         axe_name = 'x' if direction == 1 else 'y'
         profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL thickness on this kind of"
                         " data : {}".format(type(obj)))
@@ -894,15 +894,15 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
     # if obj is a scalarField
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         axe_name = 'x' if direction == 1 else 'y'
         profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
                                         nu=nu)
                   for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
 
 
 def get_displ_thickness(obj, direction=1):
@@ -951,13 +951,13 @@ def get_displ_thickness(obj, direction=1):
         return delta
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         axe_name = 'x' if direction == 1 else 'y'
         profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL displacement thickness on"
                         "this kind of data : {}".format(type(obj)))
@@ -1009,13 +1009,13 @@ def get_momentum_thickness(obj, direction=1):
         return delta
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         axe_name = 'x' if direction == 1 else 'y'
         profiles = [obj.get_profile(axe_name, x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL momentum thickness on"
                         "this kind of data")
-- 
2.43.0


From c156408612f648835d33e4c008c95596dc4e90fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 164/261] fix: shear stress fields have the unit of a stress

---
 IMTreatment/boundary_layer/boundary_layer.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ca57f2c..5e16ae5 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1150,19 +1150,17 @@ def get_shear_stress(obj, direction=1, method='simple',
         # get shear stresses
         values = np.zeros(obj.shape)
         for i in range(len(profiles)):
+            stress = get_shear_stress(profiles[i], direction=1,
+                                      method=method, respace=False,
+                                      tau_w_guess=tau_w_guess,
+                                      rho=rho, nu=nu)
             if direction == 1:
-                values[i, :] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[i, :] = stress.y
             else:
-                values[:, i] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[:, i] = stress.y
         # returning
         mask = np.isnan(values)
-        unit_values = profiles[0].unit_y
+        unit_values = stress.unit_y
         tau_w = ScalarField()
         tau_w.import_from_arrays(obj.axe_x, obj.axe_y, values, mask=mask,
                                  unit_x=obj.unit_x, unit_y=obj.unit_y,
-- 
2.43.0


From e7d1616491862d89049039b8a9d05527d905fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 165/261] fix: Clauser thickness of velocities in other units
 than m/s

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 5e16ae5..c0a6d8a 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -888,7 +888,7 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
             tau = tau.y[0]
         u_star = np.sqrt(tau/rho)
         # getting v_top
-        v_top = obj.y[-1]
+        v_top = obj.y[-1]*obj.unit_y.asNumber(make_unit('m/s'))
         Delta_star = get_displ_thickness(obj)*v_top/u_star
         return Delta_star
     # if obj is a scalarField
-- 
2.43.0


From fe446fbd9fd050c3df7f248ef69182af97cd26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 166/261] fix: masked samples are left out of displacement and
 momentum thicknesses

---
 IMTreatment/boundary_layer/boundary_layer.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index c0a6d8a..e67f08d 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -931,10 +931,9 @@ def get_displ_thickness(obj, direction=1):
             return 0
         obj = obj.crop([0, bl_thick])
         # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        if np.any(obj.mask):
+            obj = Profile(obj.x[~obj.mask], obj.y[~obj.mask],
+                          unit_x=obj.unit_x, unit_y=obj.unit_y)
         # if there is no more value in the profile (all masked)
         if len(obj.x) == 0:
             return 0
@@ -989,10 +988,9 @@ def get_momentum_thickness(obj, direction=1):
             return 0
         obj = obj.crop([0, bl_thick])
         # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        if np.any(obj.mask):
+            obj = Profile(obj.x[~obj.mask], obj.y[~obj.mask],
+                          unit_x=obj.unit_x, unit_y=obj.unit_y)
         # if there is no more profile (all masked)
         if len(obj.x) == 0:
             return 0
-- 
2.43.0


From f52c919f9f0cc522da80449c4b6d7cec1f8336a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 167/261] fix: turbulent Blasius profile

---
 IMTreatment/boundary_layer/boundary_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index e67f08d..2015183 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -241,12 +241,12 @@ class BlasiusBL(object):
             u = u_over_U*self.Uinf
         # Turbulent case
         else:
-            delta, _, _ = self.get_thickness(x, allTurbulent=True)
+            delta = self.get_BL_properties(x, allTurbulent=True)[0][0]
             if y is None:
                 theta = np.linspace(0, 10, 200)
-                y = theta*delta.y[0]
+                y = theta*delta
             else:
-                theta = y/delta.y[0]
+                theta = y/delta
             u_over_U = np.power(theta, 1./7.)
             u_over_U[theta > 1] = 1.
             u = u_over_U*self.Uinf
-- 
2.43.0


From 305e1b4b530d6c1ea86ec8e19b5703433521df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 168/261] fix: same thickness coefficient for the Blasius
 position as for its thickness

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 2015183..653cde2 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -291,7 +291,7 @@ class BlasiusBL(object):
         Return a the x value that give the wanted delta.
         """
         # getting the laminar value of x
-        xpos = (delta**2*self.Uinf)/(4.92**2*self.nu)
+        xpos = (delta**2*self.Uinf)/(4.91**2*self.nu)
         # checking if turbulent
         Re_x = self.get_Rex(xpos)
         if Re_x > 5e5 or allTurbulent:
-- 
2.43.0


From 827d4c221b4f45e1ceaab314ecbd558b146c90b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 169/261] fix: Blasius profile at positions that do not start
 at the wall

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 653cde2..ef00542 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -234,7 +234,7 @@ class BlasiusBL(object):
             else:
                 theta = y/(np.sqrt(x)*np.sqrt(self.nu/self.Uinf))
             # solving with scipy ode solver
-            sol = odeint(f_deriv, f0, theta)
+            sol = odeint(f_deriv, f0, np.append([0.], theta))[1:]
             # getting adimensionnale velocity
             u_over_U = sol[:, 1]
             # getting dimensionnal values
-- 
2.43.0


From 85020a8f2c2886dd1a29ef832bc288546d9a0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 170/261] fix: Falkner-Skan mu is the inverse of its y

---
 IMTreatment/boundary_layer/boundary_layer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ef00542..8ad2a8f 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -329,8 +329,7 @@ class FalknerSkanBL(object):
         """
         return the \mu parameter at the position '(x, y)'.
         """
-        return y*(self.c0*(self.m + 1)/(2*self.nu*self.L))**.5 * \
-            (x/self.L)**((self.m - 1)/2.)
+        return y*(self.get_u_e(x)/(self.nu*x))**.5
 
     def get_y(self, x, mu):
         """
-- 
2.43.0


From bb3a69b65ed10f28465d5cd5aa59cfe3f772b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:45 +0000
Subject: [PATCH 171/261] fix: separation position

---
 IMTreatment/boundary_layer/boundary_layer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 8ad2a8f..b0d6bbf 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1219,7 +1219,7 @@ def get_separation_position(obj, wall_direction, wall_position,
         # checking masked values
         if np.any(obj.mask):
             warnings.warn("I can give weird results if masked values remains")
-        V = obj.values_as_sf
+        V = obj
         if wall_direction == 1:
             axe = axe_x
         else:
@@ -1253,27 +1253,28 @@ def get_separation_position(obj, wall_direction, wall_position,
         raise ValueError("Unknown type for 'obj'")
 
     # Getting separation position
+    axe_name = 'x' if wall_direction == 1 else 'y'
     # Getting lines around wall
     if wall_position < axe[0]:
         lines_pos = axe[0:nmb_lines]
     elif wall_position > axe[-1]:
-        lines_pos = axe[-nmb_lines-1:-1]
+        lines_pos = axe[-nmb_lines:]
     else:
         inds = V.get_indice_on_axe(wall_direction, wall_position)
         if len(inds) == 1:
             inds = [inds[0], inds[0] + 1]
-        if inds[0] - nmb_lines/2 < 0:
+        if inds[0] - nmb_lines//2 < 0:
             lines_pos = axe[0:nmb_lines]
-        elif inds[-1] + nmb_lines/2 > len(axe):
-            lines_pos = axe[-nmb_lines-1:-1]
+        elif inds[-1] + nmb_lines//2 > len(axe):
+            lines_pos = axe[-nmb_lines:]
         else:
-            lines_pos = axe[inds[0] - nmb_lines/2:inds[1] + nmb_lines/2]
+            lines_pos = axe[inds[0] - nmb_lines//2:inds[1] + nmb_lines//2]
     # Getting separation points on surrounding lines
     seps = np.array([])
     new_lines_pos = np.array([])
     for lp in lines_pos:
         # extraction one line
-        tmp_profile = V.get_profile(wall_direction, lp)
+        tmp_profile = V.get_profile(axe_name, lp)
         # getting the velocity sign changment on the line
         values = tmp_profile.get_interpolated_values(y=0)
         values = np.array(values)
-- 
2.43.0


From eae86a580a549b7e1a9dfc4a2bbb0e6012cc5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:06 +0000
Subject: [PATCH 172/261] fix: solving Falkner-Skan does not turn the warnings
 of the whole process into errors

---
 IMTreatment/boundary_layer/boundary_layer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index b0d6bbf..54007e9 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -367,8 +367,11 @@ class FalknerSkanBL(object):
             Runge-Kutta or Vode cannot take care of the :math:`f'(\\infty)=0`.
             This ODE system is so solved with a shooting method.
         """
-        import warnings
-        warnings.filterwarnings('error')
+        with warnings.catch_warnings():
+            warnings.filterwarnings('error')
+            return self._solve_f_function(relerr, max_it, verbose)
+
+    def _solve_f_function(self, relerr, max_it, verbose):
         # Set mu values
         mu = np.linspace(0, 10, 100)
 
-- 
2.43.0


From f193dc241ca8c75ffb003b355fbe0e87bf426f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:06 +0000
Subject: [PATCH 173/261] fix: Falkner-Skan interval where the end slope has no
 change of sign

---
 IMTreatment/boundary_layer/boundary_layer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 54007e9..de101bb 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -421,9 +421,7 @@ class FalknerSkanBL(object):
             tmp_neg = resid[:-1]*resid[1::]
             ind1 = np.where(tmp_neg < 0)[0]
             ind2 = np.where(tmp_Y2ps[:-1]*tmp_Y2ps[1:] < 0)[0]
-            ind = [ind1[i]
-                   for i in np.arange(len(ind1))
-                   if ind1[i] == ind2[i]][0]
+            ind = ([i for i in ind1 if i in ind2] + list(ind1))[0]
             interval_Y1p = [tmp_Y1ps[ind], tmp_Y1ps[ind + 1]]
             interval_Y3 = [tmp_Y3s[ind], tmp_Y3s[ind + 1]]
         # check if we get a lesser cool interval
-- 
2.43.0


From 509bee16973d8b2e6f5ea1008dc20b1dc3c155a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:03 +0000
Subject: [PATCH 174/261] fix: Falkner-Skan guesses on which the integrator
 gives up

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index de101bb..e37e71f 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -404,7 +404,7 @@ class FalknerSkanBL(object):
             ODE.set_initial_value([0, 0, tmpY3])
             try:
                 prof = ODE.integrate(mu[-1])
-            except RuntimeWarning:
+            except (RuntimeWarning, UserWarning):
                 tmp_Y1ps.append(np.nan)
                 tmp_Y2ps.append(np.nan)
             else:
-- 
2.43.0


From aca6b8f04a2f75f24ce118b2bb9a3239093128f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:03 +0000
Subject: [PATCH 175/261] fix: Thwaites pressure gradient is taken along x

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index e37e71f..74fa3d0 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -602,7 +602,7 @@ class ThwaitesBL(object):
         """
         # get u_e and grad u_e
         u_e = np.array([self.u_e(xi) for xi in x])
-        d_u_e = np.gradient(u_e)
+        d_u_e = np.gradient(u_e, x)
         # get delta2
         delta2 = self.get_momentum_thikness(x)
         # get lambda
-- 
2.43.0


From 0a5a7a74b7c098900fd378bd0dafeda2776068ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:57 +0000
Subject: [PATCH 176/261] fix: Falkner-Skan attached solution where several
 slopes fit

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 74fa3d0..57a2a30 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -421,7 +421,7 @@ class FalknerSkanBL(object):
             tmp_neg = resid[:-1]*resid[1::]
             ind1 = np.where(tmp_neg < 0)[0]
             ind2 = np.where(tmp_Y2ps[:-1]*tmp_Y2ps[1:] < 0)[0]
-            ind = ([i for i in ind1 if i in ind2] + list(ind1))[0]
+            ind = ([i for i in ind1 if i in ind2] or list(ind1))[-1]
             interval_Y1p = [tmp_Y1ps[ind], tmp_Y1ps[ind + 1]]
             interval_Y3 = [tmp_Y3s[ind], tmp_Y3s[ind + 1]]
         # check if we get a lesser cool interval
-- 
2.43.0


From 7eccab9812e587edc06e72732903deea62bba169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:01 +0000
Subject: [PATCH 177/261] fix: radius of clockwise vortices

---
 IMTreatment/vortex_properties/vortex_properties.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 573888c..8f11052 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -76,14 +76,15 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
     # getting the ~initial maximum vorticity of the zone
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
-    max_vort = vort.values[ind_x, ind_y]
+    values = vort.values*np.sign(vort.values[ind_x, ind_y])
+    max_vort = values[ind_x, ind_y]
     # getting zone around point
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
+    zones, nmb_zones = msr.label(values > eps_detection*max_vort)
     zone_number = zones[ind_x, ind_y]
     # getting the real maximum vorticity
-    max_vort = np.max(vort.values[zones == zone_number])
+    max_vort = np.max(values[zones == zone_number])
     # getting the real zones
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
+    zones, nmb_zones = msr.label(values > eps_detection*max_vort)
     zone_number = zones[ind_x, ind_y]
     # getting the zone area and radius
     area = np.sum(zones == zone_number)*dx*dy
-- 
2.43.0


From 1e35328c5a5736f5bab9373d45661b1b801b1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:01 +0000
Subject: [PATCH 178/261] fix: vortex radius where there is no vortex

---
 IMTreatment/vortex_properties/vortex_properties.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 8f11052..e8d69a9 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -86,11 +86,16 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
     # getting the real zones
     zones, nmb_zones = msr.label(values > eps_detection*max_vort)
     zone_number = zones[ind_x, ind_y]
-    # getting the zone area and radius
-    area = np.sum(zones == zone_number)*dx*dy
+    # getting the zone area and radius (nothing if there is no vortex)
+    if zone_number == 0:
+        area = 0.
+    else:
+        area = np.sum(zones == zone_number)*dx*dy
     radius = (area/np.pi)**.5
     # getting the new center
-    if output_center:
+    if output_center and zone_number == 0:
+        center = np.array(vort_center, dtype=float)
+    elif output_center:
         center = np.array(msr.center_of_mass(np.abs(vort.values),
                                              zones == zone_number))
         center[0] = VF.axe_x[0] + center[0]*dx
-- 
2.43.0


From 33150c261c8c0c63842a46ca7c86b9a39bcf1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:01 +0000
Subject: [PATCH 179/261] fix: unit of the vortex radius

---
 IMTreatment/vortex_properties/vortex_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index e8d69a9..0e523ff 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -102,7 +102,7 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
         center[1] = VF.axe_y[0] + center[1]*dy
     # optional computed unit
     if output_unit:
-        unit_radius = (VF.unit_x**2 + VF.unit_y**2)**.5
+        unit_radius = (VF.unit_x*VF.unit_y)**.5
     # return
     if not output_unit and not output_center:
         return radius
-- 
2.43.0


From 2b071869ddf60cad3e725bf6a5c4598cdac7db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:01 +0000
Subject: [PATCH 180/261] fix: properties of a vortex whose center is at rest

---
 IMTreatment/vortex_properties/vortex_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 0e523ff..94bb417 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -255,8 +255,8 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
     unit_int = prop_crit.unit_values*prop_crit.unit_x*prop_crit.unit_y
-    # check if value is positive at the vortex center
-    if VF.magnitude[ind_x, ind_y] <= 0:
+    # check if the vortex center is not masked
+    if VF.mask[ind_x, ind_y]:
         raise ValueError()
     # get first guess vortex zone (use value at center as a predica of
     #    the maxima)
-- 
2.43.0


From 58ce54cb5a6057019e4e5fbaac5f852f085a1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:01 +0000
Subject: [PATCH 181/261] fix: unit of the circulation where there is no vortex

---
 IMTreatment/vortex_properties/vortex_properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 94bb417..7e521f0 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -27,7 +27,7 @@ import matplotlib.pyplot as plt
 from scipy.integrate import simps
 
 from ..core import Points, Profile, ScalarField
-from ..utils import ProgressCounter, make_unit
+from ..utils import ProgressCounter
 from ..vortex_criterions import (get_NL_residual_vorticity,
                                  get_residual_vorticity, get_vorticity)
 
@@ -435,7 +435,8 @@ def get_vortex_circulation(VF, vort_center, epsilon=0.1, output_unit=False,
     # if we are outside a zone
     if lab == 0:
         if output_unit:
-            return 0., make_unit("")
+            unit_circ = vort.unit_values*VF.unit_x*VF.unit_y
+            return 0., unit_circ/unit_circ.asNumber()
         else:
             return 0.
     if verbose:
-- 
2.43.0


From 83bddff747301c8b0b58bcb43ae117af9d640dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:57 +0000
Subject: [PATCH 182/261] fix: vortex property where the given center is out of
 the vortex

---
 IMTreatment/vortex_properties/vortex_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 7e521f0..c34a442 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -277,7 +277,7 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     lab = vort_zones_labs[ind_x, ind_y]
     # get prop_crit integral along zone
     tmp_prop_crit = prop_crit.values.copy()
-    tmp_prop_crit[lab != vort_zones_labs] = 0.
+    tmp_prop_crit[np.logical_or(lab == 0, lab != vort_zones_labs)] = 0.
     dx = VF.axe_x[1] - VF.axe_x[0]
     dy = VF.axe_y[1] - VF.axe_y[0]
     prop = simps(simps(tmp_prop_crit, dx=dy), dx=dx)
-- 
2.43.0


From f1c3ec027a0ce6b614fe3f63201cdb6868799664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 183/261] fix: quotient of spatial fields

---
 IMTreatment/core/spatialfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9a62c72..bbb874a 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -63,7 +63,7 @@ class SpatialFields(flds.Fields):
 
     def __truediv__(self, other):
         if isinstance(other, (NUMBERTYPES, unum.Unum)):
-            final_vfs = self.__class__.__init__()
+            final_vfs = self.__class__()
             for field in self.fields:
                 final_vfs.add_field(field/other)
             return final_vfs
-- 
2.43.0


From 1b1ed24456ab7cf30eff75b11d8f53c5b4671f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 184/261] fix: iterating over spatial fields

---
 IMTreatment/core/spatialfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index bbb874a..b0d8fc4 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -84,7 +84,7 @@ class SpatialFields(flds.Fields):
 
     def __iter__(self):
         for i in np.arange(len(self.fields)):
-            yield self.times[i], self.fields[i]
+            yield self.fields[i]
 
     @property
     def mask(self):
-- 
2.43.0


From 6dcd7f3d96d5274e140d8eb4a6ad31e0c67494e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 185/261] fix: mask of spatial fields

---
 IMTreatment/core/spatialfields.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index b0d8fc4..fe1190e 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -88,10 +88,9 @@ class SpatialFields(flds.Fields):
 
     @property
     def mask(self):
-        dim = (len(self.fields), self.shape[0], self.shape[1])
-        mask_f = np.empty(dim, dtype=bool)
+        mask_f = np.empty(len(self.fields), dtype=object)
         for i, field in enumerate(self.fields):
-            mask_f[i, :, :] = field.mask[:, :]
+            mask_f[i] = field.mask
         return mask_f
 
     @property
-- 
2.43.0


From 231be51679b1bc0917bf029c9f6539468cc0fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 186/261] fix: adding a field to spatial fields leaves the
 given field unchanged

---
 IMTreatment/core/spatialfields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index fe1190e..ea5d654 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -153,6 +153,8 @@ class SpatialFields(flds.Fields):
         # check
         if not isinstance(field, self.fields_type):
             raise TypeError()
+        if copy:
+            field = field.copy()
         # first field
         if len(self.fields) == 0:
             self.unit_x = field.unit_x
@@ -169,7 +171,7 @@ class SpatialFields(flds.Fields):
         # crop fields
         field.crop_masked_border(hard=False, inplace=True)
         # add field
-        flds.Fields.add_field(self, field, copy=copy)
+        flds.Fields.add_field(self, field, copy=False)
 
     def get_value(self, x, y, unit=False, error=True):
         """
-- 
2.43.0


From feb0fbd60431d11e7769e9427f693c0b646d6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 187/261] fix: values of spatial fields on the border of a
 field

---
 IMTreatment/core/spatialfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index ea5d654..65ef5d4 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -190,8 +190,8 @@ class SpatialFields(flds.Fields):
         # get interesting fields
         inter_ind = []
         for i, field in enumerate(self.fields):
-            if (x > field.axe_x[0] and x < field.axe_x[-1] and
-                    y > field.axe_y[0] and y < field.axe_y[-1]):
+            if (x >= field.axe_x[0] and x <= field.axe_x[-1] and
+                    y >= field.axe_y[0] and y <= field.axe_y[-1]):
                 inter_ind.append(i)
         # get values (mean over fields if necessary)
         if len(inter_ind) == 0:
-- 
2.43.0


From 11719839205cdd88b51b1ec002f1dcc8ec73e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 188/261] fix: values of spatial fields with their unit

---
 IMTreatment/core/spatialfields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 65ef5d4..8520678 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -208,6 +208,8 @@ class SpatialFields(flds.Fields):
             for field in self.fields[inter_ind][1::]:
                 values += field.get_value(x, y, ind=False, unit=False)
             values /= len(inter_ind)
+        if unit:
+            values = values*self.unit_values
         return values
 
     def get_values_on_grid(self, axe_x, axe_y):
-- 
2.43.0


From 90da888a82a22a99bcace0dcf93c19c93f064e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 189/261] fix: spatial scalar fields on a grid

---
 IMTreatment/core/spatialfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 8520678..8823bcc 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -239,7 +239,7 @@ class SpatialFields(flds.Fields):
                         mask[i, j] = True
                     else:
                         values[i, j] = val
-            tmp_f = sf.ScalarField
+            tmp_f = sf.ScalarField()
             tmp_f.import_from_arrays(axe_x, axe_y, values, mask=mask,
                                      unit_x=self.unit_x, unit_y=self.unit_y,
                                      unit_values=self.unit_values)
-- 
2.43.0


From c7a4495a48bccabe3294737409086670c9f03882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:51 +0000
Subject: [PATCH 190/261] fix: units of spatial fields follow those of their
 fields

---
 IMTreatment/core/spatialfields.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 8823bcc..42a7977 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -103,6 +103,8 @@ class SpatialFields(flds.Fields):
 
     @property
     def unit_x(self):
+        if len(self.fields) != 0:
+            return self.fields[0].unit_x
         return self.__unit_x
 
     @unit_x.setter
@@ -113,6 +115,8 @@ class SpatialFields(flds.Fields):
 
     @property
     def unit_y(self):
+        if len(self.fields) != 0:
+            return self.fields[0].unit_y
         return self.__unit_y
 
     @unit_y.setter
@@ -123,7 +127,9 @@ class SpatialFields(flds.Fields):
 
     @property
     def unit_values(self):
-        return self._SpatialFields__unit_values
+        if len(self.fields) != 0:
+            return self.fields[0].unit_values
+        return self.__unit_values
 
     @unit_values.setter
     def unit_values(self, unit):
-- 
2.43.0


From c422e986e8dfc63ad9e79b621519ac1cb4d8260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:51 +0000
Subject: [PATCH 191/261] fix: rotation of spatial fields

---
 IMTreatment/core/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index a7cdcb9..4bd2c2e 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -112,7 +112,8 @@ class Fields(object):
         # normalize angle
         angle = angle % 360
         # rotate the parent
-        field.Field.rotate(tmp_field, angle, inplace=True)
+        if isinstance(tmp_field, field.Field):
+            field.Field.rotate(tmp_field, angle, inplace=True)
         # rotate fields
         for i in np.arange(len(tmp_field.fields)):
             tmp_field.fields[i].rotate(angle=angle, inplace=True)
-- 
2.43.0


From 9dab5330268fe28069620e247bf00b5c9282c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:51 +0000
Subject: [PATCH 192/261] fix: profiles of spatial fields

---
 IMTreatment/core/spatialfields.py | 37 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 42a7977..10f440c 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -294,53 +294,54 @@ class SpatialFields(flds.Fields):
         if self.fields_type == vf.VectorField:
             if component is None:
                 component = 'magnitude'
-            else:
-                try:
-                    comp = self.__getattribute__("{}_as_sf".format(component))
-                except AttributeError:
-                    raise ValueError()
         elif self.fields_type == sf.ScalarField:
             if component is None:
                 component = "values"
-            try:
-                comp = self.__getattribute__("{}_as_sf".format(component))
-            except AttributeError:
-                raise ValueError()
+        try:
+            comp = self.__getattribute__("{}_as_sf".format(component))
+        except AttributeError:
+            raise ValueError()
+        if isinstance(position, ARRAYTYPES):
+            position = np.array(position, dtype=float)
+        axe_name = 'x' if direction == 1 else 'y'
         # get fields of interest
         inter_ind = []
         if direction == 1:
             for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_x[-1]) and \
-                   np.any(position > field.axe_x[0]):
+                if np.any(position <= field.axe_x[-1]) and \
+                   np.any(position >= field.axe_x[0]):
                     inter_ind.append(i)
         elif direction == 2:
             for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_y[-1]) and \
-                   np.any(position > field.axe_y[0]):
+                if np.any(position <= field.axe_y[-1]) and \
+                   np.any(position >= field.axe_y[0]):
                     inter_ind.append(i)
         # get profiles
         if len(inter_ind) == 0:
             return None
         elif len(inter_ind) == 1:
-            return comp[inter_ind[0]].get_profile(direction=direction,
+            return comp[inter_ind[0]].get_profile(direction=axe_name,
                                                   position=position,
-                                                  ind=False)[0]
+                                                  ind=False)
         else:
             # get profiles
             x = np.array([])
             y = np.array([])
+            mask = np.array([], dtype=bool)
             for ind in inter_ind:
                 tmp_comp = comp[ind]
-                tmp_prof = tmp_comp.get_profile(direction=direction,
+                tmp_prof = tmp_comp.get_profile(direction=axe_name,
                                                 position=position,
-                                                ind=False)[0]
+                                                ind=False)
                 x = np.concatenate((x, tmp_prof.x))
                 y = np.concatenate((y, tmp_prof.y))
+                mask = np.concatenate((mask, tmp_prof.mask))
             # recreate profile object
             ind_sort = np.argsort(x)
             x = x[ind_sort]
             y = y[ind_sort]
-            fin_prof = prof.Profile(x, y, mask=False, unit_x=tmp_prof.unit_x,
+            mask = mask[ind_sort]
+            fin_prof = prof.Profile(x, y, mask=mask, unit_x=tmp_prof.unit_x,
                                     unit_y=tmp_prof.unit_y)
 
             return fin_prof
-- 
2.43.0


From 773b6f53637d0a3e9647502e4dfe666711651465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:05 +0000
Subject: [PATCH 193/261] fix: products of spatial fields by quantities

---
 IMTreatment/core/spatialfields.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 10f440c..f422b09 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -51,9 +51,9 @@ class SpatialFields(flds.Fields):
 
     def __mul__(self, other):
         if isinstance(other, (NUMBERTYPES, unum.Unum)):
-            final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            final_vfs = self.copy()
+            for i, field in enumerate(self.fields):
+                final_vfs.fields[i] = field*other
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -63,9 +63,9 @@ class SpatialFields(flds.Fields):
 
     def __truediv__(self, other):
         if isinstance(other, (NUMBERTYPES, unum.Unum)):
-            final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field/other)
+            final_vfs = self.copy()
+            for i, field in enumerate(self.fields):
+                final_vfs.fields[i] = field/other
             return final_vfs
         else:
             raise TypeError("You can only divide a temporal velocity field "
@@ -77,9 +77,9 @@ class SpatialFields(flds.Fields):
         if not isinstance(number, NUMBERTYPES):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
-        final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        final_vfs = self.copy()
+        for i, field in enumerate(self.fields):
+            final_vfs.fields[i] = np.power(field, number)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From 7286ad2c8ee69efe3c0e92d93b9d7763651be701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:26 +0000
Subject: [PATCH 194/261] fix: a truncated cache file is like no cache file

---
 IMTreatment/utils/memoization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index dcc8be3..c7ad004 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -24,6 +24,7 @@
 import gc
 import gzip
 import pickle
+import zlib
 
 
 def memoize_to_file(file_name):
@@ -34,7 +35,8 @@ def memoize_to_file(file_name):
         try:
             with gzip.open(file_name, 'rb') as f:
                 cache = pickle.load(f)
-        except (IOError, ValueError):
+        except (IOError, ValueError, EOFError, zlib.error,
+                pickle.UnpicklingError):
             cache = {}
         gc.enable()
 
-- 
2.43.0


From 02568baad49b748d4d8e77aba507c60d4c28ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:26 +0000
Subject: [PATCH 195/261] fix: the results given by a memoized function are not
 those of its cache

---
 IMTreatment/utils/memoization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index c7ad004..ff6ae45 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -21,6 +21,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import gc
 import gzip
 import pickle
@@ -48,7 +49,7 @@ def memoize_to_file(file_name):
                 with gzip.open(file_name, 'wb') as f:
                     pickle.dump(cache, f, protocol=-1)
                 gc.enable()
-            return cache[key]
+            return copy.deepcopy(cache[key])
 
         return new_func
 
-- 
2.43.0


From 98722bb7581747a26c7c924e0ce2c25eda98f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 196/261] fix: removing files by expression or by indices

---
 IMTreatment/utils/files.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 68daf5b..43e018e 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -28,7 +28,7 @@ import os
 from os.path import join
 import copy
 import re
-from ..utils.types import ARRAYTYPES
+from ..utils.types import ARRAYTYPES, INTEGERTYPES
 from ..utils.progresscounter import ProgressCounter
 
 try:
@@ -172,14 +172,19 @@ class Files(object):
             if a regex, remove the paths that match,
             if an array, delete paths for each element.
         """
-        if isinstance(arg, int):
+        if isinstance(arg, INTEGERTYPES):
             ind = arg
             del self.paths[ind]
             del self.exist[ind]
             del self.isdir[ind]
         elif isinstance(arg, ARRAYTYPES):
+            inds = [thing + (thing < 0)*len(self.paths) for thing in arg
+                    if isinstance(thing, INTEGERTYPES)]
+            for ind in sorted(set(inds), reverse=True):
+                self.remove_files(ind)
             for thing in arg:
-                self.remove_files(thing)
+                if not isinstance(thing, INTEGERTYPES):
+                    self.remove_files(thing)
         elif isinstance(arg, str):
             for i in np.arange(len(self.paths) - 1, -1, -1):
                 res = re.match(arg, self.paths[i])
-- 
2.43.0


From 9108ecaaab0738d890538b5f60241dc96308c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 197/261] fix: folders deeper than the asked depth do not hide
 the other ones

---
 IMTreatment/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 43e018e..52202fe 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -215,7 +215,8 @@ class Files(object):
                 tmp_depth = (root[len(rootpath) + len(os.path.sep):]
                              .count(os.path.sep))
                 if depth < tmp_depth:
-                    break
+                    dirs[:] = []
+                    continue
             # load direcories
             if load_dirs:
                 for d in dirs:
-- 
2.43.0


From eb94a475463f6032a1ca2d9f51e7660ae988dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 198/261] fix: deleting folders in folders

---
 IMTreatment/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 52202fe..4d0dfb1 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -297,7 +297,8 @@ class Files(object):
                 os.remove(p)
 
             # remove dirs
-            for i, p in enumerate(np.array(tmp_paths)):
+            for i, p in sorted(enumerate(np.array(tmp_paths)),
+                               key=lambda ip: -len(ip[1])):
                 if tmp_isdir[i]:
                     # force recursive removing
                     if recursive:
-- 
2.43.0


From b24e6a589e457da87f09e0e65466a2230c558902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 199/261] fix: deleting a folder that is not empty

---
 IMTreatment/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 4d0dfb1..c091c36 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -307,7 +307,7 @@ class Files(object):
                         # else, check if each folder is empty
                         try:
                             os.rmdir(p)
-                        except WindowsError:
+                        except OSError:
                             print("+++ Following folder is not empty\n"
                                   "{}".format(p))
                             while True:
-- 
2.43.0


From 489b30050a7e986dfec201dce314bc2fbf834a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 200/261] fix: adding a future file of the working directory

---
 IMTreatment/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index c091c36..d0706a0 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -154,7 +154,7 @@ class Files(object):
                 self.isdir.append(True)
             else:
                 self.isdir.append(False)
-        elif os.access(os.path.dirname(path), os.W_OK):
+        elif os.access(os.path.dirname(path) or os.curdir, os.W_OK):
             self.paths.append(path)
             self.exist.append(False)
             self.isdir.append(None)
-- 
2.43.0


From 52d965f0cfacc7193bcea2119ea895226b3c0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 201/261] fix: no function call in units

---
 IMTreatment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index 5031bc4..c298a48 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -63,7 +63,7 @@ def make_unit(string):
     for f in forbidden:
         if f in string:
             raise Exception("Unauthorized string: {}".format(f))
-    if re.match("[a-zA-Z]+\(.*\)", string):
+    if re.search(r"[\w)\]]\s*\(", string):
         raise Exception("No call allowed here")
     # Replace '^' by '**'
     string = string.replace('^', '**')
-- 
2.43.0


From 2a112a468a13adfd8e2d7638e3fd43a333cd33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 202/261] fix: file descriptors left open after hiding the
 Fortran output

---
 IMTreatment/utils/codeinteraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/utils/codeinteraction.py b/IMTreatment/utils/codeinteraction.py
index 95ae4ce..cd9db1e 100644
--- a/IMTreatment/utils/codeinteraction.py
+++ b/IMTreatment/utils/codeinteraction.py
@@ -47,3 +47,5 @@ class RemoveFortranOutput(object):
         os.dup2(self.save[1], 2)
         os.close(self.null_fds[0])
         os.close(self.null_fds[1])
+        os.close(self.save[0])
+        os.close(self.save[1])
-- 
2.43.0


From c17e91f666ff76d2ba9d45eaa65776104d9281b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 203/261] fix: number of days of the progress counter

---
 IMTreatment/utils/progresscounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/progresscounter.py b/IMTreatment/utils/progresscounter.py
index b822c18..294a8bc 100644
--- a/IMTreatment/utils/progresscounter.py
+++ b/IMTreatment/utils/progresscounter.py
@@ -167,5 +167,5 @@ class ProgressCounter(object):
         if h != 0:
             repr_time = '{:d}h'.format(h) + repr_time
         if j != 0:
-            repr_time = '{:d}j'.format(m) + repr_time
+            repr_time = '{:d}j'.format(j) + repr_time
         return repr_time
-- 
2.43.0


From 1deecede297477b900bb5fb06d54da94f522f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 204/261] fix: length of the progress bar

---
 IMTreatment/utils/progresscounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/progresscounter.py b/IMTreatment/utils/progresscounter.py
index 294a8bc..0b64423 100644
--- a/IMTreatment/utils/progresscounter.py
+++ b/IMTreatment/utils/progresscounter.py
@@ -64,7 +64,7 @@ class ProgressCounter(object):
         if self.interv == 0:
             self.interv = 1
         self.t0 = None
-        self.pgbar_len = 15
+        self.pgbar_len = pgbar_len
 
     def _print_init(self):
         print("=== {} ===".format(self.init_mess))
-- 
2.43.0


From 855e8025966a444e90e9689499569e460a756889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:15 +0000
Subject: [PATCH 205/261] fix: radii along time with distinct units on the axes

---
 IMTreatment/vortex_properties/vortex_properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index c34a442..d83305c 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -187,8 +187,10 @@ def get_vortex_radius_time_evolution(TVFS, traj, NL_radius=None,
                                          output_center=False)
     # returning
     mask = radii == 0.
+    unit_radii = (TVFS.unit_x*TVFS.unit_y)**.5
+    radii *= unit_radii.asNumber()
     radii_prof = Profile(traj.v, radii, mask=mask, unit_x=TVFS.unit_times,
-                         unit_y=TVFS.unit_x)
+                         unit_y=unit_radii/unit_radii.asNumber())
     if output_center:
         return radii_prof, centers
     else:
-- 
2.43.0


From 7bcf494f9c46331cedf5fabec8d79ae4c734cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:48 +0000
Subject: [PATCH 206/261] fix: envelope of points with current scipy

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 9d62a52..acdad92 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -612,7 +612,7 @@ class Points(object):
             edges.add((i, j))
             edge_points.append(points[[i, j]])
         points = np.array(points)
-        for ia, ib, ic in tri.vertices:
+        for ia, ib, ic in tri.simplices:
             pa = points[ia]
             pb = points[ib]
             pc = points[ic]
-- 
2.43.0


From 7d2d9f4b2e1c5346b888977a2d35d80d458135d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:48 +0000
Subject: [PATCH 207/261] fix: abscissae of smoothed velocities are those of
 the smoothed points

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index acdad92..58cf708 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -683,8 +683,6 @@ class Points(object):
             x = x[::incr]
             y = y[::incr]
             times = times[::incr]
-        dx = x[1::] - x[:-1]
-        dy = y[1::] - y[:-1]
         dt = times[1::] - times[:-1]
         # smoothing if necessary
         if smooth != 0:
@@ -692,6 +690,8 @@ class Points(object):
             tmp_pts.smooth(tos='lowpass', size=smooth, inplace=True)
             x = tmp_pts.xy[:, 0]
             y = tmp_pts.xy[:, 1]
+        dx = x[1::] - x[:-1]
+        dy = y[1::] - y[:-1]
         # getting velocity between points
         Vx = np.array([(x[i + 1] - x[i])/dt[i]
                        for i in np.arange(len(x) - 1)])
-- 
2.43.0


From fb6289db5bf4b5ea2f36d050b80a5b728ddb88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 208/261] fix: interval on which a spectrum is computed

---
 IMTreatment/core/profile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 00df4a1..de0e7ca 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -770,6 +770,12 @@ class Profile(object):
         from scipy.signal import periodogram, welch
         from scipy.signal import detrend as spdetrend
         tmp_prof = self.copy()
+        if wanted_x is not None:
+            filt = np.logical_and(self.x >= wanted_x[0],
+                                  self.x <= wanted_x[1])
+            tmp_prof = Profile(self.x[filt], self.y[filt],
+                               mask=self.mask[filt], unit_x=self.unit_x,
+                               unit_y=self.unit_y)
         # fill if asked (and if necessary)
         if isinstance(fill, NUMBERTYPES):
             tmp_prof.fill(kind='value', fill_value=fill, inplace=True)
-- 
2.43.0


From 7fd0aa7c155ecdb02a913a1f8fab5ad4f3fadea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 209/261] fix: bandwidth of the probability density of a
 profile

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index de0e7ca..96055de 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -923,7 +923,7 @@ class Profile(object):
         y_max = np.max(y)
         # get kernel
         import scipy.stats.kde as spkde
-        kernel = spkde.gaussian_kde(y)
+        kernel = spkde.gaussian_kde(y, bw_method=bw_method)
         # get values
         pdf_x = np.linspace(y_min, y_max, resolution)
         pdf_y = kernel(pdf_x)
-- 
2.43.0


From 3835bcc2548940363403e5da6f2972e999ed1f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 210/261] fix: even spacing test of the convolution of profiles

---
 IMTreatment/core/profile.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 96055de..9cbb71b 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1198,13 +1198,11 @@ class Profile(object):
             raise TypeError()
         if mode not in ['full', 'same', 'valid']:
             raise ValueError()
-        if not np.all(self.x[1:] - self.x[0:-1] - (self.x[1] - self.x[0]) <
-                      self.x[-1]*1e-10):
-            raise Exception("Profiles should have orthogonal x axis")
-        if not np.all(other_prof.x[1:] - other_prof.x[0:-1] -
-                      other_prof.x[1] - other_prof.x[0] <
-                      1e-6*np.mean(other_prof.x)):
-            raise Exception("Profiles should have orthogonal x axis")
+        for prof in [self, other_prof]:
+            dx = prof.x[1] - prof.x[0]
+            if not np.all(np.abs(prof.x[1:] - prof.x[0:-1] - dx) <
+                          1e-6*np.abs(dx)):
+                raise Exception("Profiles should have orthogonal x axis")
         if not self.x[1] - self.x[0] == other_prof.x[1] - other_prof.x[0]:
             raise Exception("Profiles should have same x discretization step")
         if not self.unit_x == other_prof.unit_x:
-- 
2.43.0


From 1c9602e195bcebe1393fcc57aff4d08aedb1a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 211/261] fix: lowpass and highpass spectral filtering of
 profiles

---
 IMTreatment/core/profile.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 9cbb71b..f79b04f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1331,9 +1331,16 @@ class Profile(object):
         # define butterworth filter
         fs = len(tmp_prof.x)/(tmp_prof.x[-1] - tmp_prof.x[0])
         nyq = 0.5 * fs
-        low = fmin / nyq
-        high = fmax / nyq
-        b, a = spsign.butter(order, [low, high], btype='band')
+        if fmin is None and fmax is None:
+            raise ValueError("'fmin' or 'fmax' should be specified")
+        elif fmin is None:
+            b, a = spsign.butter(order, fmax/nyq, btype='low')
+        elif fmax is None:
+            b, a = spsign.butter(order, fmin/nyq, btype='high')
+        else:
+            low = fmin / nyq
+            high = fmax / nyq
+            b, a = spsign.butter(order, [low, high], btype='band')
         # Apply filter to data
         y = spsign.lfilter(b, a, tmp_prof.y)
         # Readd average
-- 
2.43.0


From dcd9fe34fc0e4bccd543f4ef5af7b59d18f7af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 212/261] fix: spectral filtering leaves the filtered series
 unchanged

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 83b14ad..94ec8e9 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -873,8 +873,8 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         # check
         try:
-            tf = self.__getattribute__("{}_as_sf".format(comp))
-        except AttributeError():
+            tf = self.__getattribute__("{}_as_sf".format(comp)).copy()
+        except AttributeError:
             raise ValueError()
         # loop on space
         xys = [[x, y]
-- 
2.43.0


From 7d191f4972ed28fa584e3f3976515e75605745f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 213/261] fix: spatial spectrum of series of scalar fields

---
 IMTreatment/core/scalarfield.py    | 4 ++++
 IMTreatment/core/temporalfields.py | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e9c2408..4d0b280 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -379,6 +379,10 @@ class ScalarField(fld.Field):
     def mask(self):
         raise Exception("Nope, can't do that")
 
+    @property
+    def values_as_sf(self):
+        return self
+
     @property
     def mask_as_sf(self):
         tmp_sf = ScalarField()
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 94ec8e9..70a151a 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -413,7 +413,7 @@ class TemporalFields(flds.Fields, fld.Field):
         # check parameters
         try:
             self[0].__getattribute__('{}_as_sf'.format(component))
-        except AttributeError():
+        except AttributeError:
             raise ValueError()
         if not isinstance(direction, STRINGTYPES):
             raise TypeError()
@@ -786,7 +786,7 @@ class TemporalFields(flds.Fields, fld.Field):
         # check
         try:
             self.fields[0].__getattribute__(comp)
-        except AttributeError():
+        except AttributeError:
             raise ValueError()
         # prepare
         map_freq = []
-- 
2.43.0


From 99bbcf453b642559540ab94fe18d5b1be653d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 214/261] fix: instants used for phase maps

---
 IMTreatment/core/temporalscalarfields.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index dfcab84..b37b9f4 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -254,9 +254,8 @@ class TemporalScalarFields(tf.TemporalFields):
                 if verbose:
                     pg.print_progress()
                 # get profile
-                profile = self.get_time_profile(compo, (x, y),
-                                                wanted_times=[0, tf])
-                prof = profile.y
+                profile = self.get_time_profile(compo, (x, y))
+                prof = profile.y[0:tf + 1]
                 dx = profile.x[1] - profile.x[0]
                 # get fft
                 fft = np.fft.fft(prof)
-- 
2.43.0


From 254bb29520ca0ba9c7b2a9673f3d859c113fdc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 215/261] fix: unit of the norm of phase maps

---
 IMTreatment/core/temporalscalarfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index b37b9f4..e05a9c3 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -286,7 +286,7 @@ class TemporalScalarFields(tf.TemporalFields):
                                 values=norms,
                                 unit_x=self.unit_x,
                                 unit_y=self.unit_y,
-                                unit_values="")
+                                unit_values=self.unit_values)
         phase = sf.ScalarField()
         phase.import_from_arrays(axe_x=self.axe_x,
                                  axe_y=self.axe_y,
-- 
2.43.0


From d6672b4042cdcddd47a40c137eccc86bd6aca49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 216/261] fix: background of steady pixels

---
 IMTreatment/core/temporalscalarfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index e05a9c3..2d384ad 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -140,8 +140,8 @@ class TemporalScalarFields(tf.TemporalFields):
             old_std = 0
             mean = np.mean(vals, dtype=float)
             while True:
-                vals = vals[np.logical_and(vals > mean - std,
-                                           vals < mean + std)]
+                vals = vals[np.logical_and(vals >= mean - std,
+                                           vals <= mean + std)]
                 old_std = std
                 std = np.std(vals)
                 mean = np.mean(vals)
-- 
2.43.0


From e40cabc94af62af09428bc0a381b2b0f3e9f1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 217/261] fix: unit of the background image

---
 IMTreatment/core/temporalscalarfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 2d384ad..c54383f 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -155,7 +155,8 @@ class TemporalScalarFields(tf.TemporalFields):
                               axe_y=self.axe_y,
                               values=values,
                               unit_x=self.unit_x,
-                              unit_y=self.unit_y)
+                              unit_y=self.unit_y,
+                              unit_values=self.unit_values)
         return bg
 
     def substract_background(self, bg, noise_level=10,
-- 
2.43.0


From bd02ae56b75b0638ca090a257c27c23b390dad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:25 +0000
Subject: [PATCH 218/261] fix: normalization of recurrence maps

---
 IMTreatment/core/temporalfields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 70a151a..4f176a1 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -922,7 +922,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 magnitude = self.get_mean_field().magnitude
                 normalizer = np.sum(magnitude**norm)**inv_norm/nmb_val
             else:
-                magnitude = self.get_mean_field().values
+                magnitude = np.abs(self.get_mean_field().values)
                 normalizer = np.sum(magnitude**norm)**inv_norm/nmb_val
         # double loop
         for i in range(length):
@@ -954,15 +954,17 @@ class TemporalFields(flds.Fields, fld.Field):
                 rec_map[i, j] = res
                 rec_map[j, i] = res
         # normalize
+        unit_values = self.unit_values
         if normalized:
             rec_map /= normalizer
+            unit_values = make_unit('')
         # return
         rec_map_sf = sf.ScalarField()
         rec_map_sf.import_from_arrays(axe_x=self.times, axe_y=self.times,
                                       values=rec_map,
                                       unit_x=self.unit_times,
                                       unit_y=self.unit_times,
-                                      unit_values=self.unit_values)
+                                      unit_values=unit_values)
         return rec_map_sf
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0,
-- 
2.43.0


From 93ca79ae79a78752d78901ffe39f3ec9666df531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 219/261] fix: comparison of objects with incompatible units

---
 IMTreatment/core/points.py                       |  8 ++++----
 IMTreatment/core/profile.py                      |  6 +++---
 IMTreatment/core/scalarfield.py                  |  8 ++++----
 IMTreatment/core/temporalfields.py               | 10 ++++++----
 IMTreatment/core/vectorfield.py                  |  8 ++++----
 IMTreatment/utils/__init__.py                    |  2 +-
 IMTreatment/utils/units.py                       | 11 +++++++++++
 IMTreatment/vortex_detection/vortex_detection.py |  5 +++--
 8 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 58cf708..ab5b2c9 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -29,7 +29,7 @@ import copy
 from scipy import stats
 from scipy import ndimage
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 
 
 class Points(object):
@@ -151,11 +151,11 @@ class Points(object):
             return False
         if not np.all(self.v == obj.v):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_v == obj.unit_v:
+        if not same_units(self.unit_v, obj.unit_v):
             return False
         return True
 
diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index f79b04f..ce771da 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -30,7 +30,7 @@ import scipy.interpolate as spinterp
 from scipy import ndimage
 import scipy.optimize as spopt
 import scipy.signal as spsign
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from .. import plotlib as pplt
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from .scalarfield import ScalarField
@@ -244,9 +244,9 @@ class Profile(object):
             return False
         if not np.all(self.y[~self.mask] == obj.y[~obj.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
         return True
 
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 4d0b280..017027e 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -33,7 +33,7 @@ from scipy import ndimage
 
 from .. import plotlib as pplt
 from . import field as fld, profile as prof, points as pts
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -62,11 +62,11 @@ class ScalarField(fld.Field):
         if not np.allclose(self.values[~self.mask],
                       another.values[~another.mask]):
             return False
-        if not np.all(self.unit_x == another.unit_x):
+        if not same_units(self.unit_x, another.unit_x):
             return False
-        if not np.all(self.unit_y == another.unit_y):
+        if not same_units(self.unit_y, another.unit_y):
             return False
-        if not np.all(self.unit_values == another.unit_values):
+        if not same_units(self.unit_values, another.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 4f176a1..3b9a956 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -26,7 +26,7 @@ from .. import plotlib as pplt
 import numpy as np
 import unum
 import copy
-from ..utils import make_unit, ProgressCounter
+from ..utils import make_unit, ProgressCounter, same_units
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from . import field as fld
 from . import fields as flds
@@ -175,9 +175,11 @@ class TemporalFields(flds.Fields, fld.Field):
             if not np.all(self.__getattribute__(attr) ==
                           obj.__getattribute__(attr)):
                 return False
-        for attr in ['field_type', 'unit_x', 'unit_y', 'unit_times']:
-            if not (self.__getattribute__(attr) ==
-                    obj.__getattribute__(attr)):
+        if not self.field_type == obj.field_type:
+            return False
+        for attr in ['unit_x', 'unit_y', 'unit_times']:
+            if not same_units(self.__getattribute__(attr),
+                              obj.__getattribute__(attr)):
                 return False
         return True
 
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 4f3c08e..18f9123 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -31,7 +31,7 @@ from scipy import ndimage
 from .. import plotlib as pplt
 import unum
 from . import field, scalarfield as sf
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -298,11 +298,11 @@ class VectorField(field.Field):
             return False
         if not np.all(self.comp_y[~self.mask] == obj.comp_y[~self.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_values == obj.unit_values:
+        if not same_units(self.unit_values, obj.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/utils/__init__.py b/IMTreatment/utils/__init__.py
index 7e2dc48..dc1aad5 100644
--- a/IMTreatment/utils/__init__.py
+++ b/IMTreatment/utils/__init__.py
@@ -24,7 +24,7 @@
 Utlities used by IMTreatment modules
 """
 
-from .units import make_unit
+from .units import make_unit, same_units
 from .types import  ARRAYTYPES, INTEGERTYPES, STRINGTYPES, NUMBERTYPES
 from .files import Files, remove_files_in_dirs
 from .progresscounter import ProgressCounter
diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index c298a48..efbcabe 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -33,6 +33,17 @@ except:
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 
 
+def same_units(unit1, unit2):
+    """
+    Return 'True' if the given units are equal ('False' if they are not, or
+    if they cannot be compared).
+    """
+    try:
+        return bool(unit1 == unit2)
+    except unum.IncompatibleUnitsError:
+        return False
+
+
 def make_unit(string):
     """
     Function helping for the creation of units. For more details, see the
diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index dfcbe67..c0e89f5 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -24,7 +24,7 @@
 from ..core import Points, OrientedPoints, Profile, ScalarField, VectorField,\
     TemporalScalarFields,\
     TemporalVectorFields
-from ..utils import ProgressCounter, make_unit
+from ..utils import ProgressCounter, make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 from ..vortex_criterions import get_kappa, get_gamma, get_iota, \
     get_residual_vorticity
@@ -507,7 +507,8 @@ class CritPoints(object):
                           self.__getattribute__(attr2)):
                 return False
         for attr in ['unit_time', 'unit_x', 'unit_y']:
-            if obj.__getattribute__(attr) != self.__getattribute__(attr):
+            if not same_units(obj.__getattribute__(attr),
+                              self.__getattribute__(attr)):
                 return False
         for attr in ['times', 'colors', 'cp_types']:
             if not np.all(obj.__getattribute__(attr) ==
-- 
2.43.0


From 338a38536eb9ee10088f3d9a769761e1a904c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 220/261] fix: comparison of objects of different sizes

---
 IMTreatment/core/points.py                       | 2 ++
 IMTreatment/core/profile.py                      | 2 ++
 IMTreatment/core/scalarfield.py                  | 2 ++
 IMTreatment/vortex_detection/vortex_detection.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index ab5b2c9..8433535 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -147,6 +147,8 @@ class Points(object):
     def __eq__(self, obj):
         if not isinstance(obj, Points):
             return False
+        if not (len(self.xy) == len(obj.xy) and len(self.v) == len(obj.v)):
+            return False
         if not np.all(self.xy == obj.xy):
             return False
         if not np.all(self.v == obj.v):
diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index ce771da..2e47b92 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -238,6 +238,8 @@ class Profile(object):
     def __eq__(self, obj):
         if not isinstance(obj, Profile):
             return False
+        if not len(self.x) == len(obj.x):
+            return False
         if not np.all(self.mask == obj.mask):
             return False
         if not np.all(self.x[~self.mask] == obj.x[~obj.mask]):
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 017027e..2b843fd 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -53,6 +53,8 @@ class ScalarField(fld.Field):
     def __eq__(self, another):
         if not isinstance(another, ScalarField):
             return False
+        if not self.shape == another.shape:
+            return False
         if not np.allclose(self.axe_x, another.axe_x):
             return False
         if not np.allclose(self.axe_y, another.axe_y):
diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index c0e89f5..c843723 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -498,6 +498,8 @@ class CritPoints(object):
     def __eq__(self, obj):
         if not isinstance(obj, CritPoints):
             return False
+        if not len(self.times) == len(obj.times):
+            return False
         for attr in ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']:
             if not np.all(obj.__getattribute__(attr) ==
                           self.__getattribute__(attr)):
-- 
2.43.0


From e8fba302fff977043f70f5761420eeada0b610c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 221/261] fix: forget the coherence of the modes when the modes
 change

---
 IMTreatment/pod/pod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 081c6b3..ca892ff 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -300,6 +300,7 @@ class ModalFields(Field):
             super(ModalFields, tmp_mf).crop(intervx=intervx, intervy=intervy,
                                             full_output=False, ind=ind,
                                             inplace=True)
+            tmp_mf._ModalFields__spat_coh = None
             tmp_mf.mean_field.crop(intervx=intervx, intervy=intervy, ind=ind,
                                    inplace=True)
             # loop on modes
@@ -361,10 +362,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            self._ModalFields__temp_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF._ModalFields__temp_coh = None
             return tmp_MF
 
     def smooth_spatial_evolutions(self, tos='uniform', size=None, inplace=True):
@@ -384,10 +387,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.modes[n].smooth(tos=tos, size=size, inplace=True)
+            self._ModalFields__spat_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF._ModalFields__spat_coh = None
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From a1ce6f92ba74ae6d190b528949948ff1b0598acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 222/261] fix: confined turbulent profile has the thickness of
 the confined turbulent layer

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 57a2a30..ac15bf6 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -282,7 +282,7 @@ class BlasiusBL(object):
         # get
         delta = self.get_thickness_with_confinement(x, h,
                                                     allTurbulent=allTurbulent)
-        eq_x = self.get_x_from_delta(delta.y[0])
+        eq_x = self.get_x_from_delta(delta.y[0], allTurbulent=allTurbulent)
         # return
         return self.get_profile(eq_x, y=y, allTurbulent=allTurbulent)
 
-- 
2.43.0


From 5379060e3d590e35da62bdd25e37a732ab5e97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 223/261] fix: separation of a series uses the asked number of
 lines

---
 IMTreatment/boundary_layer/boundary_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ac15bf6..5396839 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1247,7 +1247,8 @@ def get_separation_position(obj, wall_direction, wall_position,
             pts.append(get_separation_position(field,
                                                wall_direction=wall_direction,
                                                wall_position=wall_position,
-                                               interval=interval))
+                                               interval=interval,
+                                               nmb_lines=nmb_lines))
         return Profile(times, pts, unit_x=obj.unit_times,
                        unit_y=unit_axe)
     else:
-- 
2.43.0


From 25ddf72ca5f046013e02728662de36ec3f48a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 224/261] fix: wall law stress of a field having samples on the
 wall

---
 IMTreatment/boundary_layer/boundary_layer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 5396839..f04f357 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1146,16 +1146,21 @@ def get_shear_stress(obj, direction=1, method='simple',
         profiles = [obj.get_profile(axe_name, pos_ind, ind=True)
                     for pos_ind in range(len(axe))]
         # get shear stresses
-        values = np.zeros(obj.shape)
+        values = np.full(obj.shape, np.nan)
         for i in range(len(profiles)):
             stress = get_shear_stress(profiles[i], direction=1,
                                       method=method, respace=False,
                                       tau_w_guess=tau_w_guess,
                                       rho=rho, nu=nu)
+            # wall laws give no value at (or below) the wall
+            if method == 'simple':
+                filt = np.ones(len(profiles[i].x), dtype=bool)
+            else:
+                filt = profiles[i].x > 0
             if direction == 1:
-                values[i, :] = stress.y
+                values[i, filt] = stress.y
             else:
-                values[:, i] = stress.y
+                values[filt, i] = stress.y
         # returning
         mask = np.isnan(values)
         unit_values = stress.unit_y
-- 
2.43.0


From a724e654a0aec33e9d9b78820dd45749bc6bca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 225/261] fix: logarithmic wall law stress of a profile not in
 SI units

---
 IMTreatment/boundary_layer/boundary_layer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index f04f357..81eab2a 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1108,6 +1108,14 @@ def get_shear_stress(obj, direction=1, method='simple',
             x = obj.x[obj.x > 0]
             y = obj.y[obj.x > 0]
             mask = obj.mask[obj.x > 0]
+            unit_tau = obj.unit_y/obj.unit_x*unit_visc*unit_rho
+            # 'rho' and 'nu' are in SI units
+            if obj.unit_x.strUnit() == '[]' or obj.unit_y.strUnit() == '[]':
+                fact_x, fact_y, fact_tau = 1., 1., 1.
+            else:
+                fact_x = obj.unit_x.asNumber(make_unit('m'))
+                fact_y = obj.unit_y.asNumber(make_unit('m/s'))
+                fact_tau = make_unit('kg/m/s**2').asNumber(unit_tau)
 
             # log law of the wall
             def func(u_star, U, rho, y, nu):
@@ -1127,9 +1135,8 @@ def get_shear_stress(obj, direction=1, method='simple',
             u_stars = np.zeros(len(x))
             for i in np.arange(len(u_stars)):
                 u_stars[i] = spopt.fsolve(func, (1e-6,),
-                                          (y[i], rho, x[i], nu))
-            tau_w = rho*np.array(u_stars)**2
-            unit_tau = obj.unit_y/obj.unit_x*unit_visc*unit_rho
+                                          (y[i]*fact_y, rho, x[i]*fact_x, nu))
+            tau_w = rho*np.array(u_stars)**2*fact_tau
             # returning
             return Profile(x=x, y=tau_w, mask=mask, unit_x=obj.unit_x,
                            unit_y=unit_tau, name=obj.name)
-- 
2.43.0


From f7673c8227f1168f6e5373a57dc4b4e6b78967ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:49 +0000
Subject: [PATCH 226/261] fix: streamlines evenly spaced in time stop at the
 boundaries and masked values

---
 IMTreatment/field_treatment/field_treatment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index be7ca84..58a8b8a 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -913,12 +913,12 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
             nmb_it = 0
             while ODE.successful():
                 try:
+                    vel = np.linalg.norm(fun(res[-1]))
+                    if vel == 0:
+                        break
                     if resolution_kind == "time":
                         rk_dt = resolution
                     else:
-                        vel = np.linalg.norm(fun(res[-1]))
-                        if vel == 0:
-                            break
                         rk_dt = dxy/vel*resolution
                 except (ValueError, RuntimeWarning):
                     break
-- 
2.43.0


From 185a64c06cc2458f963bc97021e976f34c5962d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:49 +0000
Subject: [PATCH 227/261] fix: hide the streamlines that encounter a boundary
 when asked to

---
 IMTreatment/field_treatment/field_treatment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 58a8b8a..c99f74d 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -938,6 +938,8 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
                 new_ts.append(new_ts[-1] + rk_dt)
                 res.append(tmp_xy)
             new_xys = res
+        if boundary_tr == 'hide' and is_outside(axe_x, axe_y, new_xys[-1]):
+            continue
 #        warnings.filterwarnings('once')
         # storing and rescaling
         if len(new_xys) != 0:
-- 
2.43.0


From 41421346e789435fb731059d884b4d8abd69dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:27 +0000
Subject: [PATCH 228/261] fix: starting points of the streamlines of an
 oriented point use the step of each axis

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 72bcadf..44f84ce 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -191,7 +191,7 @@ class OrientedPoints(pts.Points):
             raise ValueError()
         # get coef
         coefx = (vf.axe_x[1] - vf.axe_x[0])*.25
-        coefy = (vf.axe_x[1] - vf.axe_x[0])*.25
+        coefy = (vf.axe_y[1] - vf.axe_y[0])*.25
         # get streamlines
         streams = []
         # for each points and each directions
-- 
2.43.0


From a54f314df9de6c6d3d747c508db6992c39b87fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:27 +0000
Subject: [PATCH 229/261] fix: streamlines of oriented points use the asked
 discretization

---
 IMTreatment/core/orientedpoints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 44f84ce..a03f16a 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -145,7 +145,8 @@ class OrientedPoints(pts.Points):
         if not isinstance(vf, vfp.VectorField):
             raise TypeError()
         # getting streamlines
-        streams = get_streamlines(vf, self.xy, reverse=reverse_direction)
+        streams = get_streamlines(vf, self.xy, reverse=reverse_direction,
+                                  resolution=delta)
         return streams
 
     def get_streamlines_from_orientations(self, vf, delta=.25, interp='linear',
@@ -205,7 +206,8 @@ class OrientedPoints(pts.Points):
                 pt2 = [pt[0] + ev[0]*coefx, pt[1] + ev[1]*coefy]
                 reverse = reverse_direction[n]
                 tmp_stream = get_streamlines(vf, [pt1, pt2],
-                                             reverse=reverse)
+                                             reverse=reverse,
+                                             resolution=delta)
                 # if we are out of field
                 if tmp_stream in [[], None]:
                     continue
-- 
2.43.0


From fb2c81e94740f755a63e3a54b82fe0a593563140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:39 +0000
Subject: [PATCH 230/261] fix: a point in the prolongation of a panel is not on
 the panel

Panel.on_panel accepted the points up to 0.7 panel length away from the
panel center, so that points outside of the panel but aligned with it
got the panel wall velocity.
---
 IMTreatment/potential_flow/potential_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index 35c27bd..94877f2 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -577,7 +577,7 @@ class Panel(object):
         """
         # check if around the point c
         dist_c = (self.xc - x)**2 + (self.yc - y)**2
-        if dist_c > self.length2/2.:
+        if dist_c > (self.length/2. + eps_abs)**2:
             return False
         # check if on the panle line
         if self.vertical:
-- 
2.43.0


From 5dce75e3f8baf52f5a0200a554621e24aae3fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:55 +0000
Subject: [PATCH 231/261] fix: addition of vector fields does not confuse
 neighbouring grid points

The tolerance used to find the grid points shared by two fields was
relative to the position, and became bigger than the grid step far from
the origin.
---
 IMTreatment/core/vectorfield.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 18f9123..eafd61f 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -78,17 +78,22 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
+                # (tolerance relative to the grid step, not to the position)
+                steps_x = np.append(np.diff(self.axe_x), np.diff(other.axe_x))
+                steps_y = np.append(np.diff(self.axe_y), np.diff(other.axe_y))
+                eps_x = 1e-4*np.min(np.abs(steps_x), initial=np.inf)
+                eps_y = 1e-4*np.min(np.abs(steps_y), initial=np.inf)
                 new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <=
-                                      np.abs(val)*1e-4)
+                                      min(eps_x, np.abs(val)*1e-4))
                                       for val in self.axe_x])
                 new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <=
-                                      np.abs(val)*1e-4)
+                                      min(eps_y, np.abs(val)*1e-4))
                                       for val in self.axe_y])
                 new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
-                                       np.abs(val)*1e-4)
+                                       min(eps_x, np.abs(val)*1e-4))
                                        for val in other.axe_x])
                 new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
-                                       np.abs(val)*1e-4)
+                                       min(eps_y, np.abs(val)*1e-4))
                                        for val in other.axe_y])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
                     raise ValueError("Incompatible shapes")
-- 
2.43.0


From d0c8c7ea321f5732d31fc9a708e593b9e1c6a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:55 +0000
Subject: [PATCH 232/261] fix: find_file_in_path ignores the folders without
 files

---
 IMTreatment/file_operation/file_operation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 886d02b..c0ca10e 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -137,6 +137,7 @@ def find_file_in_path(regs, dirpath, ask=False):
     dir_paths = []
     # recursive loop on folders
     for root, dirs, files in os.walk(dirpath):
+        match = False
         for f in files:
             match = np.any([re.match(reg, f) for reg in regs])
             if match:
-- 
2.43.0


From 9a02d75294b89367c18f72381dd93d813775c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:55 +0000
Subject: [PATCH 233/261] fix: wavelet transform refuses unevenly spaced
 profiles, whatever their scale

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 2e47b92..174cb2d 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -865,7 +865,7 @@ class Profile(object):
             if widths.ndim != 1:
                 raise ValueError()
             widths = widths/dx
-        if np.any((self.x[1::] - self.x[0:-1]) - dx > 1e-6):
+        if np.any(np.abs((self.x[1::] - self.x[0:-1]) - dx) > 1e-6*np.abs(dx)):
             raise ValueError()
         tmp_prof = self.copy()
         # fill if asked (and if necessary)
-- 
2.43.0


From f2556349e868f615c6df4490d44a0b947d0193ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:31 +0000
Subject: [PATCH 234/261] fix: dividing by a scalar field masks the points
 where it is zero

A number, quantity or array divided by a scalar field gave infinite
values where the field is zero (the array form masked the zeros of the
numerator instead, and kept the unit of the field instead of inverting
it), whereas the division of two fields masks those points.
---
 IMTreatment/core/scalarfield.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 2b843fd..cca8d6c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -212,11 +212,13 @@ class ScalarField(fld.Field):
         if isinstance(obj, NUMBERTYPES):
             tmpsf = self.copy()
             tmpsf.values = obj/tmpsf.values
+            tmpsf.mask = np.logical_or(self.mask, self.values == 0)
             tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
             tmpsf.values = obj.asNumber()/tmpsf.values
+            tmpsf.mask = np.logical_or(self.mask, self.values == 0)
             tmpsf.unit_values = obj/obj.asNumber()/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
@@ -224,10 +226,11 @@ class ScalarField(fld.Field):
             if not obj.shape == self.shape:
                 raise ValueError()
             tmpsf = self.copy()
-            mask = np.logical_or(self.mask, obj == 0)
+            mask = np.logical_or(self.mask, self.values == 0)
             not_mask = np.logical_not(mask)
             tmpsf.values[not_mask] = obj[not_mask] / tmpsf.values[not_mask]
             tmpsf.mask = mask
+            tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, ScalarField):
             if np.any(self.axe_x != obj.axe_x)\
-- 
2.43.0


From 13613f6dadaf34bf15ec4ff290a29a9f8dbeb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:27 +0000
Subject: [PATCH 235/261] fix: FTLE: flow map gradient on the actual grid of
 particles

The particles were laid with one and the same step along both axes
(whatever the resolutions asked), and the flow map was differentiated
with another step: the exponent of a uniform flow was not zero.
---
 IMTreatment/vortex_criterions/FTLE/ftle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_criterions/FTLE/ftle.py b/IMTreatment/vortex_criterions/FTLE/ftle.py
index 95fff31..e7e71f5 100644
--- a/IMTreatment/vortex_criterions/FTLE/ftle.py
+++ b/IMTreatment/vortex_criterions/FTLE/ftle.py
@@ -78,9 +78,8 @@ class FTLE(object):
         # create grid
         dx = (self.axe_x[-1] - self.axe_x[0])/(res_x + 1)
         dy = (self.axe_y[-1] - self.axe_y[0])/(res_y + 1)
-        delta = (dx**2 + dy**2)**.5/2.
-        pos_x = np.arange(self.axe_x[0] + delta/2., self.axe_x[-1], delta)
-        pos_y = np.arange(self.axe_y[0] + delta/2., self.axe_y[-1], delta)
+        pos_x = self.axe_x[0] + dx*np.arange(.5, res_x + 1)
+        pos_y = self.axe_y[0] + dy*np.arange(.5, res_y + 1)
         # returning
         return pos_x, pos_y, dx, dy
 
-- 
2.43.0


From 49850757ed77f349c175eb5d37b084bd6b3f6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:27 +0000
Subject: [PATCH 236/261] fix: FTLE: integration step independent of the time
 scale

The new step of the Runge-Kutta-Fehlberg algorithm was the power 1/4 of
the old one: far too big for fast or small flows (wrong displacements),
far too small for slow or large ones.
---
 IMTreatment/vortex_criterions/FTLE/ftle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/FTLE/ftle.py b/IMTreatment/vortex_criterions/FTLE/ftle.py
index e7e71f5..f42c0b2 100644
--- a/IMTreatment/vortex_criterions/FTLE/ftle.py
+++ b/IMTreatment/vortex_criterions/FTLE/ftle.py
@@ -151,7 +151,7 @@ class FTLE(object):
             err = (np.linalg.norm(best_xy - new_xy) /
                    np.linalg.norm(new_xy - xy_init))
             # compute new adaptative rk_dt and return
-            new_rk_dt = ((rel_err*rk_dt)/(2.*err))**.25
+            new_rk_dt = rk_dt*(rel_err/(2.*err))**.25
             new_rk_dt = (dampl*rk_dt + (1 - dampl)*new_rk_dt)
             t += rk_dt
             return new_xy, t, new_rk_dt
-- 
2.43.0


From 04016fbbcc26f4bf89617bd4e79e47bb61c2500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:27 +0000
Subject: [PATCH 237/261] fix: FTLE: unit of the exponent

---
 IMTreatment/vortex_criterions/FTLE/ftle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/FTLE/ftle.py b/IMTreatment/vortex_criterions/FTLE/ftle.py
index f42c0b2..c21398a 100644
--- a/IMTreatment/vortex_criterions/FTLE/ftle.py
+++ b/IMTreatment/vortex_criterions/FTLE/ftle.py
@@ -267,8 +267,12 @@ class FTLE(object):
         # normalize ?
         ftle[~mask] = 1./np.abs(dt)*np.log(ftle[~mask]**.5)
         # return
+        unit_values = self.vf.unit_values/self.vf.unit_x
+        ftle *= unit_values.asNumber()
+        unit_values /= unit_values.asNumber()
         SF = ScalarField()
         SF.import_from_arrays(axe_x=axe_x, axe_y=axe_y, values=ftle,
                               mask=mask,
-                              unit_x=self.vf.unit_x, unit_y=self.vf.unit_y)
+                              unit_x=self.vf.unit_x, unit_y=self.vf.unit_y,
+                              unit_values=unit_values)
         return SF
-- 
2.43.0


From b2a7531bc95790cd2c597c20648fb237bfdbde89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:27 +0000
Subject: [PATCH 238/261] fix: FTLE: refuse fields with masked points (endless
 integration)

---
 IMTreatment/vortex_criterions/FTLE/ftle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_criterions/FTLE/ftle.py b/IMTreatment/vortex_criterions/FTLE/ftle.py
index c21398a..d4dd10e 100644
--- a/IMTreatment/vortex_criterions/FTLE/ftle.py
+++ b/IMTreatment/vortex_criterions/FTLE/ftle.py
@@ -33,6 +33,8 @@ class FTLE(object):
         # ceck params
         if not isinstance(vf, VectorField):
             raise TypeError()
+        if np.any(vf.mask):
+            raise ValueError("Field should not have masked values")
         # store
         self.vf = vf
         self.axe_x = vf.axe_x
-- 
2.43.0


From 95f6f473a5f1b9502ba2eb4a4811219be49af67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:32 +0000
Subject: [PATCH 239/261] fix: FTLE: integration steps above the asked error
 are done again

The error of a step was only used to choose the next one, so that the
first step (as long as wanted near a point where the flow is at rest)
was kept whatever its error.
---
 IMTreatment/vortex_criterions/FTLE/ftle.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_criterions/FTLE/ftle.py b/IMTreatment/vortex_criterions/FTLE/ftle.py
index d4dd10e..a92a0d6 100644
--- a/IMTreatment/vortex_criterions/FTLE/ftle.py
+++ b/IMTreatment/vortex_criterions/FTLE/ftle.py
@@ -136,7 +136,7 @@ class FTLE(object):
                                  self.Vy_tor(*xy)[0][0]])
 
         #rk algo
-        def rkf45(xy_init, t, rk_dt):
+        def rkf45_step(xy_init, rk_dt):
             k1 = fun(xy_init)*rk_dt
             k2 = fun(xy_init + k1/4.)*rk_dt
             k3 = fun(xy_init + 3./32.*k1 + 9./32.*k2)*rk_dt
@@ -152,6 +152,16 @@ class FTLE(object):
                        28561./56430.*k4 - 9./50.*k5 + 2./55.*k6)
             err = (np.linalg.norm(best_xy - new_xy) /
                    np.linalg.norm(new_xy - xy_init))
+            return new_xy, err
+
+        def rkf45(xy_init, t, rk_dt):
+            new_xy, err = rkf45_step(xy_init, rk_dt)
+            # refine the step until it meets the asked error
+            for _ in range(50):
+                if not err > rel_err:
+                    break
+                rk_dt *= max(.1, .9*(rel_err/err)**.25)
+                new_xy, err = rkf45_step(xy_init, rk_dt)
             # compute new adaptative rk_dt and return
             new_rk_dt = rk_dt*(rel_err/(2.*err))**.25
             new_rk_dt = (dampl*rk_dt + (1 - dampl)*new_rk_dt)
@@ -175,11 +185,13 @@ class FTLE(object):
                 break
             if t_end:
                 break
-            if t + rk_dt > dt:
-                t_end = True
+            t_last = t + rk_dt > dt
+            if t_last:
                 rk_dt = dt - t
+            t_aim = t + rk_dt
             # rk adaptative step
             new_xy, t, rk_dt = rkf45(new_xy, t, rk_dt)
+            t_end = t_last and t == t_aim
         return new_xy, border
 
     def get_displaced_point_field(self, res, dt, rel_err=1.e-5, dampl=.5):
-- 
2.43.0


From 0aac3bea8576e9efb381e18b59e954933f1f6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:33 +0000
Subject: [PATCH 240/261] fix: centres of zones lie in their zone on uneven
 grids (get_zones_centers used the first step everywhere)

---
 IMTreatment/core/scalarfield.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index cca8d6c..06a428e 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -745,13 +745,21 @@ class ScalarField(fld.Field):
             if indx % 1 == 0:
                 x = self.axe_x[int(indx)]
             else:
-                dx = self.axe_x[1] - self.axe_x[0]
-                x = self.axe_x[int(indx)] + dx*(indx % 1)
+                dxs = self.axe_x[1:] - self.axe_x[:-1]
+                if np.allclose(dxs, dxs[0], atol=0):
+                    x = self.axe_x[int(indx)] + dxs[0]*(indx % 1)
+                else:
+                    x = np.interp(indx, np.arange(len(self.axe_x)),
+                                  self.axe_x)
             if indy % 1 == 0:
                 y = self.axe_y[int(indy)]
             else:
-                dy = self.axe_y[1] - self.axe_y[0]
-                y = self.axe_y[int(indy)] + dy*(indy % 1)
+                dys = self.axe_y[1:] - self.axe_y[:-1]
+                if np.allclose(dys, dys[0], atol=0):
+                    y = self.axe_y[int(indy)] + dys[0]*(indy % 1)
+                else:
+                    y = np.interp(indy, np.arange(len(self.axe_y)),
+                                  self.axe_y)
             coords.append([x, y])
         coords = np.array(coords, dtype=float)
         if len(coords) == 0:
-- 
2.43.0


From 506f646fe31a1f6aab003dc6de6fdf00371e9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:11 +0000
Subject: [PATCH 241/261] fix: Points.order_on_line keeps every point (it
 dropped those beyond a gap, and failed for two points)

---
 IMTreatment/core/points.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 8433535..33fa014 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1273,10 +1273,16 @@ class Points(object):
             tmp_pts = self.copy()
         #
         from sklearn.neighbors import NearestNeighbors
-        clf = NearestNeighbors(n_neighbors=2).fit(self.xy)
-        G = clf.kneighbors_graph()
         import networkx as nx
-        T = nx.from_scipy_sparse_array(G)
+        nmb_neighb = min(2, len(self.xy) - 1)
+        if nmb_neighb <= 0:
+            return tmp_pts
+        clf = NearestNeighbors(n_neighbors=nmb_neighb).fit(self.xy)
+        T = nx.from_scipy_sparse_array(clf.kneighbors_graph())
+        while not nx.is_connected(T):
+            nmb_neighb += 1
+            T = nx.from_scipy_sparse_array(
+                clf.kneighbors_graph(n_neighbors=nmb_neighb))
         order = list(nx.dfs_preorder_nodes(T, 0))
         paths = [list(nx.dfs_preorder_nodes(T, i)) for i in range(len(self.xy))]
         mindist = np.inf
-- 
2.43.0


From ed2f812fe79db1a315e14ae5dffcb3dc4240eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:11 +0000
Subject: [PATCH 242/261] fix: remove_doublons works when every abscissa (or
 associated value) is zero

---
 IMTreatment/core/points.py  | 2 ++
 IMTreatment/core/profile.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 33fa014..15c15bd 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1172,6 +1172,8 @@ class Points(object):
             tmp_pt = self.copy()
         vs = tmp_pt.v
         ord_magn = (np.sum(vs**2)/len(vs))**.5
+        if ord_magn == 0:
+            ord_magn = 1.
         nmb_dec = -int(round(np.log10(ord_magn*eps_rel)))
         tmp_vs = np.round(vs, decimals=nmb_dec)
         new_vs = np.sort(list(set(tmp_vs)))
diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 174cb2d..8844841 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1872,6 +1872,8 @@ class Profile(object):
         else:
             tmp_prof = self.copy()
         ord_magn = (np.sum(tmp_prof.x**2)/len(tmp_prof.x))**.5
+        if ord_magn == 0:
+            ord_magn = 1.
         nmb_dec = -int(round(np.log10(ord_magn*eps_rel)))
         tmp_x = np.round(tmp_prof.x, decimals=nmb_dec)
         new_x = np.sort(list(set(tmp_x)))
-- 
2.43.0


From 7a651445ee60b5104dfe7c3e09838cf580642f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:11 +0000
Subject: [PATCH 243/261] fix: Profile.evenly_space accepts profiles with
 masked borders

---
 IMTreatment/core/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8844841..bf3dabb 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1777,7 +1777,8 @@ class Profile(object):
         # creating new evenly spaced x axis
         new_x = np.linspace(min_x, max_x, nmb_interv + 1)
         # interpolate to obtain y values
-        interp = spinterp.interp1d(x, y, kind_interpolation)
+        interp = spinterp.interp1d(x, y, kind_interpolation,
+                                   bounds_error=False)
         new_y = interp(new_x[1:-1])
         new_y = np.concatenate(([self.y[0]], new_y, [self.y[-1]]))
         # return profile
-- 
2.43.0


From 95aeba225fa71f93afb009ec17c1f600337b2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:24 +0000
Subject: [PATCH 244/261] fix: TemporalPoints.add_pts converts the added points
 to the units of the series

---
 IMTreatment/core/temporalpoints.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 86683a7..46e05ed 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -229,7 +229,12 @@ class TemporalPoints(object):
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt.copy())
+        pt = pt.copy()
+        if self.unit_x != pt.unit_x:
+            pt.change_unit('x', self.unit_x)
+        if self.unit_y != pt.unit_y:
+            pt.change_unit('y', self.unit_y)
+        self.point_sets.append(pt)
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From ec397bebef3866de62b0e2cd8abb4d230848e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:31 +0000
Subject: [PATCH 245/261] fix: fill the gap next to a symmetry plane across x
 where it is, not one column before

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 06a428e..6e58e08 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1678,7 +1678,7 @@ class ScalarField(fld.Field):
             # direction x
             if side in ['right', 'left']:
                 # get last column
-                ind_last = np.where(mask[:, 0])[0][0] - 1
+                ind_last = np.where(mask[:, 0])[0][0]
                 # get number of missing values
                 nmb_masked = np.sum(mask[:, 0])
                 # loop on lines
-- 
2.43.0


From 699617ea0679d9f6ffbf835cfe40dc730716dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:46 +0000
Subject: [PATCH 246/261] fix: products, quotients and sums with masked arrays
 are masked where the array is

---
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 6e58e08..d947ef6 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -180,7 +180,7 @@ class ScalarField(fld.Field):
             if not obj.shape == self.shape:
                 raise ValueError()
             tmpsf = self.copy()
-            mask = np.logical_or(self.mask, obj == 0)
+            mask = np.logical_or(self.mask, np.ma.filled(obj == 0, True))
             not_mask = np.logical_not(mask)
             tmpsf.values[not_mask] = tmpsf.values[not_mask] / obj[not_mask]
             tmpsf.mask = mask
@@ -269,7 +269,7 @@ class ScalarField(fld.Field):
             if not obj.shape == self.shape:
                 raise ValueError()
             tmpsf = self.copy()
-            mask = self.mask
+            mask = np.logical_or(self.mask, np.ma.getmaskarray(obj))
             not_mask = np.logical_not(mask)
             tmpsf.values[not_mask] *= obj[not_mask]
             tmpsf.mask = mask
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index eafd61f..174d720 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -133,7 +133,8 @@ class VectorField(field.Field):
                 tmpvf = self.copy()
                 tmpvf.comp_x = self.comp_x + other
                 tmpvf.comp_y = self.comp_y + other
-                tmpvf.mask = self.mask
+                tmpvf.mask = np.logical_or(self.mask,
+                                           np.ma.getmaskarray(other))
                 return tmpvf
             # signle vector
             elif other.shape == (2,):
@@ -184,7 +185,8 @@ class VectorField(field.Field):
             tmpvf = self.copy()
             tmpvf.comp_x = self.comp_x / other
             tmpvf.comp_y = self.comp_y / other
-            tmpvf.mask = np.logical_or(self.mask, other == 0)
+            tmpvf.mask = np.logical_or(self.mask,
+                                       np.ma.filled(other == 0, True))
             return tmpvf
         elif isinstance(other, unum.Unum):
             tmpvf = self.copy()
@@ -221,7 +223,7 @@ class VectorField(field.Field):
             tmpvf = self.copy()
             tmpvf.comp_x = self.comp_x * other
             tmpvf.comp_y = self.comp_y * other
-            tmpvf.mask = self.mask
+            tmpvf.mask = np.logical_or(self.mask, np.ma.getmaskarray(other))
             return tmpvf
         elif isinstance(other, unum.Unum):
             tmpvf = self.copy()
-- 
2.43.0


From d381573a252a2c2777a183be5c2d98064f912d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:54 +0000
Subject: [PATCH 247/261] fix: replace weird fields at the ends of a series
 from their valid neighbours

---
 IMTreatment/core/temporalfields.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3b9a956..9c1a324 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1500,16 +1500,13 @@ class TemporalFields(flds.Fields, fld.Field):
         # treat weird fields
         if treatment == 'interpolate':
             # replace weird fields with interpolations
+            good_inds = np.arange(len(tmp_tf))[~filt]
             for weird_ind in weird_inds:
-                eps = 1
-                while True:
-                    if (weird_ind + eps in weird_inds or
-                            weird_ind - eps in weird_inds):
-                        eps += 1
-                    else:
-                        break
-                tmp_tf.fields[weird_ind] = (tmp_tf.fields[weird_ind + eps] +
-                                            tmp_tf.fields[weird_ind - eps])/2
+                before = good_inds[good_inds < weird_ind][-1:]
+                after = good_inds[good_inds > weird_ind][:1]
+                neighb = [tmp_tf.fields[i] for i in np.append(before, after)]
+                tmp_tf.fields[weird_ind] = (sum(neighb[1:], neighb[0]) /
+                                            len(neighb))
         elif treatment == 'remove':
             tmp_tf.remove_fields(weird_inds)
         else:
-- 
2.43.0


From db5d65195db0a7d85a4aa499e202187f814484e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:10 +0000
Subject: [PATCH 248/261] fix: whole-number areas and times reaching beyond the
 field in spatial spectra

---
 IMTreatment/core/scalarfield.py    | 4 ++--
 IMTreatment/core/temporalfields.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d947ef6..73d347a 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1097,7 +1097,7 @@ class ScalarField(fld.Field):
             intervx = [self.axe_x[0], self.axe_x[-1]]
         if not isinstance(intervx, ARRAYTYPES):
             raise TypeError()
-        intervx = np.array(intervx)
+        intervx = np.array(intervx, dtype=float)
         if intervx[0] < self.axe_x[0]:
             intervx[0] = self.axe_x[0]
         if intervx[1] > self.axe_x[-1]:
@@ -1108,7 +1108,7 @@ class ScalarField(fld.Field):
             intervy = [self.axe_y[0], self.axe_y[-1]]
         if not isinstance(intervy, ARRAYTYPES):
             raise TypeError()
-        intervy = np.array(intervy)
+        intervy = np.array(intervy, dtype=float)
         if intervy[0] < self.axe_y[0]:
             intervy[0] = self.axe_y[0]
         if intervy[1] > self.axe_y[-1]:
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 9c1a324..6496aa7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -425,7 +425,7 @@ class TemporalFields(flds.Fields, fld.Field):
             intervtime = [self.times[0], self.times[-1]]
         if not isinstance(intervtime, ARRAYTYPES):
             raise TypeError()
-        intervtime = np.array(intervtime)
+        intervtime = np.array(intervtime, dtype=float)
         if not intervtime.shape == (2,):
             raise ValueError()
         if intervtime[0] < self.times[0]:
-- 
2.43.0


From 2452f6113fff4ac3e0679e8f1fc24a9c507768ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 249/261] fix: get_iota ignores the user mask

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 2f3d6bf..94d0ad5 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -613,6 +613,7 @@ def get_iota(vectorfield, mask=None, radius=None, ind=False, raw=False):
     iota = 1/2.*np.sqrt(theta_x**2 + theta_y**2)
     # getting mask
     maskf = np.logical_or(vectorfield.mask, np.isnan(iota))
+    maskf = np.logical_or(maskf, mask)
     # returning
     if raw:
         return np.ma.masked_array(iota, maskf)
-- 
2.43.0


From 5604dc89a6df236de5c535e1bc5791978534107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:49 +0000
Subject: [PATCH 250/261] fix: importing a series of VC7 files as spatial
 fields

---
 IMTreatment/file_operation/file_operation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index c0ca10e..73cae51 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1132,7 +1132,10 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
             unit_time = make_unit(dt[1])
             dt = float(dt[0])
             t += dt*incr
-            fields.add_field(tmp_vf, t, unit_time)
+            if kind == 'TVF':
+                fields.add_field(tmp_vf, t, unit_time)
+            else:
+                fields.add_field(tmp_vf)
             for i, f in enumerate(add_fields):
                 suppl_fields[i].add_field(f, t, unit_time)
         else:
@@ -1145,7 +1148,10 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
                 dt = 1.
                 unit_time = make_unit("")
             t += dt*incr
-            fields.add_field(tmp_vf, t, unit_time)
+            if kind == 'TVF':
+                fields.add_field(tmp_vf, t, unit_time)
+            else:
+                fields.add_field(tmp_vf)
     # return
     if add_fields:
         return fields, suppl_fields
-- 
2.43.0


From 33c475ee3641e13de3488a96a530ac79c75960e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:26 +0000
Subject: [PATCH 251/261] fix: the 'compressed' option of the davis to imt
 conversions is ignored

---
 IMTreatment/file_operation/file_operation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 73cae51..f70a05b 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1186,7 +1186,7 @@ def IM7_to_imt(im7_path, imt_path, kind='SF', compressed=True, **kwargs):
     if path.isdir(im7_path):
         if kind in ['SSF', 'TSF']:
             ST_SF = import_from_IM7s(im7_path, kind=kind, **kwargs)
-            export_to_file(ST_SF, imt_path)
+            export_to_file(ST_SF, imt_path, compressed=compressed)
         elif kind in ['SF']:
             paths = glob(im7_path + "/*")
             for tmp_path in paths:
@@ -1199,7 +1199,7 @@ def IM7_to_imt(im7_path, imt_path, kind='SF', compressed=True, **kwargs):
                                compressed=compressed)
     elif path.isfile(im7_path):
         SF = import_from_IM7(im7_path, **kwargs)
-        export_to_file(SF, imt_path)
+        export_to_file(SF, imt_path, compressed=compressed)
     else:
         raise ValueError()
 
@@ -1230,7 +1230,7 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
     if path.isdir(vc7_path):
         if kind in ['SVF', 'TVF']:
             ST_VF = import_from_VC7s(vc7_path, kind=kind, **kwargs)
-            export_to_file(ST_VF, imt_path)
+            export_to_file(ST_VF, imt_path, compressed=compressed)
         elif kind in ['VF']:
             paths = glob(vc7_path + "/*")
             for tmp_path in paths:
@@ -1243,7 +1243,7 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
                                compressed=compressed)
     elif path.isfile(vc7_path):
         VF = import_from_VC7(vc7_path, **kwargs)
-        export_to_file(VF, imt_path)
+        export_to_file(VF, imt_path, compressed=compressed)
     else:
         raise ValueError()
 
-- 
2.43.0


From 1b615dcd8257462b890de84791ccb7be67bd6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 252/261] fix: draw coloured lines with an integer number of
 colours, and leave the axes' own 'plot' alone

---
 IMTreatment/plotlib/plotlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index d25b995..329a427 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -303,7 +303,7 @@ def colored_plot(x, y, z=None, log='plot', min_colors=1000, colorbar=False,
         interp_y = spinterp.interp1d(np.linspace(0, 1, length), y)
         interp_z = spinterp.interp1d(np.linspace(0, 1, length), z)
         fact = np.ceil(min_colors/(length*1.))
-        nmb_colors = length*fact
+        nmb_colors = int(length*fact)
         x = interp_x(np.linspace(0., 1., nmb_colors))
         y = interp_y(np.linspace(0., 1., nmb_colors))
         z = interp_z(np.linspace(0., 1., nmb_colors))
@@ -1245,7 +1245,7 @@ class Displayer(object):
         elif kind == 'plot':
             plot = ax.plot(tmp_x, tmp_y, **dargs)
         elif kind == 'colored_plot':
-            plot = ax.plot = colored_plot(tmp_x, tmp_y, z=tmp_values, **dargs)
+            plot = colored_plot(tmp_x, tmp_y, z=tmp_values, **dargs)
         elif kind == 'semilogx':
             tmp_filt = ~np.isnan(tmp_x)
             tmp_filt = np.logical_or(tmp_filt, tmp_x < 0)
-- 
2.43.0


From 4e59bda842fd0d35f82565a121b9b94c106e6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 253/261] fix: colour bar of interactive windows: build it on
 current matplotlib, and give a frame its own range up to its maximum

---
 IMTreatment/plotlib/plotlib.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 329a427..55f2fd4 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -440,8 +440,6 @@ class ButtonManager(object):
             self.cb_norm = cb_norm
             self.cb = mpl.colorbar.ColorbarBase(self.cbax, norm=self.cb_norm,
                                                 cmap=cmap)
-            self.cb.set_norm(self.cb_norm)
-            self.cb.draw_all()
         # update with initial data
         self.update()
         # set texts and rescale
@@ -749,8 +747,7 @@ class ButtonManager(object):
                        rescale=False)
         if self.is_cb and not self.sharecb:
             norm = self.displ_cb.get_norm(self.ind)
-            self.cb.set_norm(norm)
-            self.cb.draw_all()
+            self.cb.mappable.set_norm(norm)
         # update linked graphs
         self._update_linked_graphs()
         # reactivate buttons
@@ -1097,8 +1094,8 @@ class Displayer(object):
         return dic
 
     def get_norm(self, i):
-        vmin = np.min(self.colors[i])
-        vmax = np.min(self.colors[i])
+        vmin = np.nanmin(self.colors[i])
+        vmax = np.nanmax(self.colors[i])
         return mpl.colors.Normalize(vmin=vmin, vmax=vmax)
 
     def get_global_norm(self):
-- 
2.43.0


From b3268befdac1db0ea21cff560242b21f34ab29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 254/261] fix: show again a frame of an interactive window that
 was hidden

---
 IMTreatment/plotlib/plotlib.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 55f2fd4..6943a03 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1130,7 +1130,7 @@ class Displayer(object):
                             mpl.collections.Collection)):
             try:
                 obj.remove()
-            except ValueError:
+            except (ValueError, NotImplementedError):
                 self.ax.add_artist(obj)
         # Contour type
         elif isinstance(obj, mpl.contour.QuadContourSet):
@@ -1144,14 +1144,13 @@ class Displayer(object):
         elif isinstance(obj, mpl.streamplot.StreamplotSet):
             try:
                 obj.lines.remove()
-                if not hasattr(obj.arrows, 'patches'):
-                    obj.arrows.patches = self.ax.patches
-                # TODO : memory leak
-                #       (because arrows removing is not implemented)
-                self.ax.patches = []
-            except ValueError:
+                obj.arrows.patches = list(self.ax.patches)
+                for patch in obj.arrows.patches:
+                    patch.remove()
+            except (ValueError, NotImplementedError):
                 self.ax.add_artist(obj.lines)
-                self.ax.patches = obj.arrows.patches
+                for patch in obj.arrows.patches:
+                    self.ax.add_artist(patch)
         else:
             raise ValueError("{}".format(obj))
 
-- 
2.43.0


From 8652d9d4a72289f90a63afc189f75ffed0b23cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 255/261] fix: let interactive windows go to, and play, the
 last frame

---
 IMTreatment/plotlib/plotlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 6943a03..93e27ab 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -585,7 +585,7 @@ class ButtonManager(object):
         self.ind += self.incr
         if self.ind >= ind2:
             self.ind = ind1
-        elif self.ind >= self.ind_max:
+        elif self.ind > self.ind_max:
             self.ind = 0
         self.update()
 
@@ -593,7 +593,7 @@ class ButtonManager(object):
         key_number = self._get_key_number()
         if key_number is None:
             return None
-        if key_number > self.ind_max or key_number < 1:
+        if key_number > self.ind_max + 1 or key_number < 1:
             return None
         self.ind = key_number - 1
         self.update()
-- 
2.43.0


From 74e7404a94808c571aedc6557838102def82bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 256/261] fix: draw oriented points without a given colour

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index a03f16a..ecebc7b 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -376,7 +376,7 @@ class OrientedPoints(pts.Points):
         if 'color' in list(plotargs.keys()):
             colors = [plotargs.pop('color')]
         else:
-            colors = mpl.rcParams['axes.color_cycle']
+            colors = mpl.rcParams['axes.prop_cycle'].by_key()['color']
         # displaying orientation lines
         x_range = plt.xlim()
         Dx = x_range[1] - x_range[0]
-- 
2.43.0


From 43e26052a02b55a031bd4dc0d11fc8f43b580991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 257/261] fix: draw points in the colour asked for, and as a
 line when they have no values

---
 IMTreatment/core/points.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 15c15bd..60ed7b7 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1489,9 +1489,7 @@ class Points(object):
         else:
             raise ValueError()
         # check c and color
-        if 'c' in plotargs.keys():
-            plotargs['color'] = None
-        if 'color' in plotargs.keys():
+        if 'color' in plotargs.keys() and kind != 'plot':
             plotargs['c'] = None
         # display
         dp = pplt.Displayer(x=x_values, y=y_values, values=color_values,
-- 
2.43.0


From cdf735e97eb76a5e2e119d171f373b41dc045e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 258/261] fix: 3D display of points on current matplotlib

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 60ed7b7..f8f69a3 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1586,7 +1586,7 @@ class Points(object):
             Additional parameters feeded to matplotlib
         """
         # create 3D plot
-        ax = plt.gca(projection='3d')
+        ax = plt.subplot(projection='3d')
         # display data
         if kind == 'plot':
             ax.plot(self.xy[:, 0], self.xy[:, 1], self.v, **plotargs)
-- 
2.43.0


From 748ad80a16f1bc9b3d5644226d5a7b94ce105784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 259/261] fix: display of a profile with an array of colours

---
 IMTreatment/core/profile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index bf3dabb..9796cd6 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -2014,7 +2014,6 @@ class Profile(object):
                     plot = pplt.colored_plot(x, y, z=color, log=kind,
                                              color_label=color_label,
                                              **plotargs)
-                    pplt.DataCursorPoints(plot, x, y)
                     return plot
         # check log error
         ind_to_del = np.zeros(len(x), dtype=bool)
-- 
2.43.0


From b9e550c36308073c18fdb92d9c9bae703ebcfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 260/261] fix: colour bar of displayed spatial fields

---
 IMTreatment/core/spatialfields.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index f422b09..730df90 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -389,14 +389,15 @@ class SpatialFields(flds.Fields):
             plotargs['density'] = plotargs['density']/(len(self.fields))**.5
         # display
         for field in comp:
-            field._display(**plotargs)
+            plot = field._display(**plotargs)
         plt.xlim(self.x_min, self.x_max)
         plt.ylim(self.y_min, self.y_max)
+        return plot
 
     def display(self, compo=None, **plotargs):
-        self._display(compo=compo, **plotargs)
+        plot = self._display(compo=compo, **plotargs)
         plt.axis('image')
-        cb = plt.colorbar()
+        cb = plt.colorbar(getattr(plot, 'lines', plot))
         cb.set_label(self.unit_values.strUnit())
         plt.tight_layout()
 
-- 
2.43.0


From 0f1c40368c4cfb7e9e80c8fe8c0ebeff37878aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 261/261] fix: labels of the trajectories displayed along y

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index c843723..78fe7c1 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2101,8 +2101,8 @@ class CritPoints(object):
                 for traj in trajs:
                     plt.plot(traj.v[:], traj.xy[:, 1], color=color,
                              **kw)
-            plt.ylabel('time {}'.format(self.unit_time.strUnit()))
-            plt.xlabel('y {}'.format(self.unit_y.strUnit()))
+            plt.xlabel('time {}'.format(self.unit_time.strUnit()))
+            plt.ylabel('y {}'.format(self.unit_y.strUnit()))
         else:
             raise Exception()
 
-- 
2.43.0

