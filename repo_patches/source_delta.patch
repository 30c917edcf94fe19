From 667413efb829d8ce0ad1fd0927a01a16f52542d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 01/39] fix: give the remap pixel lookup defined output when
 both edges fall just below the source grid

---
 magpie/src/remap_utils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..809627a 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -263,7 +263,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
       end if
 
     end do
-  else if (pix1 .NE. -1) then
+  else
     do i = 1, pixlen
       pix(i) = pix1 + i-1
       if ((pix(i) .GE. 0) .AND. (pix(i) .LT. grid1)) then
-- 
2.43.0


From 0529169836f742254ba38128863ac5ab87a6a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 02/39] fix: accept a list of output grid sizes in grid2grid3D

---
 magpie/remap/grid2grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..415e84b 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -171,7 +171,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From faead849c7e29eda4b0746e39874d458ee54c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 03/39] fix: let the output box size of grid2grid1D default to
 the input box size

---
 magpie/remap/grid2grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 415e84b..c49bc69 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -25,6 +25,8 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     -------
     f2 : array
         The remapped pixel values for the output 1D grid."""
+    if boxsizeout is None:
+        boxsizeout = boxsize
     x1min = origin
     x1max = origin + boxsize
     x2min = originout
-- 
2.43.0


From 2e48651487fbc2d254dbcaafc6273d8ce19f0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 04/39] fix: rebin_1d no longer wraps to the last bin when a
 new bin covers every old one

---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 414f87d..5d0accc 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -42,7 +42,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -96,7 +96,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -172,7 +172,7 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-- 
2.43.0


From 29658110c1a00f5468f229c96cb7ddf06c9830e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 05/39] fix: weight the last partially covered bin by its own
 width in rebin_1d

---
 magpie/one_d/one_d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 5d0accc..61bbe2e 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -50,7 +50,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         weights[index] = w
     return weights
 
@@ -104,7 +104,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         return np.sum(w*data[index])/np.sum(w)
 
 
-- 
2.43.0


From 5e2ab829da036f174a8a9e23ca78b0b142cbd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 06/39] fix: compute the partial-bin errors of rebin_1d from
 the bins the new bin cuts

---
 magpie/one_d/one_d.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 61bbe2e..2305d18 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -176,14 +176,14 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-        if index[0] != 0:
+        if condition[0] != 0:
             # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[index[0]] - bin_min)/(bin_edges[index[0]] - bin_edges[index[0]-1])
-            length[0] = bin_edges[index[0]] - bin_min
-        if index[-1] != len(bin_edges)-1:
+            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            length[0] = bin_edges[condition[0]] - bin_min
+        if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[index[-1]])/(bin_edges[index[-1]] - bin_edges[index[-1]-1])
-            length[-1] = bin_max - bin_edges[index[-1]]
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
+            length[-1] = bin_max - bin_edges[condition[-1]]
         condition2 = np.where(length > 0.)[0]
         index = index[condition2]
         w = w[condition2]
-- 
2.43.0


From 653f79823c57c318a26e453e7f8cbca8e3ea3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 07/39] fix: rebin_1d_single_bin_weights assigns its weights to
 the bins that are cut

---
 magpie/one_d/one_d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 2305d18..386c107 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -27,13 +27,13 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     elif len(condition) == 1:
         # To ensure we are not looking at the edges
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            weights[condition[0]] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            weights[condition[0]+1] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
+            weights[condition[0]-1] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            weights[condition[0]] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
         # To deal with edges
         elif condition[0] == 0:
-            weights[condition[0]] = 1.
+            weights[0] = 1.
         elif condition[0] == len(bin_edges)-1:
-            weights[condition[0]] = 1.
+            weights[-1] = 1.
     else:
         # General case
         # Create weights equal to one
-- 
2.43.0


From 09121b42551b84eaf67e985b2e90062b0677b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 08/39] fix: let cart2sphere accept arrays of more than one
 dimension

---
 magpie/coords/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/conversions.py b/magpie/coords/conversions.py
index 3401676..15ad38d 100644
--- a/magpie/coords/conversions.py
+++ b/magpie/coords/conversions.py
@@ -88,8 +88,8 @@ def cart2sphere(x, y, z, center=[0., 0., 0.]):
     else:
         condition = np.where(phi < 0.)
         phi[condition] += 2.*np.pi
-        theta = np.zeros(len(phi))
-        condition = np.where(r != 0.)[0]
+        theta = np.zeros(np.shape(phi))
+        condition = np.where(r != 0.)
         theta[condition] = np.arccos((z[condition]-center[2])/r[condition])
     return r, phi, theta
 
-- 
2.43.0


From d41510449bbfbed75efd17cf7639fafd0a51874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 09/39] fix: usphere_phi_shift no longer shifts its input array
 in place

---
 magpie/coords/usphere.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..f3964f8 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,9 +100,7 @@ def usphere_phi_shift(phi, dphi):
     assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)[0]
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 06aa7e4263b707100fda583c6d06e7823593a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 10/39] fix: usphere_phi_shift wraps single entries, not whole
 rows, of a 2D array

---
 magpie/coords/usphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index f3964f8..31c9b02 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -102,9 +102,9 @@ def usphere_phi_shift(phi, dphi):
     # shift phi
     phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
-        condition = np.where(phi_new > 2.*np.pi)[0]
+        condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-        condition = np.where(phi_new < 0.)[0]
+        condition = np.where(phi_new < 0.)
         phi_new[condition] += 2.*np.pi
     # scalar case
     else:
-- 
2.43.0


From b0120c5eb26d4a242a9e8ac8348aa1aaa8d31516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 11/39] fix: rotate_polar rotates the coordinates it is given

---
 magpie/coords/polar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..9014866 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,10 +18,10 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
-    cond = np.where(rot_phi >= 2.*np.pi)[0]
+    rot_phi = phi + rotate
+    cond = np.where(rot_phi >= 2.*np.pi)
     rot_phi[cond] -= 2.*np.pi
-    cond = np.where(rot_phi < 0.)[0]
+    cond = np.where(rot_phi < 0.)
     rot_phi[cond] += 2.*np.pi
     return rot_phi
 
-- 
2.43.0


From 1519672f2e3503502eeadb73b9dd869ea2e35426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 12/39] fix: rotate_polar_grid interpolates towards the shifted
 angle and leaves its input alone

---
 magpie/coords/polar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 9014866..d2f8f31 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -54,11 +54,12 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
         f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
         f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
     else:
-        f_polar_rot = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
+        f_polar_rot[:] = f_polar
+    f_first = np.copy(f_polar_rot[0])
+    f_polar_rot[:-1] = (1.-w_shift)*f_polar_rot[:-1] + w_shift*f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
     if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
+        f_polar_rot[-1] = (1.-w_shift)*f_polar_rot[-1] + w_shift*f_first
     else:
-        f_polar_rot[-1] *= w_shift
+        f_polar_rot[-1] *= 1.-w_shift
     return f_polar_rot
-- 
2.43.0


From 622a24cce7708ad8337a6f58a5c3ca3bb1b1add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 13/39] fix: randoms_1d returns the randoms it makes

---
 magpie/randoms/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..58a025a 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
-- 
2.43.0


From 7b026e1335b4b752595ef4c0246707efec0a31e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 14/39] fix: randoms_2d and randoms_3d span the x range

---
 magpie/randoms/cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 58a025a..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From 04f30ecfb1ed8fc9a6a1b14dcfec74e2164b868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 15/39] fix: rotate_polar of the ring classes calls the grid
 rotation

---
 magpie/coords/__init__.py      | 1 +
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..2b94cf7 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -229,7 +229,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..7f023a0 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -188,7 +188,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..6461550 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -321,7 +321,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..3c45f8c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -182,7 +182,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From 189012cb859e756b4d29b2758b8760a5b799074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 16/39] fix: use usphere_area, sky_area does not exist

---
 magpie/densegrid/heal2polar.py | 2 +-
 magpie/densegrid/heal2ring.py  | 4 ++--
 magpie/montecarlo/heal2ring.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 7f023a0..37ed844 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3c45f8c..89065a6 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 57bc79a05f1b78d2b585c7dfb9f4fe113d790d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 17/39] fix: use randoms_usphere, randoms_sky does not exist

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..8759a75 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 89065a6..5edc1da 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,7 +107,7 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
                                                             theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
-- 
2.43.0


From db0b74f83a46f3c8990dfede0fc41f353dc616ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 18/39] fix: Box2Ring groups the fine polar cells by the factor
 of their own axis

---
 magpie/densegrid/box2ring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2b94cf7..64ab32b 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -160,10 +160,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
-- 
2.43.0


From 017123ff5b0ddf3e85123e62380dc5eecc67fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 19/39] fix: Heal2Ring groups the fine cells by the factor of
 their own axis

---
 magpie/densegrid/heal2ring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 37ed844..ab415f7 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -139,10 +139,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From 083164f37aa95093e6b8c021654346c5f4985875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 20/39] fix: Heal2Polar groups the fine cells by the factor of
 their own axis

---
 magpie/densegrid/heal2polar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..b8c4bd6 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
-- 
2.43.0


From 1f35c9c975bd906d688d2bcda67bfe6c8a6ad7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 21/39] fix: Heal2Ortho groups the fine cells by the factor of
 their own axis

---
 magpie/densegrid/heal2ortho.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..711d7f8 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
-- 
2.43.0


From 8223d696429a38b70bb7b1b20eb6cc74e9cea680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 22/39] fix: Heal2Ortho divides the summed map values by the
 summed weights

---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 711d7f8..22d9212 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -147,7 +147,7 @@ class Heal2Ortho:
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
         f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
-- 
2.43.0


From 6a9ba55d385720366c5d04e73b77c2356ed089b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 23/39] fix: Heal2Ortho.transform uses the radius of the
 projected sphere

---
 magpie/densegrid/heal2ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 22d9212..93b96ea 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -182,9 +182,9 @@ class Heal2Ortho:
     def transform(self, phi, theta):
         """Transforms coordinates from the original Healpix coordinate system to the orthographic projection"""
         if np.isscalar(phi) == True:
-            r = 1.
+            r = self.radius
         else:
-            r = np.ones(len(phi))
+            r = self.radius*np.ones(len(phi))
         phi, theta = coords.usphere_shift(phi, theta, self.center[0], self.center[1], self.end_center[0], self.end_center[1])
         x, y, z = coords.sphere2cart(r, phi, theta)
         if np.isscalar(phi) == True:
-- 
2.43.0


From 2884869f0d44ec745cce869ba92edac5937123fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 24/39] fix: Cube2Shell reads the cube in the layout of its own
 x3d, y3d, z3d grids

---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..e3c7918 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -151,7 +151,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From 4cb6e4e8caeebb8a8f4b0ab0c84b20ef48d9a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 25/39] fix: accept a HEALPix weight map of the right length in
 the Monte Carlo remaps

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 8759a75..4d70df0 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -148,7 +148,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5edc1da..eb2e768 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -145,7 +145,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From e5ab2ee8f9a13391f407b0d9b33c4af9196dd96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 26/39] fix: allow a single cell along an axis when setting up
 the output grids

---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 64ab32b..6a4133c 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -113,8 +113,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index e3c7918..9a003b9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -101,7 +101,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 93b96ea..144fb02 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,8 +89,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index b8c4bd6..2a5ff2b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,8 +94,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index ab415f7..d2c8161 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -94,8 +94,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 6461550..ce84e03 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -137,8 +137,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -189,7 +189,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..2e523b0 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -90,7 +90,7 @@ class Cube2Shell:
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 4d70df0..afe1cf5 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -81,8 +81,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index eb2e768..d2aa7b3 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -79,8 +79,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From 7cb2b80682f68a77a26d8fb1b6f03c3e1d9185e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 27/39] fix: keep the Monte Carlo weights of each cell apart
 when cells share the number of pixels

---
 magpie/montecarlo/box2ring.py   | 24 +++++++++---------------
 magpie/montecarlo/cube2shell.py | 32 ++++++++++++--------------------
 magpie/montecarlo/heal2polar.py | 16 ++++++----------
 magpie/montecarlo/heal2ring.py  | 16 ++++++----------
 4 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index ce84e03..f5f3201 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -208,13 +208,10 @@ class Box2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_xs = []
-        ind_ys = []
-        ind_ws = []
+        ind_xs = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ys = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.r2d), dtype=object)
         for i in range(0, len(self.r2d)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_ws = []
             for j in range(0, len(self.r2d[0])):
                 rmin, rmax = self.redges[j], self.redges[j+1]
                 pmin, pmax = self.pedges[i], self.pedges[i+1]
@@ -232,17 +229,14 @@ class Box2Ring:
                 ind_x = condition[1]
                 ind_y = condition[0]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 2e523b0..cf7d6c5 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -140,15 +140,11 @@ class Cube2Shell:
         verbose : bool
             If true will output a progress bar.
         """
-        ind_xs = []
-        ind_ys = []
-        ind_zs = []
-        ind_ws = []
+        ind_xs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ys = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_zs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ws = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
         for i in range(0, len(self.rmid)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_zs = []
-            _ind_ws = []
             for j in range(0, hp.nside2npix(self.nside)):
                 pix = j
                 rmin, rmax = self.redges[i], self.redges[i+1]
@@ -162,20 +158,16 @@ class Cube2Shell:
                 ind_y = condition[0]
                 ind_z = condition[2]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_zs.append(ind_z)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_zs[i, j] = ind_z
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_zs = np.array(ind_zs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_zs = ind_zs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index afe1cf5..fe0936f 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -101,11 +101,9 @@ class Heal2Polar:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.x2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.x2d), dtype=object)
         for i in range(0, len(self.x2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.x2d[0])):
                 x_min, x_max = self.xedges[j], self.xedges[j+1]
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
@@ -119,14 +117,12 @@ class Heal2Polar:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index d2aa7b3..f3104af 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -99,11 +99,9 @@ class Heal2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.alpha2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.alpha2d), dtype=object)
         for i in range(0, len(self.alpha2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
@@ -116,14 +114,12 @@ class Heal2Ring:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0


From 2cb9807c79f7c9c6ce62ecb77c438e6fb255b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 28/39] fix: PointOfView.transform accepts a single point

---
 magpie/densegrid/pointofview.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..ea6cb6b 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -69,7 +69,6 @@ class PointOfView:
             phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., self.spin)
         dx, dy, dz = coords.sphere2cart(r, phi, theta)
         f = self.display/dx
-        condition = np.where(f >= 1.)[0]
         bx = dy*f
         by = dz*f
         dist = np.sqrt(dx**2. + dy**2. + dz**2.)
-- 
2.43.0


From 7415e29a9d535056b77cde8baa2f89cb8b33c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 29/39] fix: PointOfView.reverse undoes a spin

---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index ea6cb6b..7426f5b 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -102,7 +102,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi - self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From 30fb2457c5c17e224928eb291aedd1303f5113c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 30/39] fix: Box2Ring.polar2radial leaves the given weights
 unchanged

---
 magpie/densegrid/box2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 6a4133c..81b0dde 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -270,7 +270,7 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*self.mask_in_bound
             else:
                 w = self.mask_in_bound
         if sigma is None:
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index f5f3201..ed41d89 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -356,7 +356,7 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*self.mask_in_bound
             else:
                 w = self.mask_in_bound
         if sigma is None:
-- 
2.43.0


From dce36a89d8fbd9e6d5ec4f39883b09463e921acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 31/39] fix: Box2Ring.polar2radial leaves out polar cells that
 are partly outside the box

---
 magpie/densegrid/box2ring.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 81b0dde..43cdd36 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -262,17 +262,18 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
+            in_bound = (self.mask_in_bound == 1.).astype(float)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w = w*self.mask_in_bound
+                w = w*in_bound
             else:
-                w = self.mask_in_bound
+                w = in_bound
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From 4b913fc2b1a212ed5b749f31971ecdf3957a0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 32/39] fix: drop the areas and the mask of an earlier setup
 when a ring remap is set up again

---
 magpie/densegrid/box2ring.py   | 4 ++++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 6 ++++++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 43cdd36..d8b18b3 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -70,6 +70,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
@@ -118,6 +120,8 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
+        self.area2d = None
+        self.mask_in_bound = None
         self.rebin_r = rebin_r
         self.rebin_p = rebin_p
         self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index d2c8161..be42e76 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -49,6 +49,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -99,6 +100,7 @@ class Heal2Ring:
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
+        self.area2d = None
         self.rebin_alpha = rebin_alpha
         self.rebin_beta = rebin_beta
         self.rebin_alpha_edges = np.linspace(self.alpha_edges[0], self.alpha_edges[-1], self.rebin_alpha*len(self.alpha_mid) + 1)
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index ed41d89..34dbf25 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -97,6 +97,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -142,6 +144,8 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
+        self.area2d = None
+        self.mask_in_bound = None
 
 
     def setup_polar_log(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -193,6 +197,8 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
+        self.area2d = None
+        self.mask_in_bound = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index f3104af..6173015 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -84,6 +85,7 @@ class Heal2Ring:
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
+        self.area2d = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
-- 
2.43.0


From 5409159f433d122d2a18157ee784601d0874af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 33/39] fix: healpix_ijs_neighbours keeps the i and j indices
 of each neighbour together

---
 magpie/pixel/healpix_index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 3f64c60..4be28d9 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -352,8 +352,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh[cond] = istar_neigh[cond] + 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] + 4*nside
 
-    istar_neigh = np.unique(istar_neigh)
-    jstar_neigh = np.unique(jstar_neigh)
+    istar_neigh, jstar_neigh = np.unique([istar_neigh, jstar_neigh], axis=1)
     return istar_neigh, jstar_neigh
 
 
-- 
2.43.0


From f41b64dbc192943bcc8cf5d9c92ebd7d005cf19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 34/39] fix: name the right neighbours across the north-west
 edge of a polar facet

---
 magpie/pixel/healpix_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 4be28d9..51245cc 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -305,7 +305,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
         istar_neigh = [istar, istar + 1, istar + 1, istar, istar + 1,
                        istar - ((jstar+1)-nside*np.floor(jstar/nside)),
                        istar - ((jstar)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar-1)-nside*np.floor(jstar/nside))]
+                       istar - ((jstar+2)-nside*np.floor(jstar/nside))]
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar + 1, jstar + 1,
                        nside*np.floor(jstar/nside)-1,
                        nside*np.floor(jstar/nside)-1,
-- 
2.43.0


From 5b37b4e24a9c58d7a18bff4175762fc8a77a9a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 35/39] fix: wrap the neighbour whose centre lies at x = 2 pi
 onto its pixel

---
 magpie/pixel/healpix_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 51245cc..d533c90 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -344,7 +344,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh = np.array(istar_neigh)
     jstar_neigh = np.array(jstar_neigh)
 
-    cond = np.where(istar_neigh + jstar_neigh > 9*nside-1)[0]
+    cond = np.where(istar_neigh + jstar_neigh >= 9*nside-1)[0]
     istar_neigh[cond] = istar_neigh[cond] - 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] - 4*nside
 
-- 
2.43.0


From c706193eb9a6a5e7162afd57d5442eda9cbf6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:20 +0000
Subject: [PATCH 36/39] fix: name the six neighbours of the equatorial pixels
 at nside 1

---
 magpie/pixel/healpix_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index d533c90..96efbcf 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -295,6 +295,10 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     elif istar - jstar + 1 == 2*nside:
         istar_neigh = [istar, istar - 1, istar - 1, istar - nside, istar - nside, istar + nside, istar - 1 + nside, istar-2*nside]
         jstar_neigh = [jstar + 1,  jstar + 1, jstar, jstar + 1 - nside, jstar - nside, jstar + nside, jstar + nside, jstar-2*nside]
+    elif jstar - istar + 1 == nside and istar - jstar + 1 == nside:
+        # only for nside = 1, both the top and bottom corners are shared by three pixels
+        istar_neigh = [istar - 1, istar, istar - 1, istar + 1, istar, istar + 1]
+        jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
     elif jstar - istar + 1 == nside and istar % nside == 0:
         istar_neigh = [istar - 1, istar, istar + 1,  istar - 1, istar + 1, istar, istar + 1]
         jstar_neigh = [jstar - 1, jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
-- 
2.43.0


From c0125b0fcb04be65b08f188a8a9c69210d71fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 37/39] fix: usphere_phi_shift accepts shifts of exactly 2 pi

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 31c9b02..8ba505e 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -97,7 +97,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     phi_new = phi + dphi
-- 
2.43.0


From 8f7060abe9b250d6b27895ac93c5f6611e9e134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 38/39] fix: usphere_rotate accepts coordinate arrays of more
 than one dimension

---
 magpie/coords/usphere.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 8ba505e..fc7ea36 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -68,14 +68,17 @@ def usphere_rotate(phi, theta, phi_end, theta_end, phi_start=0.,
         r = np.ones(np.shape(phi))
     # convert points on the sphere to cartesian coordinates
     x, y, z = coords.sphere2cart(r, phi, theta)
-    pos = np.array([x, y, z]).T
+    pos = np.stack([x, y, z], axis=-1)
     # apply rotation
     if np.isscalar(phi) is True:
         new_pos = T.dot(Rn.dot(invT.dot(pos)))
         x_new, y_new, z_new = new_pos[0], new_pos[1], new_pos[2]
     else:
+        shape = np.shape(pos)
+        pos = pos.reshape(-1, 3)
         new_pos = np.array([T.dot(Rn.dot(invT.dot(pos[i]))) for i in range(0, len(pos))])  # noqa: E501
-        x_new, y_new, z_new = new_pos[:, 0], new_pos[:, 1], new_pos[:, 2]
+        new_pos = new_pos.reshape(shape)
+        x_new, y_new, z_new = new_pos[..., 0], new_pos[..., 1], new_pos[..., 2]
     # convert cartesian coordinates back to points on the sphere
     r_new, phi_new, theta_new = coords.cart2sphere(x_new, y_new, z_new)
     return phi_new, theta_new
-- 
2.43.0


From 1a6a7a50c8ae7498ac089bec4a4f723f76b488de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 39/39] fix: Monte Carlo Box2Ring drops the mask of earlier
 weights when the weights are calculated again

---
 magpie/montecarlo/box2ring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 34dbf25..6c3a71b 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -243,6 +243,7 @@ class Box2Ring:
         self.ind_xs = ind_xs
         self.ind_ys = ind_ys
         self.ind_ws = ind_ws
+        self.mask_in_bound = None
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0

