From c46892c81c7bd44e779634ae4356fbe86b5163c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 001/100] fix: apply Laue symmetry on the crystal side when
 reducing orientations

qu_apply(q, v) maps sample vectors into the crystal frame, so symmetrically
equivalent orientations are L * q. ori_to_fz_laue and ori_equiv_laue returned
q * L, which simulates a different pattern and has a non zero disorientation to q.
---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..351032b 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -76,7 +76,8 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    # crystal symmetry acts on the left: qu_apply(quats, .) maps sample to crystal
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +101,8 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    # crystal symmetry acts on the left: qu_apply(quats, .) maps sample to crystal
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
-- 
2.43.0


From f2eccecb06c90dcb6a405104cd170c8f67e77718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 002/100] fix: disorientation and rotation angles are NaN when
 rounding exceeds acos domain

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 3 ++-
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 3 ++-
 ebsdtorch/s2_and_so3/quaternions.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..0ffa66b 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -200,4 +200,5 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    # rounding can push the cosine above 1.0 which would give NaN
+    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0))
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 351032b..355237a 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -468,7 +468,8 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    # rounding can push the cosine above 1.0 which would give NaN
+    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0))
 
 
 @torch.jit.script
diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..0e96ff6 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -278,4 +278,5 @@ def qu_angle(qu: Tensor) -> Tensor:
     Returns:
         tensor of shape (..., ) of rotation angles.
     """
-    return 2 * torch.acos(qu[..., 0])
+    # rounding can push the real part outside of [-1, 1] which would give NaN
+    return 2 * torch.acos(qu[..., 0].clamp(-1.0, 1.0))
-- 
2.43.0


From 36110faf16211412f08fe8076575497ab00aa32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 003/100] fix: disorientation between different Laue groups
 applied the groups to the wrong sides

For q1 * conj(q2) the equivalents are L1 * q1 * conj(q2) * L2; the two groups
were swapped, so the result was not invariant for differing symmetries.
---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 16 ++++++++--------
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index 0ffa66b..f52b7aa 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -119,11 +119,11 @@ def disorientation_naive(
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -186,12 +186,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 355237a..f336c91 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -387,11 +387,11 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -454,12 +454,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From b5b95b8baf8c8d2bb668859f2ee6fe464a96a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 004/100] fix: cube_to_rfz / rfz_to_cube had multiply and
 divide swapped

cube_to_rfz mapped the corners of the cube outside of the truncated cube.
---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index f336c91..564fd8c 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -272,7 +272,7 @@ def cube_to_rfz(
         # replace nans with 1 because we were at the origin
         factors[factors.isnan()] = 1
         # scale the sorted values
-        rfz_coords = torch.where(scales, sorted * factors, sorted)
+        rfz_coords = torch.where(scales, sorted / factors, sorted)
         # scatter the sorted values back to the original order
         rfz_coords = torch.scatter(rfz_coords, -1, indices, rfz_coords)
         # copy the sign of the original values
@@ -305,12 +305,12 @@ def rfz_to_cube(
         # same as above but with reciprocal scaling
         sorted, indices = torch.sort(rfz_abs, dim=-1, descending=False)
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
-        # same factor but we divide by it
+        # same factor but we multiply by it
         factors = (
             torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
         )
         factors[factors.isnan()] = 1
-        cc = torch.where(scales, sorted / factors, sorted)
+        cc = torch.where(scales, sorted * factors, sorted)
         cc = torch.scatter(cc, -1, indices, cc)
         cc.copysign_(rfz)
         return cc
-- 
2.43.0


From 369183c37b71f4bb38f1a59336cc57a7c93bbe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 005/100] fix: s2_equiv_laue always raised because inversion
 doubles the operators

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..82fbca5 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -219,7 +219,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + (2 * len(laue_group), 3))
 
 
 @torch.jit.script
-- 
2.43.0


From 4f8d4213e9f292acd14a43cbe52078ea3e5b093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 006/100] fix: inv_rosca_lambert returned NaN for the center of
 the square

---
 ebsdtorch/s2_and_so3/sphere.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..5d2dbdc 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -139,7 +139,13 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 0])
     y_out = y_out.copysign_(pts[..., 1])
 
-    return torch.stack((x_out, y_out, z_out), dim=-1)
+    out = torch.stack((x_out, y_out, z_out), dim=-1)
+
+    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
+    mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
+    out[mask] = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
+
+    return out
 
 
 @torch.jit.script
-- 
2.43.0


From 903c1a338d2889681be5f966917a1e7cc02319a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 007/100] fix: theta_phi_to_xyz used theta as the azimuth
 instead of the declination

It was not the inverse of xyz_to_theta_phi and contradicted its docstring.
---
 ebsdtorch/s2_and_so3/sampling.py | 3 ++-
 ebsdtorch/s2_and_so3/sphere.py   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sampling.py b/ebsdtorch/s2_and_so3/sampling.py
index e001040..ebc3b3f 100644
--- a/ebsdtorch/s2_and_so3/sampling.py
+++ b/ebsdtorch/s2_and_so3/sampling.py
@@ -58,7 +58,8 @@ def s2_fibonacci(
     indices = torch.arange(n, dtype=torch.float64, device=device)
     theta = 2 * torch.pi * indices / phi
     phi = torch.acos(1 - 2 * (indices + epsilon) / (n - 1 + 2 * epsilon))
-    points = theta_phi_to_xyz(theta, phi)
+    # theta is the azimuth and phi the declination here
+    points = theta_phi_to_xyz(phi, theta)
     return points
 
 
diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 5d2dbdc..7dd9f83 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -28,9 +28,9 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.cos(theta) * torch.sin(phi),
+            torch.sin(theta) * torch.cos(phi),
             torch.sin(theta) * torch.sin(phi),
-            torch.cos(phi),
+            torch.cos(theta),
         ),
         dim=1,
     )
-- 
2.43.0


From 06070ce714098ce6af6a29651a2f6f260ed20cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 008/100] fix: reducing directions to the fundamental sector
 raised on sector boundaries

Directions such as [001] matched zero or several equivalents, which made
s2_to_fz_laue fail to reshape. Bounds are now inclusive with a tolerance,
the pole is handled and the first equivalent inside is returned.
---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 50 ++++++++++++++----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 82fbca5..3408cf3 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -42,31 +42,31 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     PI_6 = torch.pi / 6.0
     PI_n23 = -2.0 * torch.pi / 3.0
 
-    # set epsilon
-    EPS = 1e-12 if points.dtype == torch.float64 else 1e-6
+    # set epsilon (symmetry operators are accurate to single precision)
+    EPS = 1e-6
 
     # use rules to find the equivalent points in the fundamental zone
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
-    chi = torch.acos(z)
+    chi = torch.acos(z.clamp(-1.0, 1.0))
 
     if laue_id == 1:  # triclinic
-        cond = z >= 0.0
+        cond = z >= -EPS
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(torch.pi + EPS) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_2 + EPS) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_4 + EPS) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - EPS) & (eta.le(0.0 + EPS)) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - EPS) & eta.le(-PI_6 + EPS) & chi.le(PI_2 + EPS)
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_3 + EPS) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_6 + EPS) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -77,9 +77,8 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(-EPS)
             & eta.le(PI_2 + EPS)
-            & chi.ge(0.0)
         )
     elif laue_id == 11:  # cubic-high
         # where eta is over 45 degrees, subtract from 90 degrees
@@ -87,17 +86,18 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
             torch.where(
                 eta.gt(PI_4),
                 chi
-                < torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
+                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.gt(0.0)
-            & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
+            & eta.ge(-EPS)
+            & eta.le(PI_4 + EPS)
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-    return cond
+
+    # the azimuth is undefined at the pole which is in all fundamental sectors
+    return cond | ((z > 0.0) & (torch.hypot(x, y) < EPS))
 
 
 # # get planar coordinates that are within the fundamental sector
@@ -182,15 +182,13 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     # find the points that are in the s2 fundamental zone
     cond = s2_in_fz_laue(equivalent_points, laue_id)
 
-    # # in cases of more than one true value, set the first one to true
-    # more_trues = torch.sum(cond, dim=-1) >= 2
-    # cond[more_trues, 1:] = False
-
-    # # in cases of no true values, set the first one to true
-    # non_true = torch.sum(cond, dim=-1) == 0
-    # cond[non_true, 0] = True
+    # on the boundary more than one equivalent is inside, so take the first one
+    first_index = torch.argmax(cond.to(torch.int32), dim=-1)
+    output = torch.gather(
+        equivalent_points, 1, first_index[:, None, None].expand(-1, 1, 3)
+    )
 
-    return equivalent_points[cond].reshape(data_shape)
+    return output.reshape(data_shape)
 
 
 @torch.jit.script
-- 
2.43.0


From dcf35a534472104e736838e5739860316fa404c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 009/100] fix: second-setting space groups were unreadable and
 lost the homogeneous row

---
 ebsdtorch/crystallography/groups.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..7204f5c 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -309,8 +309,8 @@ def read_sg_gen_string(
 
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
-        print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        # the three translation letters follow the origin flag
+        t = gen_string[3 + 4 * gen_num : (3 + 4 * gen_num) + 3]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +334,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
@@ -473,7 +473,7 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From cb46402ea53aad1b67a555ee930e06cbe342dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 010/100] fix: point group, crystal system and Laue group of a
 unit cell were misclassified

---
 ebsdtorch/crystallography/unit_cell.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..5ae9bc1 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -192,21 +192,14 @@ class Cell:
         self.sg_setting = sg_setting
 
         # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        # (the last point group whose first space group is not past sg_num)
+        self.pg_num = sum(1 for sg in sg_pg_beg if sg <= sg_num)
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = sum(1 for sg in sg_xt_beg if sg <= sg_num)
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
@@ -311,13 +304,13 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
             Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
 
             x = (
                 2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
+                * torch.sin(0.5 * self.alpha)
                 / torch.sqrt(torch.tensor(3.0, device=device))
             )
             y = torch.sqrt(1 - x * x)
-- 
2.43.0


From b5b2afe2d16f274e42285496214eac036d3577a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 011/100] fix: average atomic number and weight averaged over
 sites after weighting

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 5ae9bc1..3d18cd4 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -354,7 +354,7 @@ class Cell:
 
         # 8) Compute average atomic number, weight and density
         self.average_atomic_number = (
-            torch.mean(
+            torch.sum(
                 self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
             )
             / self.mults.sum()
@@ -362,7 +362,7 @@ class Cell:
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
         self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
+            torch.sum(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
         )
 
         # Density in g/cm^3
-- 
2.43.0


From b676d26bbc3a342ecdbc3cf9c8373fe7cddefc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 012/100] fix: reciprocal structure matrix was not transposed
 for non-orthogonal cells

---
 ebsdtorch/crystallography/unit_cell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 3d18cd4..88621f0 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -299,8 +299,9 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct
+        # structure matrix
+        self.rsm = torch.linalg.inv(self.dsm).T
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From 5309572b8be1aebe95ce42ec2f75ee0a89de4b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 013/100] fix: reflection lists kept 000, dropped the largest
 indices and were truncated for oblique cells

---
 ebsdtorch/crystallography/unit_cell.py | 99 +++++---------------------
 1 file changed, 16 insertions(+), 83 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 88621f0..e45a4e1 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -862,43 +862,11 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
+        # |h| = |a . g| <= |a| |g| <= |a| / dmin for any cell (likewise k and l),
+        # which is also the axial limit for orthogonal cells
+        max_h, max_k, max_l = (
+            int(torch.floor(torch.sqrt(self.dmt[i, i]) / dmin + 1e-6).item())
+            for i in range(3)
         )
 
         return max_h, max_k, max_l
@@ -928,68 +896,33 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
         # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
             hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
-            # remove (0,0,0)
-            hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+
+        # remove (0,0,0)
+        hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
-- 
2.43.0


From 165db5423213ce6a730abc138c596f5e82798739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 014/100] fix: atom orbits counted positions near 0 and 1 as
 different sites

---
 ebsdtorch/crystallography/unit_cell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index e45a4e1..83bdaac 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -134,7 +134,9 @@ def unique_rows(a: Tensor, eps: float = 5e-4) -> Tensor:
         if not remove[i]:
             # equals = torch.all(torch.abs(a[i, :] - a[(i + 1) :]) < eps, dim=1)
             # use sum
-            equals = torch.sum(torch.abs(a[i, :] - a[(i + 1) :]), dim=1) < eps
+            # fractional coordinates are periodic, so 0 and 1 are the same
+            diff = torch.abs(a[i, :] - a[(i + 1) :])
+            equals = torch.sum(torch.minimum(diff, 1.0 - diff), dim=1) < eps
             remove[(i + 1) :] = torch.logical_or(remove[(i + 1) :], equals)
     return a[~remove]
 
@@ -342,6 +344,9 @@ class Cell:
         all_pos = torch.where(
             (all_pos).abs() < 1e-6, torch.zeros_like(all_pos), all_pos
         )
+        all_pos = torch.where(
+            (all_pos - 1.0).abs() < 1e-6, torch.zeros_like(all_pos), all_pos
+        )
 
         # remove duplicates
         for i in range(all_pos.shape[0]):
-- 
2.43.0


From e75ea48abd8b2a78fe83f614e3ccfa43a92d7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 015/100] fix: hexagon_to_hemisphere left the sphere and was
 not equal area

---
 ebsdtorch/crystallography/kvectors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..b99da0e 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -102,8 +102,11 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # undo original swap and apply the inverse Lambert projection of the unit disk
+    # (outside of the hexagon is mapped to z < 0)
+    r_sq = x_out**2 + y_out**2
+    scale = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    out = torch.stack((y_out * scale, x_out * scale, 1.0 - r_sq), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-- 
2.43.0


From a377b3313f10f8d411271eb9d4c32cc6402bef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 016/100] fix: sampling case of trigonal space groups compared
 with a chained condition

---
 ebsdtorch/crystallography/kvectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index b99da0e..bdf4dfe 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -161,11 +161,11 @@ def kvectors_grid(
             if 143 <= sg <= 167:  # trigonal
                 if 143 <= sg <= 146:  # 3
                     stnum = 10
-                elif sg == 147 <= 155:  # bar3 and 32
+                elif 147 <= sg <= 155:  # bar3 and 32
                     stnum = 12
                 elif sg in [156, 158, 160, 161]:  # 3m
                     stnum = 14
-                elif sg == 157 | sg == 159:  # 3m
+                elif sg in [157, 159]:  # 3m
                     stnum = 15
                 elif sg in [162, 163]:  # bar3m
                     stnum = 17
-- 
2.43.0


From 1dca5824fa747b3ca10c0b4fdc0fcce25729ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 017/100] fix: hexagonal k-vector sectors used oblique angles
 on a Cartesian grid

---
 ebsdtorch/crystallography/kvectors.py | 72 ++++++++-------------------
 1 file changed, 22 insertions(+), 50 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index bdf4dfe..d36ea5e 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -197,6 +197,12 @@ def kvectors_grid(
     k_ij = torch.cat((k_ij, torch.full_like(k_ij[:, 0:1], 1, device=device)), dim=1)
     xy = k_ij.float() / float(grid_half_width)
 
+    # azimuth of each grid point for the sectors of the hexagonal cases (the grid
+    # is Cartesian with the hexagon tip on +x, so i and j are orthogonal)
+    ang = torch.rad2deg(torch.atan2(k_ij[:, 1].double(), k_ij[:, 0].double()))
+    ang[(k_ij[:, 0] == 0) & (k_ij[:, 1] == 0)] = 30.0  # pole is in every sector
+    ang_eps = 1e-4
+
     if stnum == 1:  # triclinic 1
         kstar = square_to_hemisphere(xy)
         # add the other hemisphere
@@ -262,8 +268,8 @@ def kvectors_grid(
         kstar = square_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
     elif stnum == 10:  # hexagonal 3
-        # keep x >= 0 and y >= 0 in hexagon with SH
-        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
+        # keep 0 <= azimuth <= 120 in hexagon with SH
+        mask = (ang >= 0.0 - ang_eps) & (ang <= 120.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
@@ -284,8 +290,8 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral 32 not implemented: use hexagonal setting."
             )
-        # keep x >= 0 and y >= 0 and x >= y lacks SH
-        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
+        # keep 0 <= azimuth <= 120 in hexagon lacks SH
+        mask = (ang >= 0.0 - ang_eps) & (ang <= 120.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
@@ -305,13 +311,8 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral -3 not implemented: use hexagonal setting."
             )
-        # keep kj >= 0 and ki >= (j-1)//2 and ki <= 2*j with SH
-        mask = (
-            (k_ij[:, 1] >= 0)
-            # & (k_ij[:, 0] >= ((k_ij[:, 1] - 1) // 2)) # bug suspected in EMsoft code
-            & (k_ij[:, 0] >= (k_ij[:, 1] + 1) // 2)
-            & (k_ij[:, 0] <= 2 * k_ij[:, 1])
-        )
+        # keep 30 <= azimuth <= 90 in hexagon with SH
+        mask = (ang >= 30.0 - ang_eps) & (ang <= 90.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
@@ -324,8 +325,8 @@ def kvectors_grid(
         k_ij = torch.cat((k_ij, k_ij.clone()), dim=0)
         k_ij[len(k_ij) // 2 :, 2] *= -1
     elif stnum == 15:  # hexagonal 31m, 6
-        # keep kj >= 0 and ki >= kj with SH
-        mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
+        # keep 0 <= azimuth <= 60 in hexagon with SH
+        mask = (ang >= 0.0 - ang_eps) & (ang <= 60.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
@@ -342,16 +343,8 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral -3m not implemented: use hexagonal setting."
             )
-        # keep kj >= 0 and ki >= 0 and xx >= 0 ang >= pi/6 lacks SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0)
-            & (k_ij[:, 1] >= 0)
-            & (ang >= (torch.pi / 5.9999))
-            & (xx >= 0)
-        )
+        # keep 30 <= azimuth <= 90 in hexagon lacks SH
+        mask = (ang >= 30.0 - ang_eps) & (ang <= 90.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
@@ -359,13 +352,8 @@ def kvectors_grid(
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 17:  # hexagonal -31m, 6/m, -62m
-        # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/3 lacks SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 3)) & (xx >= 0)
-        )
+        # keep 0 <= azimuth <= 60 in hexagon lacks SH
+        mask = (ang >= 0.0 - ang_eps) & (ang <= 60.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
@@ -373,16 +361,8 @@ def kvectors_grid(
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 18:  # hexagonal 6mm
-        # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/6 with SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0)
-            & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
-            & (xx >= 0)
-        )
+        # keep 0 <= azimuth <= 30 in hexagon with SH
+        mask = (ang >= 0.0 - ang_eps) & (ang <= 30.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
@@ -396,16 +376,8 @@ def kvectors_grid(
         k_ij = torch.cat((k_ij, k_ij.clone()), dim=0)
         k_ij[len(k_ij) // 2 :, 2] *= -1
     elif stnum == 19:  # hexagonal 6/mmm
-        # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/6 lacks SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0)
-            & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
-            & (xx >= 0)
-        )
+        # keep 0 <= azimuth <= 30 in hexagon lacks SH
+        mask = (ang >= 0.0 - ang_eps) & (ang <= 30.0 + ang_eps)
         kstar = hexagon_to_hemisphere(xy[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-- 
2.43.0


From b196f3e205f6fbf4c65a2c16c9a799619b9dbb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 018/100] fix: space groups 149-155 and 194 were assigned to
 the wrong Laue group

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From 45439a934ff87551f16be0ffbe6aaacf5174313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 019/100] fix: Monte Carlo histogram lost electrons that landed
 in the same bin

---
 ebsdtorch/simulation/monte_carlo.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index 2f2ca0a..6e4fb9a 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -226,12 +226,17 @@ def bse_sim_mc(
         exit_direction_indices = exit_direction_indices[valid_mask]
 
         # push MC batch into accumulator
-        accumulator[
-            exit_energy_indices,
-            exit_depth_indices,
-            exit_direction_indices[..., 0],
-            exit_direction_indices[..., 1],
-        ] += 1
+        # (+= 1 would count several electrons landing in the same bin only once)
+        accumulator.index_put_(
+            (
+                exit_energy_indices.long(),
+                exit_depth_indices.long(),
+                exit_direction_indices[..., 0].long(),
+                exit_direction_indices[..., 1].long(),
+            ),
+            torch.ones_like(exit_depth_indices, dtype=accumulator.dtype),
+            accumulate=True,
+        )
 
         # reset if the ticks are greater than the max
         ticks += 1
-- 
2.43.0


From b93607e8cab0ceb2fac8bdd95b4bed88a4428ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 020/100] fix: mutual information joint histogram mixed up
 neighbouring bins

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..d6f17bc 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -48,7 +48,7 @@ def mutual_information(
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
 
-    joint_bin = a_bin * (n_bins - 1) + b_bin
+    joint_bin = a_bin * n_bins + b_bin
 
     # get the histogram
     if B1 == B2:
-- 
2.43.0


From 05b5fbd71120414884367bd8d709447c710139fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 021/100] fix: mutual information of a constant image indexed
 out of range

---
 ebsdtorch/utils/mutual_information.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index d6f17bc..13b9377 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -42,6 +42,9 @@ def mutual_information(
     b_maxvals = b.max(dim=-1, keepdim=True).values
 
     if normalize:
+        # constant images have zero range and belong entirely in the first bin
+        a_maxvals = torch.where(a_maxvals > a_minvals, a_maxvals, a_minvals + 1.0)
+        b_maxvals = torch.where(b_maxvals > b_minvals, b_maxvals, b_minvals + 1.0)
         a_bin = ((a - a_minvals) / (a_maxvals - a_minvals) * n_bins * 0.999999).long()
         b_bin = ((b - b_minvals) / (b_maxvals - b_minvals) * n_bins * 0.999999).long()
     else:
-- 
2.43.0


From b7b52f554c87abc48f9819fa3b8d3e59448803a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 022/100] fix: binned mutual information put values of exactly
 1.0 in the wrong bin

---
 ebsdtorch/utils/mutual_information.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 13b9377..e55b1c9 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -176,8 +176,9 @@ def binned_nmi(
     x = x.view(-1)
     y = y.view(-1)
 
-    x_binned = torch.floor(x * binsx)
-    y_binned = torch.floor(y * binsy)
+    # values of exactly 1.0 belong to the last bin
+    x_binned = torch.floor(x * binsx).clamp(max=binsx - 1)
+    y_binned = torch.floor(y * binsy).clamp(max=binsy - 1)
 
     # Create a combined variable for 1D histogram
     xy_combined = x_binned * binsy + y_binned
@@ -375,7 +376,7 @@ def cmif(
     images_dst = images_dst.view(-1, 1, h1, w1)
     images_src = images_src.view(-1, 1, h1, w1)
 
-    dst_levels = (bins_dst * images_dst).byte().repeat(1, bins_dst, 1, 1)
+    dst_levels = (bins_dst * images_dst).clamp(max=bins_dst - 1).byte().repeat(1, bins_dst, 1, 1)
     dst_levels = (
         dst_levels
         == torch.arange(bins_dst, dtype=torch.uint8, device=images_dst.device)[
@@ -383,7 +384,7 @@ def cmif(
         ]
     )
 
-    src_levels = (bins_src * images_src).byte().repeat(1, bins_src, 1, 1)
+    src_levels = (bins_src * images_src).clamp(max=bins_src - 1).byte().repeat(1, bins_src, 1, 1)
     src_levels = (
         src_levels
         == torch.arange(bins_src, dtype=torch.uint8, device=images_src.device)[
-- 
2.43.0


From 7b53896b23aaf623995d51e7b4a44da5d1a63917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 023/100] fix: cross mutual information dropped single counts
 and the last level

---
 ebsdtorch/utils/mutual_information.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index e55b1c9..86204a1 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -485,26 +485,26 @@ def cmif(
             (images_dst.shape[0], images_src.shape[0], h1, w1), device=images_dst.device
         )
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 # print which chunk begin and end for each
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
                 joint_p = cross_corr_real / tally_joint
                 joint_p_log_p = torch.where(
@@ -577,7 +577,7 @@ def cmif(
             cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
 
             # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
@@ -607,7 +607,7 @@ def cmif(
             cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
 
             # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
-- 
2.43.0


From 162b860c6f9a81862cbdbf9c7ee13e9fdae27d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 024/100] fix: cross mutual information failed for odd widths
 and for more than 8 bins

---
 ebsdtorch/utils/mutual_information.py | 36 ++++++++++++++++-----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 86204a1..a62b586 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -448,18 +448,24 @@ def cmif(
 
         else:
             # first compute the marginal histograms
-            marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :]),
-                dim=(-2, -1),
+            # for every pair of destination and source images
+            dst_ind_fft, src_ind_fft = dst_levels_fft[:, 0], src_levels_fft[:, 0]
+            marg_dst_f = torch.einsum(
+                "bihw,chw->bcihw", dst_levels_fft[:, 1:], src_ind_fft
             )
-            marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :]),
-                dim=(-2, -1),
+            marg_src_f = torch.einsum(
+                "bhw,cjhw->bcjhw", dst_ind_fft, src_levels_fft[:, 1:]
             )
+            marg_hists_dst = fftshift(irfft2(marg_dst_f, s=[h1, w1]), dim=(-2, -1))
+            marg_hists_src = fftshift(irfft2(marg_src_f, s=[h1, w1]), dim=(-2, -1))
+
+            # where the bin occupancy was less than 1, set it to zero
+            marg_hists_dst[marg_hists_dst < 0.5] = 0.0
+            marg_hists_src[marg_hists_src < 0.5] = 0.0
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
+            marg_hists_src /= marg_hists_src.sum(dim=2, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=2, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -474,8 +480,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=2)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=2)
 
         # total number of pixel pair values is the olap value so we can normalize the histogram bars in the joint as they come
         ent_joint = torch.zeros(
@@ -491,7 +497,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
@@ -502,11 +508,11 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
-                joint_p = cross_corr_real / tally_joint
+                joint_p = cross_corr_real / tally_joint[:, :, None, None]
                 joint_p_log_p = torch.where(
                     joint_p > 0.0,
                     joint_p * torch.log(joint_p),
@@ -574,7 +580,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1))
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 0.5] = 0.0
@@ -604,7 +610,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1)).real
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 0.5] = 0.0
-- 
2.43.0


From 5ee976eb8e2593d1ada4913d9139130371537e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 025/100] fix: nearest neighbor search failed for chunks
 smaller than topk

---
 ebsdtorch/utils/knn.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..a036b0b 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -146,9 +146,12 @@ class ChunkedKNN:
         self.quantized = quantized_via_ao
 
         self.big_better = self.distance_metric == "angular"
-        ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
-        self.knn_indices = torch.empty(
-            (self.query_size, self.topk), device=self.match_device, dtype=ind_dtype
+        # index -1 marks entries not filled yet (fewer than topk data seen so far)
+        self.knn_indices = torch.full(
+            (self.query_size, self.topk),
+            -1,
+            device=self.match_device,
+            dtype=torch.int64,
         )
         self.knn_distances = torch.full(
             (self.query_size, self.topk),
@@ -173,6 +176,9 @@ class ChunkedKNN:
         self.curr_end += data_chunk.shape[0]
         self.curr_start = self.curr_end - data_chunk.shape[0]
 
+        # a chunk can hold fewer entries than the number of neighbors requested
+        self.chunk_topk = min(self.topk, data_chunk.shape[0])
+
         # Quantize the data if needed
         if self.quantized and self.match_device.type == "cpu":
             self.prepared_data = quant_model_data(data_chunk)
@@ -195,11 +201,11 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_dists_chunk, knn_inds_chunk = topk_quantized_data(
-                query, self.prepared_data, self.topk
+                query, self.prepared_data, self.chunk_topk
             )
         else:
             knn_dists_chunk, knn_inds_chunk = knn_batch(
-                self.prepared_data, query, self.topk, self.distance_metric
+                self.prepared_data, query, self.chunk_topk, self.distance_metric
             )
 
         # chunk indices -> global indices
@@ -235,11 +241,11 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_distances_chunk, knn_indices_chunk = topk_quantized_data(
-                query_chunk, self.prepared_data, self.topk
+                query_chunk, self.prepared_data, self.chunk_topk
             )
         else:
             knn_distances_chunk, knn_indices_chunk = knn_batch(
-                self.prepared_data, query_chunk, self.topk, self.distance_metric
+                self.prepared_data, query_chunk, self.chunk_topk, self.distance_metric
             )
 
         knn_indices_chunk += self.curr_start
-- 
2.43.0


From 471e701cd860587278e8de356c127ed34a0da448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 026/100] fix: quantized nearest neighbor search ignored the
 distance metric

---
 ebsdtorch/utils/knn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a036b0b..9b994e2 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -143,7 +143,8 @@ class ChunkedKNN:
             match_dtype = torch.float32
 
         self.match_dtype = match_dtype
-        self.quantized = quantized_via_ao
+        # the quantized path computes inner products only
+        self.quantized = quantized_via_ao and distance_metric == "angular"
 
         self.big_better = self.distance_metric == "angular"
         # index -1 marks entries not filled yet (fewer than topk data seen so far)
-- 
2.43.0


From b669c71e34caa99167d8d3bbf05a44ea28878647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 027/100] fix: combining the indexing results of several phases
 failed

---
 ebsdtorch/ebsd/experiment_pats.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..fa8cd63 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -415,9 +415,8 @@ class ExperimentPatterns(Module):
                 )
 
             # make a phase_id tensor
-            phase_ids = torch.full(
+            phase_ids = torch.zeros(
                 self.n_patterns,
-                fill_value=-1,
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
@@ -430,6 +429,9 @@ class ExperimentPatterns(Module):
             )
 
             for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
+                # the top match of each pattern comes first
+                quaternions = quaternions[:, 0].to(orientations.dtype)
+                metrics = metrics[:, 0].to(best_metrics.dtype)
                 if higher_is_better:
                     mask = metrics > best_metrics
                 else:
@@ -447,5 +449,6 @@ class ExperimentPatterns(Module):
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+            quaternions, metrics = list(self.raw_indexing_results.values())[0]
+            self.orientations = quaternions[:, 0]
+            self.best_metrics = metrics[:, 0]
-- 
2.43.0


From 50b3d3d365e9c27fd0633557bf3c1ebbad7b68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 028/100] fix: pattern indices of a phase with one pattern were
 not a list

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index fa8cd63..7fee3f7 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -360,7 +360,7 @@ class ExperimentPatterns(Module):
                 "Phases must be indexed before retrieving indices per phase."
             )
         return [
-            torch.nonzero(self.phases == i, as_tuple=False).squeeze()
+            torch.nonzero(self.phases == i, as_tuple=False).squeeze(-1)
             for i in range(self.phases.max().item() + 1)
         ]
 
-- 
2.43.0


From 602cd642c29094767553d66a226916bc4cface78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 029/100] fix: experiment pattern attributes could not be read
 before or broadcast when set

---
 ebsdtorch/ebsd/experiment_pats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 7fee3f7..b5d5cfe 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -53,6 +53,7 @@ class ExperimentPatterns(Module):
         self.n_pixels = self.pattern_shape[0] * self.pattern_shape[1]
 
         self.phases = None
+        self.spatial_coords = None
         self.orientations = None
         self.inv_f_matrix = None
 
@@ -188,6 +189,9 @@ class ExperimentPatterns(Module):
             f_matrix[:, 8] = 1.0
             f_matrix = f_matrix.reshape(self.n_patterns, 3, 3)
         else:
+            if f_matrix.shape[0] == 1:
+                # one deformation gradient shared by all of the patterns
+                f_matrix = f_matrix.repeat_interleave(self.n_patterns, dim=0)
             if f_matrix.shape[0] != self.n_patterns:
                 raise ValueError(
                     f"Deformation gradients must have the same number of patterns as the ExperimentPatterns object. "
-- 
2.43.0


From 3065186a1c0dccb81773c49ffedc207ca5099e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 030/100] fix: importing the indexing module ran its demo

---
 ebsdtorch/ebsd/indexing.py | 200 ++++++++++++++++++-------------------
 1 file changed, 100 insertions(+), 100 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5d7d02e..35f21ca 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -476,103 +476,103 @@ def pca_dictionary_index_orientations(
     )
 
 
-import torch
-import kikuchipy as kp
-import numpy as np
-
-device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
-
-geom = EBSDGeometry(
-    detector_shape=(60, 60),
-    proj_center=(0.4221, 0.2179, 0.4954),
-).to(device)
-
-# create the master pattern
-kp_mp = kp.data.nickel_ebsd_master_pattern_small(
-    projection="lambert", hemisphere="both"
-)
-mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
-mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
-master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
-mp = MasterPattern(
-    master_pattern,
-    laue_group=11,
-).to(device)
-mp.normalize(norm_type="minmax")
-# mp.apply_clahe()
-
-# create the experiment patterns object
-exp_pats = (
-    torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
-    .to(device)
-    .to(torch.float32)
-)
-
-exp_pats = ExperimentPatterns(
-    exp_pats,
-)
-
-# subtract background and do clahe
-exp_pats.standard_clean()
-# exp_pats.do_nlpar()
-
-# get radial mask
-from ebsdtorch.preprocessing.radial_mask import get_radial_mask
-
-mask = get_radial_mask(
-    shape=(60, 60),
-).to(device)
-# mask = None
-
-# # index the orientations
-# dictionary_index_orientations(
-#     mp,
-#     geom,
-#     exp_pats,
-#     dictionary_resolution_degrees=0.5,
-#     dictionary_chunk_size=4096,
-#     signal_mask=mask,
-#     virtual_binning=1,
-#     experiment_chunk_size=4096,
-#     match_dtype=torch.float16,
-# )
-
-# index the orientations
-pca_dictionary_index_orientations(
-    mp,
-    geom,
-    exp_pats,
-    dictionary_resolution_learn_deg=0.5,
-    dictionary_resolution_index_deg=0.2,
-    dictionary_chunk_size=4096,
-    signal_mask=mask,
-    virtual_binning=1,
-    experiment_chunk_size=4096,
-    match_dtype=torch.float16,
-    n_pca_components=500,
-)
-
-orientations = exp_pats.get_orientations().cpu().numpy()
-
-# plot the indexed orientations
-import numpy as np
-from orix import plot
-from orix.quaternion import Orientation
-from orix.vector import Vector3d
-from plotly.express import imshow
-
-# get the orientation colors
-pg_m3m = kp_mp.phase.point_group.laue
-ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
-
-# save rgb image
-orientations = Orientation(orientations)
-rgb = ckey_m3m.orientation2color(orientations)
-rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
-
-# plot the indexed orientations
-fig = imshow(rgb_byte)
-# set title
-fig.update_layout(title_text=f"Scan {1}")
-
-fig.show()
+if __name__ == "__main__":
+    import kikuchipy as kp
+    import numpy as np
+
+    device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
+
+    geom = EBSDGeometry(
+        detector_shape=(60, 60),
+        proj_center=(0.4221, 0.2179, 0.4954),
+    ).to(device)
+
+    # create the master pattern
+    kp_mp = kp.data.nickel_ebsd_master_pattern_small(
+        projection="lambert", hemisphere="both"
+    )
+    mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
+    mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
+    master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
+    mp = MasterPattern(
+        master_pattern,
+        laue_group=11,
+    ).to(device)
+    mp.normalize(norm_type="minmax")
+    # mp.apply_clahe()
+
+    # create the experiment patterns object
+    exp_pats = (
+        torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
+        .to(device)
+        .to(torch.float32)
+    )
+
+    exp_pats = ExperimentPatterns(
+        exp_pats,
+    )
+
+    # subtract background and do clahe
+    exp_pats.standard_clean()
+    # exp_pats.do_nlpar()
+
+    # get radial mask
+    from ebsdtorch.preprocessing.radial_mask import get_radial_mask
+
+    mask = get_radial_mask(
+        shape=(60, 60),
+    ).to(device)
+    # mask = None
+
+    # # index the orientations
+    # dictionary_index_orientations(
+    #     mp,
+    #     geom,
+    #     exp_pats,
+    #     dictionary_resolution_degrees=0.5,
+    #     dictionary_chunk_size=4096,
+    #     signal_mask=mask,
+    #     virtual_binning=1,
+    #     experiment_chunk_size=4096,
+    #     match_dtype=torch.float16,
+    # )
+
+    # index the orientations
+    pca_dictionary_index_orientations(
+        mp,
+        geom,
+        exp_pats,
+        dictionary_resolution_learn_deg=0.5,
+        dictionary_resolution_index_deg=0.2,
+        dictionary_chunk_size=4096,
+        signal_mask=mask,
+        virtual_binning=1,
+        experiment_chunk_size=4096,
+        match_dtype=torch.float16,
+        n_pca_components=500,
+    )
+
+    orientations = exp_pats.get_orientations().cpu().numpy()
+
+    # plot the indexed orientations
+    import numpy as np
+    from orix import plot
+    from orix.quaternion import Orientation
+    from orix.vector import Vector3d
+    from plotly.express import imshow
+
+    # get the orientation colors
+    pg_m3m = kp_mp.phase.point_group.laue
+    ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
+
+    # save rgb image
+    orientations = Orientation(orientations)
+    rgb = ckey_m3m.orientation2color(orientations)
+    rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
+
+    # plot the indexed orientations
+    fig = imshow(rgb_byte)
+    # set title
+    fig.update_layout(title_text=f"Scan {1}")
+
+    fig.show()
-- 
2.43.0


From e31b9a49a42c686aa7606071d5ad683bf7fd6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 031/100] fix: PCA indexing selected the wrong principal
 components

---
 ebsdtorch/ebsd/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 35f21ca..9f0398f 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -352,7 +352,7 @@ def pca_dictionary_index_orientations(
 
         # trim the eigenvectors to the number of components
         # they are returned in ascending order of eigenvalue
-        pca_matrix = eigenvectors[:, -n_pca_components : (-n_pca_components + 300)]
+        pca_matrix = eigenvectors[:, -n_pca_components:]
 
         # calc dictionary (if the learning and indexing resolutions are different)
         if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
-- 
2.43.0


From 3224c8a54747565ce4316acaafa71746f0f51a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 032/100] fix: experiment patterns were treated differently
 when indexed in chunks

---
 ebsdtorch/ebsd/indexing.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 9f0398f..54a0319 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -182,9 +182,10 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # query the KNN object
                     knn.query_chunk(
@@ -284,7 +285,7 @@ def pca_dictionary_index_orientations(
         if signal_mask is not None:
             n_pixels = signal_mask.sum().item()
         else:
-            n_pixels = experiment_patterns.n_pixels
+            n_pixels = experiment_patterns.n_pixels // virtual_binning**2
 
         # make an object to do the PCA
         pcacovmat = OnlineCovMatrix(
@@ -405,9 +406,10 @@ def pca_dictionary_index_orientations(
 
             # # retrieve and project the experiment patterns
             if experiment_chunk_size > experiment_patterns.n_patterns:
-                exp_pats = experiment_patterns.patterns.view(
-                    experiment_patterns.n_patterns, -1
-                )
+                exp_pats = experiment_patterns.get_patterns(
+                    torch.arange(experiment_patterns.n_patterns),
+                    binning=virtual_binning,
+                ).view(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
@@ -444,9 +446,10 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From d032e1acff4c061432dd0110c3a5313c79ebc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 033/100] fix: local orientation grid had no exact center

---
 ebsdtorch/ebsd/refining.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9a4cf73..98522b4 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -43,12 +43,10 @@ def get_local_orientation_grid(
     # get the cubochoric grid edge length
     semi_edge_cubochoric = semi_edge_in_degrees * torch.pi ** (2 / 3) / 360.0
 
-    # make a meshgrid of cubochoric coordinates
-    cu = torch.linspace(
-        -semi_edge_cubochoric,
-        semi_edge_cubochoric,
-        2 * kernel_radius_in_steps + 1,
-    )
+    # make a meshgrid of cubochoric coordinates (the center is exactly zero)
+    cu = torch.arange(
+        -kernel_radius_in_steps, kernel_radius_in_steps + 1
+    ).to(torch.float32) * (semi_edge_cubochoric / kernel_radius_in_steps)
 
     # get cartesian product meshgrid
     cu = torch.stack(torch.meshgrid(cu, cu, cu, indexing="ij"), dim=-1).reshape(-1, 3)
-- 
2.43.0


From 43cbc4750c050fa08b2cb0a591a6a7d102c44023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 034/100] fix: refinement failed for a batch with a single
 pattern

---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 98522b4..9f97523 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -204,7 +204,7 @@ def orientation_grid_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
@@ -339,7 +339,7 @@ def orientation_grad_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
-- 
2.43.0


From d98be45a61ade3bd2cc6d4ba3b4954b2080e6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 035/100] fix: gradient refinement kept worse orientations and
 discarded better ones

---
 ebsdtorch/ebsd/refining.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9f97523..73c870d 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -323,7 +323,7 @@ def orientation_grad_refinement(
             # pass off to the optimizer
             optimizer = torch.optim.Adam([qu_current], lr=learning_rate)
 
-            initial_dots = None
+            initial_dots, best_dots, best_qu = None, None, None
 
             for step in range(n_iter):
                 # apply the state of the lattice to the detector coordinates
@@ -353,8 +353,16 @@ def orientation_grad_refinement(
                     "ij,ij->i", exp_pats.to(match_dtype), sim_pats.to(match_dtype)
                 )
 
-                if step == 0:
-                    initial_dots = -dot_products
+                # keep the best orientations that have been scored so far
+                with torch.no_grad():
+                    if best_dots is None:
+                        initial_dots = dot_products.detach().clone()
+                        best_dots = initial_dots.clone()
+                        best_qu = qu_current.detach().clone()
+                    else:
+                        better = dot_products > best_dots
+                        best_dots[better] = dot_products[better]
+                        best_qu[better] = qu_current[better]
 
                 # backpropagate the dot products
                 loss = -torch.mean(dot_products)
@@ -367,8 +375,8 @@ def orientation_grad_refinement(
                 with torch.no_grad():
                     qu_current /= qu_current.norm(dim=-1, keepdim=True)
 
-            # detach the quaternions from the graph
-            qu_current = qu_current.detach()
+            # take the best orientations
+            qu_current = best_qu
 
             # make the quaternions have positive scalar part
             qu_current *= (qu_current[..., :1] >= 0).float() * 2 - 1
@@ -378,8 +386,8 @@ def orientation_grad_refinement(
 
             # update the experiment patterns
             # experiment_patterns.set_orientations(qu_current.detach(), indices_batch)
-            # only update if the final loss is better than the initial loss
-            updates = dot_products < initial_dots
+            # only update if the best match is better than the initial match
+            updates = best_dots > initial_dots
             experiment_patterns.set_orientations(
                 qu_current[updates].detach(),
                 indices_batch[updates],
-- 
2.43.0


From 0b04ed44a77587259df6b62e17af44cc9095fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 036/100] fix: detector pixel coordinates were stretched by one
 pixel

---
 ebsdtorch/ebsd/fitting.py        | 42 ++++++++++++--------------------
 ebsdtorch/ebsd/geometry.py       |  4 +--
 ebsdtorch/ebsd/project_hrebsd.py |  4 +--
 3 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..986ad79 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -189,20 +189,12 @@ def get_3D_pixel_coords(
     # create the pixel coordinates
     pixel_coordinates = torch.stack(
         torch.meshgrid(
-            torch.linspace(
-                0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
-                binned_shape[0],
-                dtype=dtype,
-                device=device,
-            ),
-            torch.linspace(
-                0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
-                binned_shape[1],
-                dtype=dtype,
-                device=device,
-            ),
+            0.5 * (binning_fp[0] - 1)
+            + binning_fp[0]
+            * torch.arange(binned_shape[0], dtype=dtype, device=device),
+            0.5 * (binning_fp[1] - 1)
+            + binning_fp[1]
+            * torch.arange(binned_shape[1], dtype=dtype, device=device),
             indexing="ij",
         ),
         dim=-1,
@@ -257,19 +249,17 @@ def get_3D_pixel_coords_with_periphery(
 
     pixel_coordinates = torch.stack(
         torch.meshgrid(
-            torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
-                binned_shape[0],
-                dtype=dtype,
-                device=device,
+            0.5 * (binning_fp - 1)
+            + binning_fp
+            * (
+                torch.arange(binned_shape[0], dtype=dtype, device=device)
+                - h_pad_prior
             ),
-            torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
-                binned_shape[1],
-                dtype=dtype,
-                device=device,
+            0.5 * (binning_fp - 1)
+            + binning_fp
+            * (
+                torch.arange(binned_shape[1], dtype=dtype, device=device)
+                - w_pad_prior
             ),
             indexing="ij",
         ),
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..8a50fdf 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -483,14 +483,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
diff --git a/ebsdtorch/ebsd/project_hrebsd.py b/ebsdtorch/ebsd/project_hrebsd.py
index 0ffb98b..c92f9b1 100644
--- a/ebsdtorch/ebsd/project_hrebsd.py
+++ b/ebsdtorch/ebsd/project_hrebsd.py
@@ -60,14 +60,14 @@ def hrebsd_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,  # is always on model device
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,  # is always on model device
-- 
2.43.0


From 95eca6f7a04881c98669ea154338fdf387c4750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 037/100] fix: Bruker geometry lost the sign of the tilts

---
 ebsdtorch/ebsd/fitting.py  | 7 +++----
 ebsdtorch/ebsd/geometry.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 986ad79..9d104a4 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # the signs of both tilts matter for the pattern center
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 8a50fdf..7495e86 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # the signs of both tilts matter for the pattern center
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 588d7695d938eb8dd2fc336b960580c576b09207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 038/100] fix: pattern center fitter returned orientations of
 the wrong dictionary batch

---
 ebsdtorch/ebsd/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 9d104a4..6fa5e6c 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -492,7 +492,7 @@ def spatial_fft_pc_fitter(
 
             best_orientations[z_idx] = torch.where(
                 best_dots[z_idx] == batch_values,
-                batch_indices,
+                batch_indices + j,
                 best_orientations[z_idx],
             )
 
-- 
2.43.0


From c4a7cc9aa5a507f65384f8795debff926199a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 039/100] fix: pattern center fitter failed for odd padded
 widths

---
 ebsdtorch/ebsd/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 6fa5e6c..034e821 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -471,7 +471,9 @@ def spatial_fft_pc_fitter(
 
             if metric == "dot":
                 sim_pats_fft = rfft2(sim_pats, dim=(-2, -1))
-                dots_full = fftshift(irfft2(sim_pats_fft * pattern_fft), dim=(-2, -1))
+                dots_full = fftshift(
+                    irfft2(sim_pats_fft * pattern_fft, s=padded_shape), dim=(-2, -1)
+                )
             elif metric == "mi":
                 dots_full = cmif(
                     images_dst=sim_pats,
-- 
2.43.0


From 991abca5142c98fb18073d210d9eb0db222e9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 040/100] fix: pattern center fitter returned the mirrored
 pattern center

---
 ebsdtorch/ebsd/fitting.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 034e821..b1e8c74 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -236,10 +236,12 @@ def get_3D_pixel_coords_with_periphery(
     # get binned shape
     binning_fp = float(binning)
 
-    w_pad_prior = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
-    w_pad_after = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
-    h_pad_prior = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
-    h_pad_after = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    # moving the pattern center towards +x moves the pattern towards -x on the
+    # gnomonic plane, so the largest pattern center needs the prior padding
+    w_pad_prior = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
+    w_pad_after = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
+    h_pad_prior = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    h_pad_after = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
 
     binned_shape = (
         (detector_shape[0] // binning) + h_pad_prior + h_pad_after,
@@ -512,8 +514,10 @@ def spatial_fft_pc_fitter(
     )
 
     best_pc_z = pc_z_vals[best_z_idx]
-    best_pc_y = 0.5 + float(best_y_idx - padding[2] - (H_bin + 1) // 2) / H_bin
-    best_pc_x = 0.5 + float(best_x_idx - padding[0] - (W_bin + 1) // 2) / W_bin
+    # zero shift is at the middle of the padded shape, and a shift of the pattern
+    # on the gnomonic plane is the opposite shift of the pattern center
+    best_pc_y = 0.5 - float(best_y_idx - padded_shape[0] // 2) / H_bin
+    best_pc_x = 0.5 - float(best_x_idx - padded_shape[1] // 2) / W_bin
 
     # Get the best orientation for each pattern in the batch
     best_orientations_batch = best_orientations[best_z_idx, :, best_y_idx, best_x_idx]
-- 
2.43.0


From 44f7712df22658daffcd87e42950f082e8e9808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 041/100] fix: pattern center fitter overwrote the patterns of
 the caller

---
 ebsdtorch/ebsd/fitting.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index b1e8c74..096c007 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -381,11 +381,18 @@ def spatial_fft_pc_fitter(
             stride=virtual_binning,
         )
 
-    patterns -= patterns.view(B, -1).min(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
-    patterns /= patterns.view(B, -1).max(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
+    # out of place: the patterns belong to the caller
+    patterns = patterns - patterns.view(B, -1).min(
+        dim=-1, keepdim=True
+    ).values.view(B, 1, 1, 1)
+    patterns = patterns / patterns.view(B, -1).max(
+        dim=-1, keepdim=True
+    ).values.view(B, 1, 1, 1)
 
     if metric == "dot":
-        patterns -= patterns.view(B, -1).mean(dim=-1, keepdim=True).view(B, 1, 1, 1)
+        patterns = patterns - patterns.view(B, -1).mean(dim=-1, keepdim=True).view(
+            B, 1, 1, 1
+        )
 
     pixel_coords_det_ref, padding, padded_shape = get_3D_pixel_coords_with_periphery(
         detector_shape=(H, W),
-- 
2.43.0


From 3eb45f3d357bc33ab2b4969f534a8cd4a651a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 042/100] fix: binned master pattern was reused after the
 master pattern or binning changed

---
 ebsdtorch/ebsd/master_pattern.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..b8ab4a4 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -89,6 +89,7 @@ class MasterPattern(Module):
 
         self.master_pattern = master_pattern
         self.master_pattern_binned = None
+        self.binned_factor = None
         self.factor_dict = {}
 
     def bin(
@@ -111,6 +112,7 @@ class MasterPattern(Module):
         self.master_pattern_binned = torch.nn.functional.avg_pool2d(
             self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
         )[0, 0]
+        self.binned_factor = binning_factor
 
     def normalize(
         self,
@@ -123,6 +125,9 @@ class MasterPattern(Module):
             :norm_type (str): Normalization type: "minmax", "zeromean", "standard"
 
         """
+        # the binned master pattern is out of date
+        self.master_pattern_binned = None
+
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
@@ -168,7 +173,10 @@ class MasterPattern(Module):
 
         # blur the master pattern if virtual binning is used
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
+            if (
+                self.master_pattern_binned is None
+                or self.binned_factor != virtual_binning
+            ):
                 self.bin(virtual_binning)
             master_pattern_prep = self.master_pattern_binned
         else:
@@ -229,3 +237,5 @@ class MasterPattern(Module):
             n_bins=n_bins,
             grid_shape=grid_shape,
         )[0, 0]
+        # the binned master pattern is out of date
+        self.master_pattern_binned = None
-- 
2.43.0


From b6ab25690943d34bc2fd7f16c4c62c97832537d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 043/100] fix: om2qu returned the wrong axis for 180 degree
 rotations

---
 ebsdtorch/s2_and_so3/orientations.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..83157f2 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -121,13 +121,10 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
     qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
-    qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
-
-    return qu
+    # the branches give the conjugate up to a global sign. The relative signs of the
+    # axis cannot be taken from (m21 - m12), ... as those are zero for 180 degrees
+    qu[..., 0] = -qu[..., 0]
+    return torch.where(qu[..., 0:1] < 0, -qu, qu)
 
 
 @torch.jit.script
-- 
2.43.0


From 2c75edb5afa5573ab2642d39e28e12aa3f8b514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 044/100] fix: om2ax failed for 0 and 180 degree rotations and
 for batches

---
 ebsdtorch/s2_and_so3/orientations.py | 36 +++++++---------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 83157f2..0d4db6b 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -142,34 +142,14 @@ def om2ax(matrix: Tensor) -> Tensor:
     if matrix.size(-1) != 3 or matrix.size(-2) != 3:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
-    batch_dim = matrix.shape[:-2]
-
-    # set the output with the same batch dimensions as the input
-    axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
-
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
-
-    # set the angle
-    axis[..., 3] = theta
-
-    return axis.view(batch_dim + (4,))
+    # the antisymmetric part of the matrix vanishes for 0 and 180 degrees, where
+    # the quaternion still knows the axis (the identity is about the z axis)
+    qu = om2qu(matrix)
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    z_axis = torch.tensor([0.0, 0.0, 1.0], dtype=matrix.dtype, device=matrix.device)
+    axis = torch.where(norm > 0, qu[..., 1:] / norm, z_axis)
+    angle = 2.0 * torch.atan2(norm, qu[..., 0:1])
+    return torch.cat([axis, angle], dim=-1)
 
 
 @torch.jit.script
-- 
2.43.0


From 20ef13208883b49485a03f28d7168fc000294ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 045/100] fix: orientation conversions failed for more than one
 batch dimension or none

---
 ebsdtorch/s2_and_so3/orientations.py | 130 ++++++++++-----------------
 1 file changed, 47 insertions(+), 83 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 0d4db6b..296e550 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -70,8 +70,6 @@ def om2qu(matrix: Tensor) -> Tensor:
     if matrix.size(-1) != 3 or matrix.size(-2) != 3:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
-    batch_dim = matrix.shape[:-2]
-
     m00 = matrix[..., 0, 0]
     m11 = matrix[..., 1, 1]
     m22 = matrix[..., 2, 2]
@@ -88,38 +86,21 @@ def om2qu(matrix: Tensor) -> Tensor:
     branch_1 = mask_A & mask_B
     branch_2 = mask_A & ~mask_B
     branch_3 = ~mask_A & mask_C
-    branch_4 = ~mask_A & ~mask_C
-
-    branch_1_t = 1 + m00[branch_1] - m11[branch_1] - m22[branch_1]
-    branch_1_t_rsqrt = 0.5 * torch.rsqrt(branch_1_t)
-    branch_2_t = 1 - m00[branch_2] + m11[branch_2] - m22[branch_2]
-    branch_2_t_rsqrt = 0.5 * torch.rsqrt(branch_2_t)
-    branch_3_t = 1 - m00[branch_3] - m11[branch_3] + m22[branch_3]
-    branch_3_t_rsqrt = 0.5 * torch.rsqrt(branch_3_t)
-    branch_4_t = 1 + m00[branch_4] + m11[branch_4] + m22[branch_4]
-    branch_4_t_rsqrt = 0.5 * torch.rsqrt(branch_4_t)
-
-    qu = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
-
-    qu[branch_1, 1] = branch_1_t * branch_1_t_rsqrt
-    qu[branch_1, 2] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
-    qu[branch_1, 3] = (m20[branch_1] + m02[branch_1]) * branch_1_t_rsqrt
-    qu[branch_1, 0] = (m12[branch_1] - m21[branch_1]) * branch_1_t_rsqrt
-
-    qu[branch_2, 1] = (m01[branch_2] + m10[branch_2]) * branch_2_t_rsqrt
-    qu[branch_2, 2] = branch_2_t * branch_2_t_rsqrt
-    qu[branch_2, 3] = (m12[branch_2] + m21[branch_2]) * branch_2_t_rsqrt
-    qu[branch_2, 0] = (m20[branch_2] - m02[branch_2]) * branch_2_t_rsqrt
-
-    qu[branch_3, 1] = (m20[branch_3] + m02[branch_3]) * branch_3_t_rsqrt
-    qu[branch_3, 2] = (m12[branch_3] + m21[branch_3]) * branch_3_t_rsqrt
-    qu[branch_3, 3] = branch_3_t * branch_3_t_rsqrt
-    qu[branch_3, 0] = (m01[branch_3] - m10[branch_3]) * branch_3_t_rsqrt
-
-    qu[branch_4, 1] = (m12[branch_4] - m21[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 2] = (m20[branch_4] - m02[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
+
+    # four times the squared largest quaternion component of each branch
+    t = torch.where(branch_1, 1 + m00 - m11 - m22, 1 + m00 + m11 + m22)
+    t = torch.where(branch_2, 1 - m00 + m11 - m22, t)
+    t = torch.where(branch_3, 1 - m00 - m11 + m22, t)
+
+    qu_1 = torch.stack([m12 - m21, t, m01 + m10, m20 + m02], dim=-1)
+    qu_2 = torch.stack([m20 - m02, m01 + m10, t, m12 + m21], dim=-1)
+    qu_3 = torch.stack([m01 - m10, m20 + m02, m12 + m21, t], dim=-1)
+    qu_4 = torch.stack([t, m12 - m21, m20 - m02, m01 - m10], dim=-1)
+
+    qu = torch.where(branch_1.unsqueeze(-1), qu_1, qu_4)
+    qu = torch.where(branch_2.unsqueeze(-1), qu_2, qu)
+    qu = torch.where(branch_3.unsqueeze(-1), qu_3, qu)
+    qu = qu * (0.5 * torch.rsqrt(t)).unsqueeze(-1)
 
     # the branches give the conjugate up to a global sign. The relative signs of the
     # axis cannot be taken from (m21 - m12), ... as those are zero for 180 degrees
@@ -167,12 +148,8 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         raise ValueError(f"Invalid axis-angle shape {axis_angle.shape}.")
 
     batch_dim = axis_angle.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(batch_dim)))
-
-    # set the output
-    matrices = torch.empty(
-        batch_dim + (3, 3), dtype=axis_angle.dtype, device=axis_angle.device
-    )
+    axis_angle = axis_angle.reshape(-1, 4)
+    data_n = axis_angle.shape[0]
 
     theta = axis_angle[..., 3:4]
     omega = axis_angle[..., :3] * theta
@@ -188,7 +165,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
+    stable = (theta > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
@@ -286,7 +263,7 @@ def cu2ho(cu: torch.Tensor) -> torch.Tensor:
 
     # Calculate trigonometric argument and avoid indeterminate forms
     trig_arg_xy = s * torch.pi / (12.0 * m)
-    trig_arg_xy[torch.isnan(trig_arg_xy)] = 0
+    trig_arg_xy = torch.where(torch.isnan(trig_arg_xy), 0.0, trig_arg_xy)
 
     factor_xy = (
         2 ** (1 / 12)
@@ -318,7 +295,7 @@ def cu2ho(cu: torch.Tensor) -> torch.Tensor:
     ho = torch.scatter(ho, -1, indices, ho)
 
     # replace any nans with 0
-    ho[torch.isnan(ho)] = 0
+    ho = torch.where(torch.isnan(ho), 0.0, ho)
 
     # copy the sign of the original cubochoric vector
     ho.copysign_(cu)
@@ -488,9 +465,8 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
     )
     rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
     # set the identity rotation
-    ax[rot_is_identity] = 0
-    ax[rot_is_identity, ..., 2] = 1.0
-    return ax
+    z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=ho.dtype, device=ho.device)
+    return torch.where(rot_is_identity.unsqueeze(-1), z_axis, ax)
 
 
 @torch.jit.script
@@ -688,20 +664,17 @@ def ro2ax(ro: Tensor) -> Tensor:
     Returns:
         torch.Tensor: shape (..., 4) axis-angles (x, y, z, angle).
     """
-    ax = torch.empty_like(ro)
-    mask_zero_ro = torch.abs(ro[..., 3]) == 0
-    ax[mask_zero_ro] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
-
-    mask_inf_ro = torch.isinf(ro[..., 3])
-    ax[mask_inf_ro, :3] = ro[mask_inf_ro, :3]
-    ax[mask_inf_ro, 3] = torch.pi
-
-    mask_else = ~(mask_zero_ro | mask_inf_ro)
-    ax[mask_else, :3] = ro[mask_else, :3] / torch.norm(
-        ro[mask_else, :3], dim=-1, keepdim=True
+    mask_zero_ro = ro[..., 3:4] == 0
+    mask_inf_ro = torch.isinf(ro[..., 3:4])
+    axis = torch.where(
+        mask_inf_ro,
+        ro[..., :3],
+        ro[..., :3] / torch.norm(ro[..., :3], dim=-1, keepdim=True),
     )
-    ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
-    return ax
+    # 2 * atan(inf) is pi
+    ax = torch.cat([axis, 2 * torch.atan(ro[..., 3:4])], dim=-1)
+    z_axis = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
+    return torch.where(mask_zero_ro, z_axis, ax)
 
 
 @torch.jit.script
@@ -749,12 +722,8 @@ def qu2ax(qu: Tensor) -> Tensor:
 
     # fix identity quaternions to be about z axis
     mask_identity = angle == 0.0
-    ax[mask_identity, 0] = 0.0
-    ax[mask_identity, 1] = 0.0
-    ax[mask_identity, 2] = 1.0
-    ax[mask_identity, 3] = 0.0
-
-    return ax
+    z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=qu.dtype, device=qu.device)
+    return torch.where(mask_identity.unsqueeze(-1), z_axis, ax)
 
 
 @torch.jit.script
@@ -779,7 +748,7 @@ def qu2ro(qu: Tensor) -> Tensor:
     # w < 1e-8 for float32 / w < 1e-10 for float64 -> infinite tan
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
-    ro[mask_zero, 3] = float("inf")
+    ro[..., 3] = torch.where(mask_zero, float("inf"), ro[..., 3])
     return ro
 
 
@@ -795,8 +764,6 @@ def qu2bu(qu: Tensor) -> Tensor:
         torch.Tensor: shape (..., 3) Bunge angles in radians.
     """
 
-    bu = torch.empty(qu.shape[:-1] + (3,), dtype=qu.dtype, device=qu.device)
-
     q03 = qu[..., 0] ** 2 + qu[..., 3] ** 2
     q12 = qu[..., 1] ** 2 + qu[..., 2] ** 2
     chi = torch.sqrt((q03 * q12))
@@ -806,23 +773,20 @@ def qu2bu(qu: Tensor) -> Tensor:
     mB = (mask_chi_zero) & (q03 == 0)
     mC = ~mask_chi_zero
 
-    bu[mA, 0] = torch.atan2(-2 * qu[mA, 0] * qu[mA, 3], qu[mA, 0] ** 2 - qu[mA, 3] ** 2)
-    bu[mA, 1] = 0
-    bu[mA, 2] = 0
+    q0, q1, q2, q3 = torch.unbind(qu, dim=-1)
+    zero = torch.zeros_like(chi)
 
-    bu[mB, 0] = torch.atan2(2 * qu[mB, 1] * qu[mB, 2], qu[mB, 1] ** 2 - qu[mB, 2] ** 2)
-    bu[mB, 1] = torch.pi
-    bu[mB, 2] = 0
+    # atan2 only depends on the ratio so there is no need to divide by chi
+    bu_0 = torch.atan2(q1 * q3 - q0 * q2, -q0 * q1 - q2 * q3)
+    bu_0 = torch.where(mA, torch.atan2(-2 * q0 * q3, q0**2 - q3**2), bu_0)
+    bu_0 = torch.where(mB, torch.atan2(2 * q1 * q2, q1**2 - q2**2), bu_0)
 
-    bu[mC, 0] = torch.atan2(
-        (qu[mC, 1] * qu[mC, 3] - qu[mC, 0] * qu[mC, 2]) / chi[mC],
-        (-qu[mC, 0] * qu[mC, 1] - qu[mC, 2] * qu[mC, 3]) / chi[mC],
-    )
-    bu[mC, 1] = torch.atan2(2 * chi[mC], q03[mC] - q12[mC])
-    bu[mC, 2] = torch.atan2(
-        (qu[mC, 0] * qu[mC, 2] + qu[mC, 1] * qu[mC, 3]) / chi[mC],
-        (qu[mC, 2] * qu[mC, 3] - qu[mC, 0] * qu[mC, 1]) / chi[mC],
-    )
+    bu_1 = torch.atan2(2 * chi, q03 - q12)
+
+    bu_2 = torch.atan2(q0 * q2 + q1 * q3, q2 * q3 - q0 * q1)
+    bu_2 = torch.where(mC, bu_2, zero)
+
+    bu = torch.stack([bu_0, bu_1, bu_2], dim=-1)
 
     # add 2pi to negative angles for first and last angles
     bu[..., 0] = torch.where(bu[..., 0] < 0, bu[..., 0] + 2 * torch.pi, bu[..., 0])
-- 
2.43.0


From 17c9abf2b1721b718c97f2cb63f21864f5e27ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 046/100] fix: qu2ro returned NaN for the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 296e550..9ce06b5 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -749,7 +749,9 @@ def qu2ro(qu: Tensor) -> Tensor:
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[..., 3] = torch.where(mask_zero, float("inf"), ro[..., 3])
-    return ro
+    # the identity has no axis, use the z axis like the other conversions
+    z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=qu.dtype, device=qu.device)
+    return torch.where(torch.isnan(ro[..., 0:1]), z_axis, ro)
 
 
 @torch.jit.script
-- 
2.43.0


From 36aa8ffa7a5e5000b1081bf04a0638c51ecd043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 047/100] fix: qu2ho modified its input

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 9ce06b5..5fa924f 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -39,7 +39,7 @@ def qu2ho(qu: Tensor) -> Tensor:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
+    angle = 2 * torch.acos(qu[..., 0:1].clamp(min=-1.0, max=1.0))
     # get the unit vector
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
-- 
2.43.0


From 55cbba291c49d5623a79fc819ad467993f902f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 048/100] fix: ho2ax_newton returned axes that are not unit
 vectors

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 5fa924f..efd62dd 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -614,7 +614,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[~mask_zero, 3] = w_newton
 
     return ax
-- 
2.43.0


From 3ec8a16f3b74a6463fd1247203a7faab425d86fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 049/100] fix: ho2ax_reference and ho2ax_newton failed for more
 than one batch dimension

---
 ebsdtorch/s2_and_so3/orientations.py | 34 ++++++++--------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index efd62dd..3e36d63 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -555,21 +555,11 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
         s += fit_parameters[i] * ho_norm_sq[..., 0] ** i
 
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
+    ax[..., :3] = ho * torch.rsqrt(ho_norm_sq)
+    ax[..., 3] = 2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0))
 
-    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-8
-    ax[rot_is_identity, 0:1] = 0.0
-    ax[rot_is_identity, 1:2] = 0.0
-    ax[rot_is_identity, 2:3] = 1.0
-
-    ax[~rot_is_identity, :3] = ho[~rot_is_identity, :] * torch.rsqrt(
-        ho_norm_sq[~rot_is_identity]
-    )
-    ax[..., 3] = torch.where(
-        ~rot_is_identity,
-        2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0)),
-        0,
-    )
-    return ax
+    z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=ho.dtype, device=ho.device)
+    return torch.where(torch.abs(ho_norm_sq) < 1e-8, z_axis, ax)
 
 
 @torch.jit.script
@@ -593,19 +583,14 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
 
     # where zero return zero
     mask_zero = h == 0
-    ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
-    ax[mask_zero, 0] = 0.0
-    ax[mask_zero, 1] = 0.0
-    ax[mask_zero, 2] = 1.0
-    ax[mask_zero, 3] = 0.0
 
     # Newton's method
     # initial guess for w given h is an inverted Pade approximation
-    w_newton = (15 - torch.sqrt(225 - 60 * h[~mask_zero] ** 2)) / h[~mask_zero]
+    w_newton = (15 - torch.sqrt(225 - 60 * h**2)) / h
 
     # Newton's method
     for _ in range(2 if h.dtype == torch.float32 else 3):
-        f_w = ((3 / 4) * (w_newton - torch.sin(w_newton))) ** (1 / 3) - h[~mask_zero]
+        f_w = ((3 / 4) * (w_newton - torch.sin(w_newton))) ** (1 / 3) - h
         f_p_w = (1 - torch.cos(w_newton)) / (
             6 ** (2 / 3) * (w_newton - torch.sin(w_newton)) ** (2 / 3)
         )
@@ -614,10 +599,9 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
-    ax[~mask_zero, 3] = w_newton
-
-    return ax
+    ax = torch.cat([ho / h.unsqueeze(-1), w_newton.unsqueeze(-1)], dim=-1)
+    z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=ho.dtype, device=ho.device)
+    return torch.where(mask_zero.unsqueeze(-1), z_axis, ax)
 
 
 @torch.jit.script
-- 
2.43.0


From d5fbb31c810d2833c42868ea3724a5c604564a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 050/100] fix: qu_slerp failed for batches and was NaN for
 identical quaternions

---
 ebsdtorch/s2_and_so3/quaternions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 0e96ff6..1fe79f2 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,16 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
-    angle = torch.acos(cos_theta)
+    cos_theta = torch.sum(a * b, dim=-1, keepdim=True)
+    # rounding can push the dot product outside of [-1, 1] which would give NaN
+    angle = torch.acos(cos_theta.clamp(-1.0, 1.0))
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    # (nearly) identical quaternions have no arc to follow so blend linearly
+    small = sin_theta.abs() < 1e-6
+    sin_safe = torch.where(small, 1.0, sin_theta)
+    w1 = torch.where(small, 1 - t, torch.sin((1 - t) * angle) / sin_safe)
+    w2 = torch.where(small, t, torch.sin(t * angle) / sin_safe)
+    return a * w1 + b * w2
 
 
 @torch.jit.script
-- 
2.43.0


From 3d861e4fc9fb7281120f88c743edd64ac0f81dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 051/100] fix: rotation between opposite points was the
 identity

---
 ebsdtorch/s2_and_so3/quaternions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 1fe79f2..719e6b1 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -266,8 +266,18 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
     out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
         cross / torch.norm(cross, dim=-1, keepdim=True)
     )
-    out[~valid, 0] = 1
-    out[~valid, 1:] = 0
+    # (nearly) parallel points do not need a rotation, opposite points need a
+    # 180 degree rotation around any axis perpendicular to them
+    dot_all = torch.sum(points_start * points_finish, dim=-1)
+    parallel = ~valid & (dot_all > 0)
+    out[parallel, 0] = 1
+    out[parallel, 1:] = 0
+    opposite = ~valid & (dot_all <= 0)
+    start = points_start[opposite]
+    least = torch.nn.functional.one_hot(torch.argmin(start.abs(), dim=-1), 3)
+    perpendicular = torch.cross(start, least.to(start.dtype), dim=-1)
+    out[opposite, 0] = 0
+    out[opposite, 1:] = perpendicular / torch.norm(perpendicular, dim=-1, keepdim=True)
     return out
 
 
-- 
2.43.0


From e9ba47a25941cf90a1dd952910ba9f8d4cc989f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 052/100] fix: factorization took Carmichael numbers for primes

---
 ebsdtorch/utils/factorize.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index ca27503..68321af 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -34,9 +34,20 @@ def FactorECM(N0):
             factors.append(x)
         return sorted(factors)
 
-    def is_probably_prime_fermat(n, trials=32):
+    def is_probably_prime_miller_rabin(n, trials=32):
+        # unlike the Fermat test this is not fooled by Carmichael numbers
+        d, s = n - 1, 0
+        while d & 1 == 0:
+            d, s = d >> 1, s + 1
         for _ in range(trials):
-            if pow(random.randint(2, n - 2), n - 1, n) != 1:
+            x = pow(random.randint(2, n - 2), d, n)
+            if x == 1:
+                continue
+            for _ in range(s):
+                if x == n - 1:
+                    break
+                x = x * x % n
+            else:
                 return False
         return True
 
@@ -99,7 +110,7 @@ def FactorECM(N0):
         if N < (1 << 16):
             return factor_trial_division(N)
 
-        if is_probably_prime_fermat(N):
+        if is_probably_prime_miller_rabin(N):
             return [N]
 
         while True:
-- 
2.43.0


From 4acb94d58734d7041a80a195c796a848cb07082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 053/100] fix: factorization of zero did not end

---
 ebsdtorch/utils/factorize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index 68321af..8c26800 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -140,6 +140,9 @@ def nearly_square_factors(n):
     close to each other. This is useful for reshaping some arrays into square
     shapes for GPU processing.
     """
+    # an empty array has no factorization (the trial division would not end)
+    if n == 0:
+        return 0, 1
     factor_a = 1
     factor_b = 1
     factors = FactorECM(n)
-- 
2.43.0


From 7939fdd8d77256c3400232c1ed827179a9801638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 054/100] fix: Oja++ with one component divided by zero

---
 ebsdtorch/utils/pca_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index 06bf3ed..e518a66 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -114,7 +114,7 @@ class OjaPCA(nn.Module):
 
         # For Oja++, gradually initialize columns
         if self.use_oja_plus and self.next_col_to_init < self.n_components:
-            if self.step % (self.n_components // 2) == 0:
+            if self.step % max(self.n_components // 2, 1) == 0:
                 self.Q[:, self.next_col_to_init] = torch.randn(
                     self.n_features, dtype=self.Q.dtype
                 )
-- 
2.43.0


From 08563ca914fa771feaed1f043cdd67f8789a5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 055/100] fix: Gaussian blur cropped images with odd sizes

---
 ebsdtorch/preprocessing/resampling.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 4089cdf..3d33a21 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -29,6 +29,8 @@ class GaussianBlur2d(Module):
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        height, width = x.shape[-2:]
+
         # apply padding
         pad = self._compute_padding(x)
         if self.reflect_padding:
@@ -40,15 +42,7 @@ class GaussianBlur2d(Module):
         x = F.conv2d(x, self.kernel, padding=0)
 
         # crop off the padding
-        h_even = x.shape[-2] % 2 == 0
-        w_even = x.shape[-1] % 2 == 0
-        x = x[
-            :,
-            :,
-            : -2 if h_even else -1,
-            : -2 if w_even else -1,
-        ]
-        return x
+        return x[:, :, :height, :width]
 
     def _get_gaussian_kernel(self) -> torch.Tensor:
         # establish the kernel size
-- 
2.43.0


From 5dbac02695cf4e8f041f0b18bffe09c50d3e3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 056/100] fix: NLPAR fit its weights to arbitrary instead of
 the 8 nearest neighbors

---
 ebsdtorch/preprocessing/nlpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 8465832..824f56d 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -93,7 +93,7 @@ def nlpar(
     # find indices of 8 nearest neighbors
     # closest point is self so we skip it
     offset_coords = offset_coords[
-        torch.argsort(torch.sum(torch.abs(offset_coords), dim=-1))
+        torch.argsort(torch.sum(offset_coords**2, dim=-1), stable=True)
     ]
 
     starts_i = k_rad + offset_coords[:, 0]
-- 
2.43.0


From a8ed8877fd362ad5cf740f8977a08874ef2c719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 057/100] fix: planar to hemisphere maps gave NaN at the center
 and hexagons left the sphere

---
 ebsdtorch/utils/rosca_lambert.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..7aa7dfc 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -48,6 +48,10 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
         * torch.cos((pi * a[~m]) / (4 * b[~m]))
     )
     output[~m, 2] = 1 - (2 * b[~m] ** 2 / pi)
+
+    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
+    center = (a == 0) & (b == 0)
+    output[center] = torch.tensor([0.0, 0.0, 1.0], dtype=pts.dtype, device=pts.device)
     return output.reshape(shape_in + (3,))
 
 
@@ -98,7 +102,13 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     x_out = x_out.copysign_(x[..., 0])
     y_out = y_out.copysign_(x[..., 1])
 
-    return torch.stack((x_out, y_out, z_out), dim=-1)
+    out = torch.stack((x_out, y_out, z_out), dim=-1)
+
+    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
+    mask = (x[..., 0] == 0) & (x[..., 1] == 0)
+    out[mask] = torch.tensor([0.0, 0.0, 1.0], dtype=x.dtype, device=x.device)
+
+    return out
 
 
 # # test speed of both functions on cuda
@@ -213,8 +223,17 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # undo original swap and apply the inverse Lambert projection of the unit disk
+    # (outside of the hexagon is mapped to z < 0)
+    r_sq = x_out**2 + y_out**2
+    scale = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    out = torch.stack((y_out * scale, x_out * scale, 1.0 - r_sq), dim=-1)
+
+    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
+    mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
+    out[mask] = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
+
+    return out
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From ae630c0c0251f9cf4610159507ece83d5d251c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 058/100] fix: disorientation angles lost the batch shape

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 2 +-
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index f52b7aa..8ab1a81 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -201,4 +201,4 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
     # rounding can push the cosine above 1.0 which would give NaN
-    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0))
+    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0)).reshape(data_shape[:-1])
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 564fd8c..c4c87f0 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -469,7 +469,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
     # rounding can push the cosine above 1.0 which would give NaN
-    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0))
+    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0)).reshape(data_shape[:-1])
 
 
 @torch.jit.script
-- 
2.43.0


From 97436b49cc300c56d6c13407d1bc4240f843201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 059/100] fix: refined homochoric conversions failed for a
 single vector

---
 ebsdtorch/s2_and_so3/orientations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 3e36d63..1de1b29 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -451,8 +451,7 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
         f_p_w = (1 - torch.cos(w)) / (6 ** (2 / 3) * (w - torch.sin(w)) ** (2 / 3))
         update = f_w / f_p_w
         # remove any nans
-        update[torch.isnan(update)] = 0
-        w -= update
+        w = w - torch.where(torch.isnan(update), 0.0, update)
     else:
         w = 2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0))
 
@@ -596,8 +595,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         )
         update = f_w / f_p_w
         # remove any nans
-        update[torch.isnan(update)] = 0
-        w_newton -= update
+        w_newton = w_newton - torch.where(torch.isnan(update), 0.0, update)
 
     ax = torch.cat([ho / h.unsqueeze(-1), w_newton.unsqueeze(-1)], dim=-1)
     z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=ho.dtype, device=ho.device)
-- 
2.43.0


From 37867fa5ad1fd73f2645a89cbbd53b4ae6f4cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 060/100] fix: Rodrigues vectors of 180 degree rotations could
 be negative and then became NaN

---
 ebsdtorch/s2_and_so3/orientations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 1de1b29..20cfbcd 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -631,7 +631,8 @@ def ax2ro(ax: Tensor) -> Tensor:
         torch.Tensor: shape (..., 4) Rodrigues-Frank (x, y, z, tan(angle/2))
     """
     ro = ax.clone()
-    ro[..., 3] = torch.tan(ax[..., 3] / 2)
+    # the angle is at most pi, rounding beyond it must not flip the sign
+    ro[..., 3] = torch.abs(torch.tan(ax[..., 3] / 2))
     return ro
 
 
@@ -727,8 +728,8 @@ def qu2ro(qu: Tensor) -> Tensor:
     )
     ro[..., 3] = torch.tan(torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0)))
 
-    # w < 1e-8 for float32 / w < 1e-10 for float64 -> infinite tan
-    eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
+    # w < 1e-7 for float32 / w < 1e-10 for float64 -> infinite tan
+    eps = 1e-7 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[..., 3] = torch.where(mask_zero, float("inf"), ro[..., 3])
     # the identity has no axis, use the z axis like the other conversions
-- 
2.43.0


From 7244df38f194cd32a769c52d19f33e21cfaa704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 061/100] fix: quaternions with negative real part converted to
 other rotations

---
 ebsdtorch/s2_and_so3/orientations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 20cfbcd..78b4fa0 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -38,6 +38,8 @@ def qu2ho(qu: Tensor) -> Tensor:
     if qu.size(-1) != 4:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
+    # q and -q are the same rotation, use the one with the smaller angle
+    qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
     # get the angle
     angle = 2 * torch.acos(qu[..., 0:1].clamp(min=-1.0, max=1.0))
     # get the unit vector
@@ -692,7 +694,8 @@ def qu2ax(qu: Tensor) -> Tensor:
     """
 
     ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
+    # the axis is flipped below when the real part is negative
+    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), max=1.0))
 
     s = torch.where(
         qu[..., 0:1] != 0,
@@ -721,6 +724,8 @@ def qu2ro(qu: Tensor) -> Tensor:
         Tensor: shape (..., 4) Rodrigues-Frank (x, y, z, tan(angle/2))
     """
     ro = torch.empty_like(qu)
+    # q and -q are the same rotation, use the one with the smaller angle
+    qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
 
     # Handle general case
     ro[..., :3] = qu[..., 1:] * torch.rsqrt(
-- 
2.43.0


From 6a163d7f7c380c2e9160332ddf5cee867bcaa3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 062/100] fix: identity quaternions with a rounded real part
 converted to NaN

---
 ebsdtorch/s2_and_so3/orientations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 78b4fa0..4f7f1da 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -46,8 +46,8 @@ def qu2ho(qu: Tensor) -> Tensor:
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
     # fix the case where the angle is zero
-    ho[(angle.squeeze(-1) < 1e-8)] = 0.0
-    return ho
+    is_identity = (angle < 1e-8) | (qu[..., 1:] == 0).all(dim=-1, keepdim=True)
+    return torch.where(is_identity, 0.0, ho)
 
 
 @torch.jit.script
@@ -707,7 +707,7 @@ def qu2ax(qu: Tensor) -> Tensor:
     ax[..., 3] = angle
 
     # fix identity quaternions to be about z axis
-    mask_identity = angle == 0.0
+    mask_identity = (angle == 0.0) | (qu[..., 1:] == 0).all(dim=-1)
     z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=qu.dtype, device=qu.device)
     return torch.where(mask_identity.unsqueeze(-1), z_axis, ax)
 
-- 
2.43.0


From edfdc9af215db72e4f38ba94dbbbaec5dbdd3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 063/100] fix: logarithm of rigid motions failed for more than
 one batch dimension

---
 ebsdtorch/lie_algebra/se3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..5dfd37e 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -435,7 +435,7 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
     omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor.unsqueeze(-1) * omegas
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
@@ -476,7 +476,7 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
     omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor.unsqueeze(-1) * omegas
 
     v_inv = w_to_v_inv(omegas)
     tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
-- 
2.43.0


From c559ba878e73dfddbae9ff13b82b05ec7038fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 064/100] fix: Wigner d tables in logspace were nan at beta = 0

---
 ebsdtorch/harmonics/wigner_d_logspace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/harmonics/wigner_d_logspace.py b/ebsdtorch/harmonics/wigner_d_logspace.py
index f279fd9..b6b0082 100644
--- a/ebsdtorch/harmonics/wigner_d_logspace.py
+++ b/ebsdtorch/harmonics/wigner_d_logspace.py
@@ -150,6 +150,10 @@ def log_powers_trig_half_beta(
     # Compute the powers
     cos_powers = powers * math.log(math.cos(beta / 2.0))
     sin_powers = powers * math.log(math.sin(beta / 2.0))
+
+    # anything to the power of zero is one (0 * -inf is nan)
+    cos_powers[:1] = 0.0
+    sin_powers[:1] = 0.0
     return cos_powers, sin_powers
 
 
-- 
2.43.0


From 081cfe2bcf579879fac6b70cd46d0a3fa442a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 065/100] fix: x-number sums dropped the term one exponent
 below (the pivot underflowed in FP32)

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 8973db9..b4d6948 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -66,8 +66,8 @@ def xnum_to_fp(x_num: Tuple[Tensor, Tensor]) -> torch.Tensor:
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIG = 2.0**IND
-    BIGI = 2.0 ** (-IND)
+    BIG = torch.pow(2.0, IND.double())
+    BIGI = torch.pow(2.0, -IND.double())
     return torch.where(ix == 0, x, torch.where(ix < 0, x * BIGI, x * BIG))
 
 
@@ -96,7 +96,7 @@ def xnum_sum(
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIGI = 2.0 ** (-IND)
+    BIGI = torch.pow(2.0, -IND.double())
 
     id = ix - iy
     z = torch.where(
-- 
2.43.0


From 5bd8585cb585922075c001c82bd5430c6b561ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 066/100] fix: x-number Wigner d was nan at beta = 0 and used
 the pi/2 seeds at beta = pi

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index b4d6948..e6b76a1 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -155,7 +155,7 @@ def trig_powers_xnum(
 
     # log2 of magnitude of cos(beta/2) and sin(beta/2)
     lmch = torch.log2(torch.abs(ch))
-    lmsh = torch.log2(torch.abs(sh))
+    lmsh = torch.log2(torch.where(sh == 0.0, torch.ones_like(sh), torch.abs(sh)))
 
     lmch_sign = torch.sign(lmch)
     lmsh_sign = torch.sign(lmsh)
@@ -176,6 +176,11 @@ def trig_powers_xnum(
     cos_powers_x = torch.pow(2.0, log_cos_powers_x * lmch_sign)
     sin_powers_x = torch.pow(2.0, log_sin_powers_x * lmsh_sign)
 
+    # sin(beta/2) is zero at beta = 0 and only its zeroth power is not
+    sin_powers_x = torch.where(
+        (sh == 0.0) & (powers > 0), torch.zeros_like(sin_powers_x), sin_powers_x
+    )
+
     # call x_norm to normalize the x-numbers
     cos_powers_x, cos_powers_x_i = xnum_norm((cos_powers_x, cos_powers_x_i))
     sin_powers_x, sin_powers_x_i = xnum_norm((sin_powers_x, sin_powers_x_i))
@@ -325,7 +330,7 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
-    if beta.item() == torch.pi:
+    if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
             torch.exp(
                 0.5
-- 
2.43.0


From 87ee34143c0167ba4d61777857784f29c7757e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 067/100] fix: x-number Wigner d seeds overflowed FP64 above
 degree 1000

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 40 +++++++++++++++-------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index e6b76a1..5548bbb 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -330,34 +330,36 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
+    # e_mn overflows FP64 for large m, so it is an x-number as well
+    log2_e_mn = (
+        0.5
+        * (
+            torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
+            - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
+            - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
+        )
+        / math.log(2.0)
+    )
+    e_mn_i = torch.floor(log2_e_mn / 460)
+    e_mn, e_mn_i = xnum_norm(
+        (torch.pow(2.0, log2_e_mn - 460 * e_mn_i), e_mn_i.to(torch.int32))
+    )
     if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
-            )
-            * half_power_xnum[0][mmn_coords[:, 1]]
+            e_mn * half_power_xnum[0][mmn_coords[:, 1]]
+        )
+        wigner_xnum[1][first_seed_indices] = (
+            e_mn_i + half_power_xnum[1][mmn_coords[:, 1]]
         )
-        wigner_xnum[1][first_seed_indices] = half_power_xnum[1][mmn_coords[:, 1]]
     else:
         wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
-            )
+            e_mn
             * cos_powers_xnum[0][mmn_coords[:, 1] + mmn_coords[:, 2]]
             * sin_powers_xnum[0][mmn_coords[:, 1] - mmn_coords[:, 2]]
         )
         wigner_xnum[1][first_seed_indices] = (
-            cos_powers_xnum[1][mmn_coords[:, 1] + mmn_coords[:, 2]]
+            e_mn_i
+            + cos_powers_xnum[1][mmn_coords[:, 1] + mmn_coords[:, 2]]
             + sin_powers_xnum[1][mmn_coords[:, 1] - mmn_coords[:, 2]]
         )
 
-- 
2.43.0


From 539a2d411d207dba018a71698552de9807217138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 068/100] fix: fast spherical cross correlation left out the
 negative orders

---
 ebsdtorch/harmonics/sht_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht_cc.py b/ebsdtorch/harmonics/sht_cc.py
index 554eae0..5388d27 100644
--- a/ebsdtorch/harmonics/sht_cc.py
+++ b/ebsdtorch/harmonics/sht_cc.py
@@ -202,11 +202,11 @@ def rs2cc_fast_(
     )
 
     f_lmkb = torch.einsum("lmk,bml->blmk", d_lmk[:, (B - 1) :, :], f)
-    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk[:, :, (B - 1) :], g.conj())
+    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk, g_n_aug)
     cc = torch.einsum("blmk,blkn->bmkn", f_lmkb, g_lknb)
 
     # Need to do fftshift so that the low frequencies are at the periphery
-    cc = ifftshift(cc, dim=(-2))
+    cc = ifftshift(cc, dim=(-1, -2))
 
     # dim=(..., -3) means the half dimension is the -3 dimension (m)
     cc = irfftn(cc, s=(2 * B - 1,) * 3, dim=(-1, -2, -3), norm="forward")
-- 
2.43.0


From 357f33574a63f627d9fd38017176c6dc48f4f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 069/100] fix: rhombohedral to hexagonal conversion took
 radians for degrees and left the cell inconsistent

---
 ebsdtorch/crystallography/unit_cell.py | 41 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 83bdaac..0b44f7b 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -790,32 +790,39 @@ class Cell:
         Convert lattice parameters and atom coordinates to the hexagonal unit cell.
         We use the obverse setting in all cases.
         """
-        # Convert lattice parameters to hexagonal
-        calpha = torch.cos(self.alpha * torch.pi / 180.0)
-        ar = self.a
-
-        self.alpha = torch.tensor(90.0, device=self.device)
-        self.beta = torch.tensor(90.0, device=self.device)
-        self.gamma = torch.tensor(120.0, device=self.device)
-        self.a = ar * torch.sqrt(torch.tensor(2.0, device=self.device) - 2.0 * calpha)
-        self.b = self.a
-        self.c = ar * torch.sqrt(torch.tensor(3.0, device=self.device) + 6.0 * calpha)
+        # Convert lattice parameters to hexagonal (alpha is in radians)
+        calpha = torch.cos(self.alpha)
+        a_hex = (self.a * torch.sqrt(2.0 - 2.0 * calpha)).item()
+        c_hex = (self.a * torch.sqrt(3.0 + 6.0 * calpha)).item()
 
         # Transform matrix
         M = torch.tensor(
             [
-                [2.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0],
+                [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
             ],
             device=self.device,
+            dtype=torch.float64,
         )
 
         # Transform atom coordinates
-        for i in range(self.atom_ntype):
-            pos = self.atom_data[i, :3].clone()
-            pos = torch.matmul(M, pos)
-            self.atom_data[i, :3] = pos
+        atom_data = self.atom_data.to(torch.float64)
+        atom_data = torch.cat([atom_data[:, :3] @ M.T, atom_data[:, 3:]], dim=-1)
+
+        # everything else follows from the new lattice parameters and coordinates
+        self.__init__(
+            self.sg_num,
+            [(z, *row) for z, row in zip(self.atom_types.tolist(), atom_data.tolist())],
+            (a_hex, a_hex, c_hex),
+            "nm",
+            (90.0, 90.0, 120.0),
+            "deg",
+            self.sg_setting,
+            self.xtalname,
+            self.source,
+            self.device,
+        )
 
     def is_g_allowed(self, g: torch.Tensor) -> bool:
         """Determine whether a reflection is allowed by lattice centering.
-- 
2.43.0


From 2935186025803d24a638c2b277a1364805bb8981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 070/100] fix: cross products of a cell ignored or refused the
 output space

---
 ebsdtorch/crystallography/unit_cell.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 0b44f7b..37728c8 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -754,16 +754,20 @@ class Cell:
             r = vl * torch.cross(p, q, dim=-1)
             if outspace == "d":
                 return torch.einsum("...i,ij->...j", r, self.rmt)
+            elif outspace == "r":
+                return r
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.rsm, r)
         elif inspace == "r":
             r = torch.cross(p, q, dim=-1) / vl
             if outspace == "r":
                 return torch.einsum("...i,ij->...j", r, self.dmt)
+            elif outspace == "d":
+                return r
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.dsm, r)
-        elif inspace == "c":
-            return torch.cross(p, q, dim=-1)
+        elif inspace == "c" and outspace in ("d", "r", "c"):
+            return self.transform_space(torch.cross(p, q, dim=-1), "c", outspace)
 
         raise ValueError(f"Invalid space transformation: from {inspace} to {outspace}")
 
-- 
2.43.0


From b824aaa3e594a96de8213caf5ce3f1e009f41848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 071/100] fix: hybrid scattering factors were evaluated at 2 pi
 times the scattering vector

---
 ebsdtorch/crystallography/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index c75ac2d..09d90d4 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -286,7 +286,7 @@ def calc_helper_bloch_formalism(
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=0.1 * g_unique.float(),  # the hybrid applies the 2pi prefactor itself
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
@@ -498,7 +498,7 @@ def calc_helper_scatter_matrix(
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=0.1 * g_unique.float(),  # the hybrid applies the 2pi prefactor itself
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
-- 
2.43.0


From bec3f59f2fc16d345114f8d1124eb1effa01f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 072/100] fix: the absorption term of the diagonal was complex
 without absorption

---
 ebsdtorch/crystallography/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index 09d90d4..4a1ea3a 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -339,7 +339,7 @@ def calc_helper_bloch_formalism(
         # complex Ucg = U_g + i Uprime_g = U_g,r-Uprime_g,i + i(U_g,i+Uprime_g,r)
         ucg = pre * torch.complex(ff.real - gg.imag, ff.imag + gg.real)
     else:
-        upmod = torch.zeros_like(ff)
+        upmod = torch.zeros_like(vmod)
         ucg = pre * ff
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
@@ -552,7 +552,7 @@ def calc_helper_scatter_matrix(
         upmod = preg * pref * torch.abs(gg)
     else:
         vpphase = torch.zeros_like(ff)
-        upmod = torch.zeros_like(ff)
+        upmod = torch.zeros_like(vmod)
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
     # I don't want it to be an attribute of the cell object because it is defined
-- 
2.43.0


From 2330ed3372cc47e5aaab2116d685550c3290ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 073/100] fix: master patterns of several voltages or of double
 precision cells failed

---
 ebsdtorch/crystallography/ebsd_master.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 02f248a..d6cb616 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -278,7 +278,12 @@ def ebsd_master_pattern(
             # form exp_A exactly instead of composing it via Zassenhaus
             A = (
                 dynmat_V[v]
-                + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000))
+                + torch.diag_embed(
+                    torch.complex(
+                        (2.0 * sg / mlambdas[v]).to(upmod_000.dtype),
+                        upmod_000[v].expand_as(sg),
+                    )
+                )
             ) * (1j * torch.pi * mlambdas[v])
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
-- 
2.43.0


From 463682d05d7a5669d7d9e76e6baa469c7f589c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 074/100] fix: the depth step of the master pattern was ignored

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index d6cb616..154d261 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -284,7 +284,7 @@ def ebsd_master_pattern(
                         upmod_000[v].expand_as(sg),
                     )
                 )
-            ) * (1j * torch.pi * mlambdas[v])
+            ) * (1j * torch.pi * mlambdas[v] * depth_step)
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
             # Initialize accumulated Lgh matrix
-- 
2.43.0


From 56233da7f63154bd86d0249e7abfff778df03873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 075/100] fix: the master pattern normalised the Monte Carlo
 weights of its caller in place

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 154d261..b99f205 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -248,7 +248,7 @@ def ebsd_master_pattern(
     hkl_valid_fp = hkl_valid.to(kvectors.dtype)
 
     # normalize mc weights
-    mc_weights /= mc_weights.sum()
+    mc_weights = mc_weights / mc_weights.sum()
 
     # get depths_95 from the Monte Carlo weights
     energy_marginals_1d = mc_weights / mc_weights.sum(dim=1, keepdim=True)
-- 
2.43.0


From ae79c64742a6a636c5f1f468dbd1540ade6516ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:17 +0000
Subject: [PATCH 076/100] fix: scattering matrix entries failed for voltages in
 double precision

---
 ebsdtorch/crystallography/diffraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index 4a1ea3a..9fd447b 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -642,7 +642,7 @@ def calc_helper_scatter_matrix(
 
     # now we know the indices of the valid reflection differences in the
     # unfiltered table. table sparsity is not ideal here.
-    qg_table[:, hkl_diff_valid_indices] = qg
+    qg_table[:, hkl_diff_valid_indices] = qg.to(qg_table.dtype)
 
     # now we use the table to fill a difference tensor using tensor indexing
     hkl_diff_outer_indices = (
-- 
2.43.0


From 30d445a0db707345b1e503ae4670081c8d8a2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:03 +0000
Subject: [PATCH 077/100] fix: LVD absorptive factors mixed up voltages and
 scattering vectors

---
 .../scattering_factors/scattering_factors_LVD_TCB.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index c40e1ca..7b042ca 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -378,6 +378,7 @@ def scatter_factor_LVD(
 
     # Calculate wavelength for each voltage
     k0 = 2.0 * torch.pi / e_wavelength_eV_to_A(1000.0 * voltage_kV)  # [N_V]
+    k0 = k0.view(N_V, 1, 1)
 
     # compute DWF
     dwf = torch.exp(-M_vals.view(-1, 1) * S.view(1, -1) ** 2).view(1, N_Z, N_g)
-- 
2.43.0


From 70e1660135642932053605b4e3b0099dcab0245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 078/100] fix: RIH2 interpolated its table, spaced by 0.005 in
 1/x, with a spacing of 0.0005

---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index e10c00a..0668448 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -708,7 +708,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index fd4b1f5..9746f27 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -542,7 +542,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
-- 
2.43.0


From f19d8aab2f6fa1626079ce879093658fcc5275b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 079/100] fix: grid refinement failed with its default
 match_dtype (half precision scores stored in single precision)

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 73c870d..613d896 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -222,7 +222,7 @@ def orientation_grid_refinement(
                 best_dots, best_indices = torch.max(dot_products, dim=-1)
 
                 # update the dots
-                dots[indices_batch, j] = best_dots
+                dots[indices_batch, j] = best_dots.to(dots.dtype)
 
                 # update center of the grid
                 qu_current = qu_augmented[
-- 
2.43.0


From df38231c3e73a82a8ebdb9abd1a8d0a8408a012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 080/100] fix: refinement failed when a phase was not assigned
 to any pattern

---
 ebsdtorch/ebsd/refining.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 613d896..34135bf 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -133,7 +133,8 @@ def orientation_grid_refinement(
     for i, indices in enumerate(phase_indices):
         mp = master_patterns[i]
         pb = progressbar(
-            list(torch.split(indices, batch_size)),
+            # a phase that was not found anywhere has nothing to refine
+            list(torch.split(indices, batch_size)) if len(indices) > 0 else [],
             prefix=f"REFINE MP {i+1:01d}/{len(master_patterns):01d} ",
         )
 
@@ -294,7 +295,8 @@ def orientation_grad_refinement(
     for i, indices in enumerate(phase_indices):
         mp = master_patterns[i]
         pb = progressbar(
-            list(torch.split(indices, batch_size)),
+            # a phase that was not found anywhere has nothing to refine
+            list(torch.split(indices, batch_size)) if len(indices) > 0 else [],
             prefix=f"REFINE MP {i+1:01d}/{len(master_patterns):01d} ",
         )
         for indices_batch in pb:
-- 
2.43.0


From 2995a6f2f8ba2051add6e844cee14e8d2fd5529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 081/100] fix: downsampling lost a row where the rounded
 reciprocal of the factor is small

---
 ebsdtorch/preprocessing/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 3d33a21..a67c2ce 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -107,7 +107,7 @@ class BlurAndDownsample(Module):
         blurred = self.gb(x)
         return F.interpolate(
             blurred,
-            size=(int(H * self.downscale), int(W * self.downscale)),
+            size=(int(H / self.scale_factor), int(W / self.scale_factor)),
             mode=self.mode,
             align_corners=self.align_corners,
         )
-- 
2.43.0


From 5f5bce56f049036ff9589d5aae9fa94676d8de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 082/100] fix: CLAHE handed out a spurious count when the pixel
 counts were not whole numbers

---
 ebsdtorch/preprocessing/clahe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index fb5609d..7f31cd6 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -76,7 +76,7 @@ def clahe_grayscale(
     )
     pdf = pdf / pdf.sum(dim=-1, keepdim=True)
     # pdf is handled in pixel counts for OpenCV equivalence
-    histos = (pdf * voxels_per_tile).view(-1, n_bins)
+    histos = torch.round(pdf * voxels_per_tile).view(-1, n_bins)
     if clip_limit > 0:
         # calc limit
         limit = max(clip_limit * voxels_per_tile // n_bins, 1)
-- 
2.43.0


From c2777292b9c4371c55e5279f29dee16f76de2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 083/100] fix: progress bar ended its line on standard output
 whatever its destination

---
 ebsdtorch/utils/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/progressbar.py b/ebsdtorch/utils/progressbar.py
index 4d7b34c..f3a8254 100644
--- a/ebsdtorch/utils/progressbar.py
+++ b/ebsdtorch/utils/progressbar.py
@@ -53,4 +53,4 @@ def progressbar(it, prefix="", prefix_min_length=15, size=60, out=sys.stdout):
             file=out,
             flush=True,
         )
-    print("\n")
+    print("\n", file=out)
-- 
2.43.0


From 9b3556d7dd1d59432cfc2c56ffb8f562346979f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 084/100] fix: NLPAR returned NaN for a whole scan with two
 identical neighbors

---
 ebsdtorch/preprocessing/nlpar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 824f56d..ded3ef7 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -116,8 +116,10 @@ def nlpar(
         ]
 
     # estimate the noise level for the entire scan
+    # identical neighbors would give zero noise and undefined distances
     sigma_hat = torch.sqrt(
-        torch.min(dists[:, :, 1:9], dim=-1).values / (2 * n_pixels_per_pat)
+        torch.min(dists[:, :, 1:9], dim=-1).values.clamp_min(1e-8)
+        / (2 * n_pixels_per_pat)
     )
     # pad sigma_hat so we can use offsets
     sigma_hat_padded = torch.nn.functional.pad(
-- 
2.43.0


From 75586312f6759e2ace449c23669a21e4f7911248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 085/100] fix: NLPAR returned NaN when its weight objective was
 flat

---
 ebsdtorch/preprocessing/nlpar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index ded3ef7..05754e8 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -169,6 +169,9 @@ def nlpar(
                 * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
             )
         )
+        # the objective is flat when the weights no longer depend on the coefficient
+        if grad == 0:
+            break
         guess_coeff -= obj / grad
         if torch.abs(obj) < coeff_fit_tol:
             break
-- 
2.43.0


From 40841d634a9936a9791d4d86d8084c0c3df20aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:42 +0000
Subject: [PATCH 086/100] fix: reading master patterns of several atom sites
 failed

---
 ebsdtorch/io/read_master_pattern.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/io/read_master_pattern.py b/ebsdtorch/io/read_master_pattern.py
index afc9377..9b94f00 100644
--- a/ebsdtorch/io/read_master_pattern.py
+++ b/ebsdtorch/io/read_master_pattern.py
@@ -21,13 +21,14 @@ def read_master_pattern(file_path) -> MasterPattern:
 
         # load in the actual master patterns per energy
         # mLPNH = modified Lambert projection of North hemisphere
-        # this will be (1, n_energies, H, W) shaped
-        north_master_patterns = (
-            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32).squeeze()
-        )
-        south_master_patterns = (
-            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32).squeeze()
-        )
+        # this will be (n_sites, n_energies, H, W) shaped, one set per atom site
+        north_master_patterns = f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32)
+        south_master_patterns = f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32)
+
+        # the total pattern is the sum over the atom sites
+        if north_master_patterns.ndim == 4:
+            north_master_patterns = north_master_patterns.sum(axis=0)
+            south_master_patterns = south_master_patterns.sum(axis=0)
 
         # load the space group number to have the Laue group
         space_group = f["CrystalData/SpaceGroupNumber"][0]
-- 
2.43.0


From f0b80a3ef79b2075b5e41106f36c4bf75af1b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:17 +0000
Subject: [PATCH 087/100] fix: pattern center fitter returned the first
 orientation for negative scores

---
 ebsdtorch/ebsd/fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 096c007..6b0da26 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -421,8 +421,11 @@ def spatial_fft_pc_fitter(
 
     pc_z_vals = torch.linspace(pc_z_min, pc_z_max, pc_z_steps, device=patterns.device)
 
-    best_dots = torch.zeros(
-        (pc_z_steps, B, padded_shape[0], padded_shape[1]), device=patterns.device
+    # zero mean patterns can have negative scores only
+    best_dots = torch.full(
+        (pc_z_steps, B, padded_shape[0], padded_shape[1]),
+        -float("inf"),
+        device=patterns.device,
     )
     best_orientations = torch.zeros(
         (pc_z_steps, B, padded_shape[0], padded_shape[1]),
-- 
2.43.0


From 1f79f33cb3d1f45cec6a02f7a36ab834e3526f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:17 +0000
Subject: [PATCH 088/100] fix: pattern center fitter left the limits of the
 search

---
 ebsdtorch/ebsd/fitting.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 6b0da26..bd54eb4 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -518,6 +518,16 @@ def spatial_fft_pc_fitter(
     # Average over batch of experimental patterns
     avg_best_dots = best_dots.mean(dim=1)
 
+    # shifts beyond the padding wrap around and lie outside of the limits
+    mid_y, mid_x = padded_shape[0] // 2, padded_shape[1] // 2
+    outside = torch.ones_like(avg_best_dots, dtype=torch.bool)
+    outside[
+        :,
+        mid_y - padding[2] : mid_y + padding[3] + 1,
+        mid_x - padding[0] : mid_x + padding[1] + 1,
+    ] = False
+    avg_best_dots = avg_best_dots.masked_fill(outside, -float("inf"))
+
     # Find global maximum
     best_z_idx, best_y_idx, best_x_idx = torch.unravel_index(
         avg_best_dots.argmax(), avg_best_dots.shape
-- 
2.43.0


From 2bed64be81dc740eaef3b82f278d6e7396f4187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:44 +0000
Subject: [PATCH 089/100] fix: polar coordinates of batches with several
 dimensions were mixed up

---
 ebsdtorch/s2_and_so3/sphere.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 7dd9f83..8d7a758 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -32,7 +32,7 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
             torch.sin(theta) * torch.sin(phi),
             torch.cos(theta),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -51,10 +51,10 @@ def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
-- 
2.43.0


From 108bd3c91edd4dd76e9f3fc47c49dd04295981f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:39 +0000
Subject: [PATCH 090/100] fix: NLPAR took padding for neighbors at the edges of
 the scan

---
 ebsdtorch/preprocessing/nlpar.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 05754e8..9c0b37b 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -116,9 +116,13 @@ def nlpar(
         ]
 
     # estimate the noise level for the entire scan
+    # padded values are not neighbors (a lone pattern keeps a large finite noise)
     # identical neighbors would give zero noise and undefined distances
+    nn_out_bounds = out_bounds_mask_all[:, :, :9]
     sigma_hat = torch.sqrt(
-        torch.min(dists[:, :, 1:9], dim=-1).values.clamp_min(1e-8)
+        torch.min(
+            dists[:, :, 1:9].masked_fill(nn_out_bounds[:, :, 1:], 1e30), dim=-1
+        ).values.clamp_min(1e-8)
         / (2 * n_pixels_per_pat)
     )
     # pad sigma_hat so we can use offsets
@@ -146,7 +150,7 @@ def nlpar(
     # x = x - f / f'
     # The current implementation uses Nelder-Mead optimization to find the coefficient
     guess_coeff = 1.0
-    nn_weights = weights[:, :, :9]
+    nn_weights = weights[:, :, :9].masked_fill(nn_out_bounds, -1e9)
     for _ in range(10):
         # notice that guess_coeff_sq is only calculated at the beginning
         guess_coeff_sq = guess_coeff**2
-- 
2.43.0


From 20eb8472f5d30d4a0e61d8656fc8a7180111a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:12 +0000
Subject: [PATCH 091/100] fix: cross mutual information with constant marginals
 failed or mixed two binnings

---
 ebsdtorch/utils/mutual_information.py | 59 +++++++--------------------
 1 file changed, 14 insertions(+), 45 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index a62b586..dd0a55b 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -415,20 +415,13 @@ def cmif(
     if bins_src > 8 or bins_dst > 8:
         if constant_marginal:
             # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src).byte()
-            dst_discrete = (bins_dst * images_dst).byte()
-
-            # calculate the marginal histograms
-            marg_hists_dst = torch.histc(
-                dst_discrete[src_ind].float(), bins=bins_dst, min=0, max=bins_dst - 1
-            )
-            marg_hists_src = torch.histc(
-                src_discrete[dst_ind].float(), bins=bins_src, min=0, max=bins_src - 1
-            )
+            # (the levels of the joint histogram, so that both have the same bins)
+            marg_hists_dst = dst_levels[:, 1:].float().sum(dim=(-2, -1))
+            marg_hists_src = src_levels[:, 1:].float().sum(dim=(-2, -1))
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum()
-            marg_hists_dst /= marg_hists_dst.sum()
+            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -443,8 +436,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p)
-            ent_dst = -torch.sum(marg_dst_p_log_p)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
 
         else:
             # first compute the marginal histograms
@@ -523,34 +516,9 @@ def cmif(
     else:
         if constant_marginal:
             # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src * 0.99999).long()
-            dst_discrete = (bins_dst * images_dst * 0.99999).long()
-
-            # have to use scatter instead
-            marg_hists_dst = torch.zeros(
-                images_dst.shape[0], bins_dst, device=images_dst.device
-            )
-            marg_hists_src = torch.zeros(
-                images_src.shape[0], bins_src, device=images_src.device
-            )
-
-            # reshape to be (B, n_bins, -1)
-            src_discrete = src_discrete.view(-1, h1 * w1)
-            dst_discrete = dst_discrete.view(-1, h1 * w1)
-
-            # scatter the joint histogram
-            marg_hists_dst = marg_hists_dst.scatter_(
-                -1,
-                dst_discrete,
-                1,
-                reduce="add",
-            )
-            marg_hists_src = marg_hists_src.scatter_(
-                -1,
-                src_discrete,
-                1,
-                reduce="add",
-            )
+            # (the levels of the joint histogram, so that both have the same bins)
+            marg_hists_dst = dst_levels[:, 1:].float().sum(dim=(-2, -1))
+            marg_hists_src = src_levels[:, 1:].float().sum(dim=(-2, -1))
 
             # normalize the marginal histograms
             marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
@@ -652,9 +620,10 @@ def cmif(
 
     # mutual information is the sum of the marginal entropies minus the joint entropy
     if constant_marginal:
-        mi = ent_dst[:, None, None, None] + ent_src[None, :, None, None] - ent_joint
-    else:
-        mi = ent_dst + ent_src - ent_joint
+        # one entropy per image, for every pair of images and every shift
+        ent_dst = ent_dst[:, None, None, None]
+        ent_src = ent_src[None, :, None, None]
+    mi = ent_dst + ent_src - ent_joint
 
     # replace any NaNs or Infs or Negatives with zeros
     mi[torch.isnan(mi) | torch.isinf(mi) | (mi < 0.0)] = 0.0
-- 
2.43.0


From 5e8901c8b666cc71646e2a275d258e965f2a48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:42 +0000
Subject: [PATCH 092/100] fix: cross mutual information counted pixels outside
 of the foreground

---
 ebsdtorch/utils/mutual_information.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index dd0a55b..ae013b3 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -404,8 +404,9 @@ def cmif(
         src_ind = src_ind.view(-1, 1, h1, w1)
 
     # add the indicator images to the beginning of the levels
-    dst_levels = torch.cat((dst_ind, dst_levels), dim=1)
-    src_levels = torch.cat((src_ind, src_levels), dim=1)
+    # (pixels outside of the indicated foreground belong to no level)
+    dst_levels = torch.cat((dst_ind, dst_levels * dst_ind), dim=1)
+    src_levels = torch.cat((src_ind, src_levels * src_ind), dim=1)
 
     # calculate the 2D FFT of the indicator images
     dst_levels_fft = rfft2(dst_levels.float())
-- 
2.43.0


From 9813d333c82af4b4d4144564b5522dd364a13a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:59 +0000
Subject: [PATCH 093/100] fix: ho2ax drops rotations below 0.1 degrees

---
 ebsdtorch/s2_and_so3/orientations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 4f7f1da..6c2d0a1 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -464,7 +464,8 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
         ],
         dim=-1,
     )
-    rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
+    # only no rotation at all has no axis (1e-6 would drop rotations of 0.1 degrees)
+    rot_is_identity = (ho_norm_sq == 0) | (w == 0)
     # set the identity rotation
     z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=ho.dtype, device=ho.device)
     return torch.where(rot_is_identity.unsqueeze(-1), z_axis, ax)
-- 
2.43.0


From be480168cb50a6f3cbfdb1ad3adf4934652f98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:59 +0000
Subject: [PATCH 094/100] fix: rotations between directions less than 0.08
 degrees apart are lost, batches fail

---
 ebsdtorch/s2_and_so3/quaternions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 719e6b1..d16ac1e 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -248,8 +248,15 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         The quaternions, as tensor of shape (..., 4).
 
     """
-    # determine mask for numerical stability
-    valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999
+    batch_shape = points_start.shape[:-1]
+    points_start = points_start.reshape(-1, 3)
+    points_finish = points_finish.reshape(-1, 3)
+    # the cross product of (nearly) opposite points is too short to be an axis,
+    # that of points beside each other only when it vanishes
+    cross_len = torch.norm(torch.cross(points_start, points_finish, dim=-1), dim=-1)
+    beside = torch.sum(points_start * points_finish, dim=-1) > 0
+    eps = 1e-3 if points_start.dtype == torch.float32 else 1e-8
+    valid = (cross_len > eps) | (beside & (cross_len > 0))
     # get the cross product of the two sets of points
     cross = torch.cross(points_start[valid], points_finish[valid], dim=-1)
     # get the dot product of the two sets of points
@@ -266,7 +273,7 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
     out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
         cross / torch.norm(cross, dim=-1, keepdim=True)
     )
-    # (nearly) parallel points do not need a rotation, opposite points need a
+    # parallel points do not need a rotation, opposite points need a
     # 180 degree rotation around any axis perpendicular to them
     dot_all = torch.sum(points_start * points_finish, dim=-1)
     parallel = ~valid & (dot_all > 0)
@@ -278,7 +285,7 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
     perpendicular = torch.cross(start, least.to(start.dtype), dim=-1)
     out[opposite, 0] = 0
     out[opposite, 1:] = perpendicular / torch.norm(perpendicular, dim=-1, keepdim=True)
-    return out
+    return out.reshape(batch_shape + [4])
 
 
 @torch.jit.script
-- 
2.43.0


From 247d0719de6586db828b9c0e567a3e30379dd153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:59 +0000
Subject: [PATCH 095/100] fix: logarithmic mean of nearly equal entropies is
 lost in rounding

---
 ebsdtorch/utils/mutual_information.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index ae013b3..6dbe625 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -237,10 +237,11 @@ def binned_nmi(
     elif norm_mode == "Strehl-Ghosh":  # divide by marginal geometric mean
         nmi = mi / torch.sqrt(ent_x * ent_y)
     elif norm_mode == "Logarithmic":  # divide by marginal log mean
-        # handle case if ent_src and ent_dst are the same
+        # if the entropies are (nearly) the same their logarithmic mean is lost in
+        # rounding and their arithmetic mean equals it
         nmi = mi / torch.where(
-            (ent_x - ent_y).abs() < 1e-6,
-            ent_y,
+            (ent_x - ent_y).abs() <= 1e-3 * (ent_x + ent_y),
+            0.5 * (ent_x + ent_y),
             (ent_x - ent_y) / (torch.log(ent_x) - torch.log(ent_y)),
         )
     else:
@@ -643,10 +644,11 @@ def cmif(
     elif norm_mode == "Strehl-Ghosh":  # divide by marginal geometric mean
         nmi = mi / torch.sqrt(ent_src * ent_dst)
     elif norm_mode == "Logarithmic":  # divide by marginal log mean
-        # handle case if ent_src and ent_dst are the same
+        # if the entropies are (nearly) the same their logarithmic mean is lost in
+        # rounding and their arithmetic mean equals it
         nmi = mi / torch.where(
-            (ent_src - ent_dst).abs() < 1e-6,
-            ent_dst,
+            (ent_src - ent_dst).abs() <= 1e-3 * (ent_src + ent_dst),
+            0.5 * (ent_src + ent_dst),
             (ent_src - ent_dst) / (torch.log(ent_src) - torch.log(ent_dst)),
         )
     else:
-- 
2.43.0


From 0a616e50274fe8fcd0d0faffb9bd15a61ae3340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:44 +0000
Subject: [PATCH 096/100] fix: covariance of offset data is lost in rounding of
 the first batch

---
 ebsdtorch/utils/pca_covmat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/pca_covmat.py b/ebsdtorch/utils/pca_covmat.py
index a79f621..be7dffd 100644
--- a/ebsdtorch/utils/pca_covmat.py
+++ b/ebsdtorch/utils/pca_covmat.py
@@ -77,8 +77,10 @@ def update_covmat(
     # update the global mean
     new_mean = (current_mean * current_obs + batch_mean * N) / (current_obs + N)
 
-    # compute the deltas
-    delta = data_new.to(delta_dtype) - (current_mean).to(delta_dtype)
+    # compute the deltas (the first batch has no earlier mean: relative to zero,
+    # rounding would grow with the square of the mean)
+    old_mean = torch.where(current_obs > 0, current_mean, batch_mean)
+    delta = data_new.to(delta_dtype) - (old_mean).to(delta_dtype)
     delta_prime = data_new.to(delta_dtype) - (new_mean).to(delta_dtype)
 
     # update the running covariance matrix
-- 
2.43.0


From 39a4e4df0c6bca78c3d7c17dbea79c7dfc3d5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:44 +0000
Subject: [PATCH 097/100] fix: homochoric vectors below 0.04 degrees of
 rotation lost in single precision

---
 ebsdtorch/s2_and_so3/orientations.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 6c2d0a1..f6726fe 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -442,20 +442,21 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
 
     ho_norm_sq = torch.sum(ho**2, dim=-1, keepdim=False)
     # makes out of memory error doing all at once
+    # one minus the cosine (the first term is one), so that small angles do not
+    # cancel: arccos near one loses rotations below 0.04 degrees in FP32
     s = torch.zeros_like(ho_norm_sq)
-    for i in range(len(fit_parameters)):
-        s += fit_parameters[i] * ho_norm_sq**i
+    for i in range(1, len(fit_parameters)):
+        s -= fit_parameters[i] * ho_norm_sq**i
+    s = torch.clamp(s, 0.0, 2.0)
+    w = 2.0 * torch.atan2(torch.sqrt(s * (2.0 - s)), 1.0 - s)
 
     if ho.dtype == torch.float64 and not fast:
-        w = 2 * torch.arccos(torch.clamp(s, -1.0, 1.0))
         # do 1 iteration of Newton's method
         f_w = ((3 / 4) * (w - torch.sin(w))) ** (1 / 3) - torch.sqrt(ho_norm_sq)
         f_p_w = (1 - torch.cos(w)) / (6 ** (2 / 3) * (w - torch.sin(w)) ** (2 / 3))
         update = f_w / f_p_w
         # remove any nans
         w = w - torch.where(torch.isnan(update), 0.0, update)
-    else:
-        w = 2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0))
 
     ax = torch.concat(
         [
-- 
2.43.0


From a8ac763770c95a8cb5fd6b8d07566d618ef021c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:34 +0000
Subject: [PATCH 098/100] fix: small rotations lose their angle in single
 precision conversions

---
 ebsdtorch/s2_and_so3/orientations.py | 61 +++++++++++++++++++---------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index f6726fe..8de9870 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -24,6 +24,28 @@ import torch
 from torch import Tensor
 
 
+@torch.jit.script
+def _angle_minus_sine(w: Tensor) -> Tensor:
+    """
+    The angle minus its sine, by its series for small angles, where the
+    difference of the two is lost in rounding.
+
+    Args:
+        w: Angles in radians.
+
+    Returns:
+        w - sin(w)
+
+    """
+    w_sq = w**2
+    series = 1.0 - w_sq / 156.0
+    series = 1.0 - w_sq / 110.0 * series
+    series = 1.0 - w_sq / 72.0 * series
+    series = 1.0 - w_sq / 42.0 * series
+    series = 1.0 - w_sq / 20.0 * series
+    return torch.where(w < 0.5, w * w_sq / 6.0 * series, w - torch.sin(w))
+
+
 @torch.jit.script
 def qu2ho(qu: Tensor) -> Tensor:
     """
@@ -41,10 +63,11 @@ def qu2ho(qu: Tensor) -> Tensor:
     # q and -q are the same rotation, use the one with the smaller angle
     qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp(min=-1.0, max=1.0))
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    angle = 2 * torch.atan2(norm, qu[..., 0:1])
     # get the unit vector
-    unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
-    ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
+    unit = qu[..., 1:] / norm
+    ho = unit * (3.0 * _angle_minus_sine(angle) / 4.0) ** (1 / 3)
     # fix the case where the angle is zero
     is_identity = (angle < 1e-8) | (qu[..., 1:] == 0).all(dim=-1, keepdim=True)
     return torch.where(is_identity, 0.0, ho)
@@ -452,8 +475,9 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
 
     if ho.dtype == torch.float64 and not fast:
         # do 1 iteration of Newton's method
-        f_w = ((3 / 4) * (w - torch.sin(w))) ** (1 / 3) - torch.sqrt(ho_norm_sq)
-        f_p_w = (1 - torch.cos(w)) / (6 ** (2 / 3) * (w - torch.sin(w)) ** (2 / 3))
+        sine_gap = _angle_minus_sine(w)
+        f_w = ((3 / 4) * sine_gap) ** (1 / 3) - torch.sqrt(ho_norm_sq)
+        f_p_w = 2 * torch.sin(w / 2) ** 2 / (6 ** (2 / 3) * sine_gap ** (2 / 3))
         update = f_w / f_p_w
         # remove any nans
         w = w - torch.where(torch.isnan(update), 0.0, update)
@@ -553,16 +577,18 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
     ho_norm_sq = torch.sum(ho**2, dim=-1, keepdim=True)
 
     # makes out of memory error doing all at once
+    # one minus the cosine: the first term is one and would cancel
     s = torch.zeros_like(ho_norm_sq[..., 0])
-    for i in range(len(fit_parameters)):
-        s += fit_parameters[i] * ho_norm_sq[..., 0] ** i
+    for i in range(1, len(fit_parameters)):
+        s -= fit_parameters[i] * ho_norm_sq[..., 0] ** i
+    s = torch.clamp(s, 0.0, 2.0)
 
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
     ax[..., :3] = ho * torch.rsqrt(ho_norm_sq)
-    ax[..., 3] = 2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0))
+    ax[..., 3] = 2.0 * torch.atan2(torch.sqrt(s * (2.0 - s)), 1.0 - s)
 
     z_axis = torch.tensor([0.0, 0.0, 1.0, 0.0], dtype=ho.dtype, device=ho.device)
-    return torch.where(torch.abs(ho_norm_sq) < 1e-8, z_axis, ax)
+    return torch.where((ho_norm_sq == 0) | (ax[..., 3:4] == 0), z_axis, ax)
 
 
 @torch.jit.script
@@ -589,14 +615,13 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
 
     # Newton's method
     # initial guess for w given h is an inverted Pade approximation
-    w_newton = (15 - torch.sqrt(225 - 60 * h**2)) / h
+    w_newton = 60 * h / (15 + torch.sqrt(225 - 60 * h**2))
 
     # Newton's method
     for _ in range(2 if h.dtype == torch.float32 else 3):
-        f_w = ((3 / 4) * (w_newton - torch.sin(w_newton))) ** (1 / 3) - h
-        f_p_w = (1 - torch.cos(w_newton)) / (
-            6 ** (2 / 3) * (w_newton - torch.sin(w_newton)) ** (2 / 3)
-        )
+        sine_gap = _angle_minus_sine(w_newton)
+        f_w = ((3 / 4) * sine_gap) ** (1 / 3) - h
+        f_p_w = 2 * torch.sin(w_newton / 2) ** 2 / (6 ** (2 / 3) * sine_gap ** (2 / 3))
         update = f_w / f_p_w
         # remove any nans
         w_newton = w_newton - torch.where(torch.isnan(update), 0.0, update)
@@ -618,9 +643,7 @@ def ax2ho(ax: Tensor) -> Tensor:
         Homochoric vectors as tensor of shape (..., 3).
 
     """
-    return (0.75 * (ax[..., 3:4] - torch.sin(ax[..., 3:4]))) ** (1.0 / 3.0) * ax[
-        ..., :3
-    ]
+    return (0.75 * _angle_minus_sine(ax[..., 3:4])) ** (1.0 / 3.0) * ax[..., :3]
 
 
 @torch.jit.script
@@ -697,7 +720,7 @@ def qu2ax(qu: Tensor) -> Tensor:
 
     ax = torch.empty_like(qu)
     # the axis is flipped below when the real part is negative
-    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), max=1.0))
+    angle = 2 * torch.atan2(torch.norm(qu[..., 1:], dim=-1), torch.abs(qu[..., 0]))
 
     s = torch.where(
         qu[..., 0:1] != 0,
@@ -733,7 +756,7 @@ def qu2ro(qu: Tensor) -> Tensor:
     ro[..., :3] = qu[..., 1:] * torch.rsqrt(
         torch.sum(qu[..., 1:] ** 2, dim=-1, keepdim=True)
     )
-    ro[..., 3] = torch.tan(torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0)))
+    ro[..., 3] = torch.norm(qu[..., 1:], dim=-1) / qu[..., 0]
 
     # w < 1e-7 for float32 / w < 1e-10 for float64 -> infinite tan
     eps = 1e-7 if qu.dtype == torch.float32 else 1e-10
-- 
2.43.0


From ce0f0a577089e9beed11e86e4c2cc901b94b93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:12 +0000
Subject: [PATCH 099/100] fix: small disorientation angles rounded away in
 single precision

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 18 ++++++++++++++----
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 18 ++++++++++++++----
 ebsdtorch/s2_and_so3/quaternions.py    |  4 ++--
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index 8ab1a81..11eeaad 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -197,8 +197,18 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # flatten along the laue group dimensions
     equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
 
-    # find the largest real part magnitude and return the angle
-    cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    # find the equivalent with the largest real part magnitude
+    best = torch.argmax(equivalent_quat_pos_real, dim=-1)
+    n_2 = laue_group_2.shape[0]
+    nearest = qu_prod(
+        qu_prod(
+            laue_group_1[torch.div(best, n_2, rounding_mode="floor")],
+            misori_quats.reshape(N, 4),
+        ),
+        laue_group_2[best % n_2],
+    )
 
-    # rounding can push the cosine above 1.0 which would give NaN
-    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0)).reshape(data_shape[:-1])
+    # the arccos of the real part alone would round small angles away
+    return 2.0 * torch.atan2(
+        torch.norm(nearest[..., 1:], dim=-1), torch.abs(nearest[..., 0])
+    ).reshape(data_shape[:-1])
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index c4c87f0..e4941e3 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -465,11 +465,21 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # flatten along the laue group dimensions
     equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
 
-    # find the largest real part magnitude and return the angle
-    cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    # find the equivalent with the largest real part magnitude
+    best = torch.argmax(equivalent_quat_pos_real, dim=-1)
+    n_2 = laue_group_2.shape[0]
+    nearest = qu_prod(
+        qu_prod(
+            laue_group_1[torch.div(best, n_2, rounding_mode="floor")],
+            misori_quats.reshape(N, 4),
+        ),
+        laue_group_2[best % n_2],
+    )
 
-    # rounding can push the cosine above 1.0 which would give NaN
-    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0)).reshape(data_shape[:-1])
+    # the arccos of the real part alone would round small angles away
+    return 2.0 * torch.atan2(
+        torch.norm(nearest[..., 1:], dim=-1), torch.abs(nearest[..., 0])
+    ).reshape(data_shape[:-1])
 
 
 @torch.jit.script
diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index d16ac1e..d650fc2 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -299,5 +299,5 @@ def qu_angle(qu: Tensor) -> Tensor:
     Returns:
         tensor of shape (..., ) of rotation angles.
     """
-    # rounding can push the real part outside of [-1, 1] which would give NaN
-    return 2 * torch.acos(qu[..., 0].clamp(-1.0, 1.0))
+    # the arccos of the real part alone would round small angles away
+    return 2 * torch.atan2(torch.norm(qu[..., 1:], dim=-1), qu[..., 0])
-- 
2.43.0


From c35086894c6bc13accc1ae42a6bd56ae529b022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:46 +0000
Subject: [PATCH 100/100] fix: projections beside the poles lost in rounding of
 one minus z

---
 ebsdtorch/s2_and_so3/sphere.py      | 8 ++++----
 ebsdtorch/simulation/monte_carlo.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 8d7a758..b0b1b7a 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -73,8 +73,8 @@ def rosca_lambert(pts: Tensor) -> Tensor:
 
     # floating point error can yield z above 1.0 example for float32 is:
     # xyz = [1.7817265e-04, 2.8403841e-05, 1.0000001e0]
-    # so we have to clamp to avoid sqrt of negative number
-    factor = torch.sqrt(torch.clamp(2.0 * (1.0 - torch.abs(z)), min=0.0))
+    # and 1 - |z| is all rounding near the poles, it is (x^2 + y^2) / (1 + |z|)
+    factor = torch.sqrt(2.0 * (x**2 + y**2) / (1.0 + torch.abs(z)))
 
     cond = torch.abs(y) <= torch.abs(x)
     big = torch.where(cond, x, y)
@@ -168,8 +168,8 @@ def rosca_lambert_side_by_side(pts: Tensor) -> Tensor:
 
     # floating point error can yield z above 1.0 example for float32 is:
     # xyz = [1.7817265e-04, 2.8403841e-05, 1.0000001e0]
-    # so we have to clamp to avoid sqrt of negative number
-    factor = torch.sqrt(torch.clamp(2.0 * (1.0 - torch.abs(z)), min=0.0))
+    # and 1 - |z| is all rounding near the poles, it is (x^2 + y^2) / (1 + |z|)
+    factor = torch.sqrt(2.0 * (x**2 + y**2) / (1.0 + torch.abs(z)))
 
     cond = torch.abs(y) <= torch.abs(x)
     big = torch.where(cond, x, y)
diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index 6e4fb9a..96c2e44 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -31,8 +31,8 @@ def rosca_lambert(pts: Tensor) -> Tensor:
 
     # floating point error can yield z above 1.0 example for float32 is:
     # xyz = [1.7817265e-04, 2.8403841e-05, 1.0000001e0]
-    # so we have to clamp to avoid sqrt of negative number
-    factor = torch.sqrt(torch.clamp(2.0 * (1.0 - torch.abs(z)), min=0.0))
+    # and 1 - |z| is all rounding near the poles, it is (x^2 + y^2) / (1 + |z|)
+    factor = torch.sqrt(2.0 * (x**2 + y**2) / (1.0 + torch.abs(z)))
 
     cond = torch.abs(y) <= torch.abs(x)
     big = torch.where(cond, x, y)
-- 
2.43.0

