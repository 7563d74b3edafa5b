From 9d56802a3afaf30fbdd1d66ad65ff5339c0360e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 01/32] fix: antialias silhouette edges that are exactly
 horizontal or vertical

When an inequality of the overdraw band does not depend on x its coefficient is
zero and the division fallback inverted the test, so that no pixel of the band
of an axis aligned silhouette edge was blended.
---
 C++/DifferentiableRenderer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9140bfb..f9574f9 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2628,7 +2628,15 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 	for (short int k = 0; k < 4; k++)
 	{
 		numerator = -(ineq[3 * k + 1] * y + ineq[3 * k + 2]);
-		if (ineq[3 * k] < 0)
+		if (ineq[3 * k] == 0)
+		{
+			// the inequality does not depend on x : it keeps or rejects the entire line
+			if (numerator >= 0)
+			{
+				x_end = x_begin - 1;
+			}
+		}
+		else if (ineq[3 * k] < 0)
 		{
 			short int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x < x_end)
-- 
2.43.0


From 2813de5a62a1eea285bf33d6124631407406c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 02/32] fix: no stray pixel at the right end of a row with
 strict_edge=False

The first column of the row was clamped to x_max instead of x_max + 1, so that
a row containing no pixel center could still draw the pixel at x_max.
---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index f9574f9..2902ffb 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -892,7 +892,7 @@ inline void get_xrange(int width, const double *left_eq, const double *right_eq,
 	else
 	{
 		// pixels falling exactly on an edge shared by two triangle will be drawn twice
-		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max);
+		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max + 1);
 	}
 	if (temp_x > x_begin)
 		x_begin = temp_x;
-- 
2.43.0


From 2f97df2fc2223a8debec724be00afb3a28726cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 03/32] fix: no overdraw outside flat triangles with
 strict_edge=False

When a vertex line is exactly on a pixel row the row was processed by both halves
of the triangle, and the half that is degenerate used the horizontal edge as its
left or right limit, which does not limit the row.
---
 C++/DifferentiableRenderer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 2902ffb..fae04eb 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -698,6 +698,11 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	}
 
 	y_end[0] = (short)floor(y_sorted[1]);
+	if (!strict_edge && (y_sorted[1] < y_sorted[2]))
+	{
+		// the line at y_sorted[1], if any, belongs to the lower part only
+		y_end[0] = (short)ceil(y_sorted[1]) - 1;
+	}
 
 	// limit lower part
 	if (strict_edge)
@@ -709,6 +714,11 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 		y_begin[1] = (short)ceil(y_sorted[1]);
 	}
 	y_end[1] = (short)floor(y_sorted[2]);
+	if (!(y_sorted[1] < y_sorted[2]))
+	{
+		// flat bottom : there is no lower part
+		y_end[1] = y_begin[1] - 1;
+	}
 
 	// set left_edge_id and right_edge_id
 
-- 
2.43.0


From ce83c962024d463dbc4d5209a3f2489aa8b96bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 04/32] fix: do not draw triangles behind the camera when
 backface_culling=False

Disabling the culling also disabled the rejection of the triangles that have a
vertex behind the camera (drawn in front of everything) or that are degenerate.
---
 C++/DifferentiableRenderer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index fae04eb..982fae6 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2801,7 +2801,8 @@ void renderScene(Scene scene, double *image, double *z_buffer, double sigma, boo
 	float pixel_center_offset = scene.integer_pixel_centers ? 0 : 0.5;
 
 	for (int k = 0; k < scene.nb_triangles; k++)
-		if ((signedAreaV[k] > 0) || (!scene.backface_culling))
+		// the area is zero for degenerate triangles and triangles with a vertex behind the camera
+		if ((signedAreaV[k] > 0) || (!scene.backface_culling && (signedAreaV[k] < 0)))
 		{
 			unsigned int *face = &scene.faces[k * 3];
 			double ij[3][2];
-- 
2.43.0


From dbd9f13110b3f9bcb30bb6ef029c99849a7f89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 05/32] fix: draw triangles with a vertex more than 32767
 pixels away from the image

The bounds were cast to short int, which wrapped and dropped the triangle.
---
 C++/DifferentiableRenderer.h | 40 +++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 982fae6..3fca085 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -518,6 +518,22 @@ short int ceil_div(double a, double b, int x_min, int x_max)
 	return x;
 }
 
+// conversions that saturate to the range of short int, as coordinates can be far outside the image
+inline int floor_to_int(double x)
+{
+	const double limit = SHRT_MAX - 1;
+	if (!(x > -limit))
+	{
+		return (int)-limit;
+	}
+	return (x < limit) ? (int)floor(x) : (int)limit;
+}
+
+inline int ceil_to_int(double x)
+{
+	return -floor_to_int(-x);
+}
+
 template <class T>
 void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 {
@@ -676,44 +692,44 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = (short)floor(x_sorted[0]);
+		x_min = floor_to_int(x_sorted[0]);
 	}
 	else
 	{
-		x_min = (short)ceil(x_sorted[0]);
+		x_min = ceil_to_int(x_sorted[0]);
 	}
 
-	x_max = (short)floor(x_sorted[2]);
+	x_max = floor_to_int(x_sorted[2]);
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = (short)floor(y_sorted[0]) + 1;
+		y_begin[0] = floor_to_int(y_sorted[0]) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = (short)ceil(y_sorted[0]);
+		y_begin[0] = ceil_to_int(y_sorted[0]);
 	}
 
-	y_end[0] = (short)floor(y_sorted[1]);
+	y_end[0] = floor_to_int(y_sorted[1]);
 	if (!strict_edge && (y_sorted[1] < y_sorted[2]))
 	{
 		// the line at y_sorted[1], if any, belongs to the lower part only
-		y_end[0] = (short)ceil(y_sorted[1]) - 1;
+		y_end[0] = ceil_to_int(y_sorted[1]) - 1;
 	}
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = floor_to_int(y_sorted[1]) + 1;
 	}
 	else
 	{
-		y_begin[1] = (short)ceil(y_sorted[1]);
+		y_begin[1] = ceil_to_int(y_sorted[1]);
 	}
-	y_end[1] = (short)floor(y_sorted[2]);
+	y_end[1] = floor_to_int(y_sorted[2]);
 	if (!(y_sorted[1] < y_sorted[2]))
 	{
 		// flat bottom : there is no lower part
@@ -1450,7 +1466,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] - sigma < y_begin)
-			y_begin = (int)floor(Vxy[k][1] - sigma) + 1;
+			y_begin = floor_to_int(Vxy[k][1] - sigma) + 1;
 	}
 	if (y_begin < 0)
 	{
@@ -1461,7 +1477,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] + sigma > y_end)
-			y_end = (int)floor(Vxy[k][1] + sigma);
+			y_end = floor_to_int(Vxy[k][1] + sigma);
 	}
 	if (y_end > height - 1)
 	{
-- 
2.43.0


From 582766418f1a6dbfaf2278151638c85c10135786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 06/32] fix: accumulate the gradient of the texture

Each sampled pixel overwrote the gradient of the four texels it reads.
---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 3fca085..34d09c0 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -634,10 +634,10 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		e_B[0] += t1_B * (I[indx10 + k] - I[indx00 + k]);
 		e_B[0] += t2_B * (I[indx11 + k] - I[indx01 + k]);
 
-		I_B[indx00 + k] = (1 - e[0]) * (1 - e[1]) * A_B[k];
-		I_B[indx10 + k] = e[0] * (1 - e[1]) * A_B[k];
-		I_B[indx01 + k] = (1 - e[0]) * e[1] * A_B[k];
-		I_B[indx11 + k] = e[0] * e[1] * A_B[k];
+		I_B[indx00 + k] += (1 - e[0]) * (1 - e[1]) * A_B[k];
+		I_B[indx10 + k] += e[0] * (1 - e[1]) * A_B[k];
+		I_B[indx01 + k] += (1 - e[0]) * e[1] * A_B[k];
+		I_B[indx11 + k] += e[0] * e[1] * A_B[k];
 	}
 	for (int k = 0; k < 2; k++)
 	{
-- 
2.43.0


From 19dcbb8aed3002fdf6a465ca9a0a8152744f99bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 07/32] fix: texture sampling out of bounds with a one texel
 wide texture

The texels at -1 were read, and their gradient written, when a dimension of the
texture is 1.  The conversion of a texture coordinate out of the range of int was
undefined.
---
 C++/DifferentiableRenderer.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 34d09c0..fd01a84 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -545,7 +545,7 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		fp[k] = (int)floor(min((double)I_size[k], max(-1.0, p[k])));
 		e[k] = p[k] - fp[k];
 	}
 
@@ -560,16 +560,21 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 		}
 		if (fp[k] > I_size[k] - 2)
 		{
-			fp[k] = I_size[k] - 2;
+			fp[k] = max(I_size[k] - 2, 0);
 			e[k] = 1;
 		}
 	}
 	// bilinear interpolation
 
+	// next texel, clamped as the texture can be a single texel wide
+	int fp1[2];
+	for (int k = 0; k < 2; k++)
+		fp1[k] = min(fp[k] + 1, I_size[k] - 1);
+
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp1[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * fp1[1]);
+	int indx11 = sizeA * (fp1[0] + I_size[0] * fp1[1]);
 
 	for (int k = 0; k < sizeA; k++)
 		A[k] = ((1 - e[0]) * I[indx00 + k] + e[0] * I[indx10 + k]) * (1 - e[1]) + ((1 - e[0]) * I[indx01 + k] + e[0] * I[indx11 + k]) * e[1];
@@ -588,7 +593,7 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		fp[k] = (int)floor(min((double)I_size[k], max(-1.0, p[k])));
 		e[k] = p[k] - fp[k];
 	}
 
@@ -605,17 +610,22 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		if (fp[k] > I_size[k] - 2)
 		{
 			out[k] = true;
-			fp[k] = I_size[k] - 2;
+			fp[k] = max(I_size[k] - 2, 0);
 			e[k] = 1;
 		}
 	}
 
 	// bilinear interpolation
 
+	// next texel, clamped as the texture can be a single texel wide
+	int fp1[2];
+	for (int k = 0; k < 2; k++)
+		fp1[k] = min(fp[k] + 1, I_size[k] - 1);
+
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp1[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * fp1[1]);
+	int indx11 = sizeA * (fp1[0] + I_size[0] * fp1[1]);
 
 	//for(int k=0;k<sizeA;k++)
 	//	A[k]=( (1-e[0])*I[indx00+k] + e[0]*I[indx10+k] )*(1-e[1])+( (1-e[0])*I[indx01+k] + e[0]*I[indx11+k] )*e[1];
-- 
2.43.0


From 248ed7eebeb28a3409baf4843e42670bc6c3969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 08/32] fix: gradient of uv when corners of a face share a uv
 vertex

The gradients of the corners were copied back one after the other, so that only
the last one was kept.
---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index fd01a84..f1071c5 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -3041,7 +3041,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 								for (int j = 0; j < 2; j++)
 								{
 									uv[i][j] = scene.uv[face_uv[sub[i]] * 2 + j];
-									uv_b[i][j] = scene.uv_b[face_uv[sub[i]] * 2 + j];
+									uv_b[i][j] = 0;
 								}
 
 							double shade[2];
@@ -3064,7 +3064,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 							for (int i = 0; i < 2; i++)
 								for (int j = 0; j < 2; j++)
 								{
-									scene.uv_b[face_uv[sub[i]] * 2 + j] = uv_b[i][j];
+									scene.uv_b[face_uv[sub[i]] * 2 + j] += uv_b[i][j];
 								}
 							for (int i = 0; i < 2; i++)
 							{
@@ -3142,14 +3142,14 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 					for (int j = 0; j < 2; j++)
 					{
 						uv[i][j] = scene.uv[face_uv[i] * 2 + j];
-						uv_b[i][j] = scene.uv_b[face_uv[i] * 2 + j];
+						uv_b[i][j] = 0;
 					}
 
 				rasterize_triangle_textured_gouraud_B(ij, ij_b, depths, uv, uv_b, shade, shade_b, z_buffer, image, image_b, scene.height, scene.width, scene.nb_colors, scene.texture, scene.texture_b, Texture_size, scene.strict_edge, scene.perspective_correct);
 				for (int i = 0; i < 3; i++)
 					for (int j = 0; j < 2; j++)
 					{
-						scene.uv_b[face_uv[i] * 2 + j] = uv_b[i][j];
+						scene.uv_b[face_uv[i] * 2 + j] += uv_b[i][j];
 					}
 				for (int i = 0; i < 3; i++)
 					scene.shade_b[face[i]] = shade_b[i];
-- 
2.43.0


From 567087f54cd6e22c5d8fa3b49698c8bbaf0ff1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 09/32] fix: gradient counted twice for textured triangles with
 equal depths

As in the untextured case the gradient of a pixel is consumed by the first
triangle of the backward pass that has the depth of the z buffer.
---
 C++/DifferentiableRenderer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index f1071c5..2c9e87e 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1376,6 +1376,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 				{
 					A_B[k] += image_B[sizeA * indx + k] * L;
 					L_B += image_B[sizeA * indx + k] * A[k];
+					image_B[sizeA * indx + k] = 0; // already propagated
 				}
 				bilinear_sample_B(A, A_B, Texture, Texture_B, Texture_size, UV, UV_B, sizeA);
 				for (int k = 0; k < 2; k++)
-- 
2.43.0


From bd46f5b4527761d350987a6c96936f0acfa2a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 10/32] fix: camera translation of PerspectiveCamera with a non
 symmetric rotation

The extrinsic translation is -R.C, the transposed rotation placed the camera
center somewhere else than requested.
---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 0022cca..f093adb 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -485,7 +485,7 @@ class PerspectiveCamera(Camera):
         focal_x = focal
         pixel_aspect_ratio = 1
         focal_y = focal * pixel_aspect_ratio
-        trans = -rot.T.dot(camera_center)
+        trans = -rot.dot(camera_center)
         cx = width / 2
         cy = height / 2
         intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
-- 
2.43.0


From 81d32fd3d59532ba8c5152e258faf1466c929c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 11/32] fix: backward projection with a non symmetric rotation
 or a skewed intrinsic matrix

The gradient was multiplied by the transposed matrices.
---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index f093adb..e24bba1 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -396,7 +396,7 @@ class Camera:
     ) -> np.ndarray:
         if self.distortion is None:
             p_camera, depths, projected = store_backward["project_points"]
-            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
 
         else:
             p_camera, depths, projected, r2, radial_distortion = store_backward["project_points"]
@@ -409,7 +409,7 @@ class Camera:
             ) = self.distortion
             x = projected[:, 0]
             y = projected[:, 1]
-            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
             distorted_x_b = distorted_b[:, 0]
             distorted_y_b = distorted_b[:, 1]
             x_b = distorted_x_b * radial_distortion
@@ -435,7 +435,7 @@ class Camera:
         )
         if depths_b is not None:
             p_camera_b[:, 2] += depths_b
-        return p_camera_b.dot(self.extrinsic[:3, :3].T)
+        return p_camera_b.dot(self.extrinsic[:3, :3])
 
     def get_center(self) -> np.ndarray:
         return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])
-- 
2.43.0


From b4467a53e35cd7f89428b80c4c69cba94f1af794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 12/32] fix: backward rendering overwrote the gradient image
 given by the caller

renderSceneB works in place in image_b and err_buffer_b, give it copies like
for the image.
---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index e24bba1..2043b0d 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -647,7 +647,7 @@ class Scene2D(Scene2DBase):
                 antialiase_error,
                 obs,
                 err_buffer.copy(),
-                err_buffer_b,
+                err_buffer_b.copy(),
             )
         else:
             renderSceneB(
@@ -679,7 +679,7 @@ class Scene2D(Scene2DBase):
                 sigma,
                 image.copy(),
                 z_buffer,
-                image_b,
+                image_b.copy(),
                 antialiase_error,
                 None,
                 None,
@@ -868,7 +868,7 @@ class Scene3D:
         image, z_buffer = self.store_backward_current["render_2d"]
         # self.ij = np.array(ij)
         # self.colors = np.array(colors)
-        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b)
+        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b.copy())
         self.scene_2D = None
 
     @overload
-- 
2.43.0


From 08156ff3970dadb0d8e3bfdb2b838268408e0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 13/32] fix: pytorch gradient with several renderings, a sigma
 different from one or a shared gradient

The backward pass used the scene of the last rendering, a sigma of 1 and
modified the saved image and the incoming gradient in place.
---
 .../differentiable_renderer_pytorch.py        | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1ce09c2..4532d07 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -48,11 +48,13 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        ctx.scene = scene
-        scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
+        scene_2d = scene.scene_2d
+        ctx.scene_2d = scene_2d  # scene.scene_2d is replaced when rendering another view
+        ctx.sigma = scene.sigma
+        scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
         scene.colors = colors.detach().numpy()
-        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
+        differentiable_renderer_cython.renderSceneCpp(scene_2d, scene.sigma, image, z_buffer)
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
@@ -64,16 +66,19 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
         image_b = grad_outputs[0]
-        scene = ctx.scene
-        scene.scene_2d.uv_b = np.zeros(scene.scene_2d.uv.shape)
-        scene.scene_2d.ij_b = np.zeros(scene.scene_2d.ij.shape)
-        scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
-        scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
-        scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        scene_2d = ctx.scene_2d
+        scene_2d.uv_b = np.zeros(scene_2d.uv.shape)
+        scene_2d.ij_b = np.zeros(scene_2d.ij.shape)
+        scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
+        scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
+        scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
+        # the image and its gradient are modified in place
+        differentiable_renderer_cython.renderSceneBCpp(
+            scene_2d, ctx.sigma, ctx.image.copy(), ctx.z_buffer, image_b.numpy().copy()
+        )
         return (
-            torch.as_tensor(scene.scene_2d.ij_b),
-            torch.as_tensor(scene.scene_2d.colors_b),
+            torch.as_tensor(scene_2d.ij_b),
+            torch.as_tensor(scene_2d.colors_b),
             None,
         )
 
-- 
2.43.0


From 99769dafca083ec8ff039a0ae904bb55e4beb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 14/32] fix: pytorch mesh normals with clockwise faces, unused
 vertices or three faces

The adjacencies ignored clockwise and the number of vertices, and
torch.cross picked the first dimension of size three.
---
 deodr/pytorch/triangulated_mesh_pytorch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a7fa043..bd1da11 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -22,8 +22,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     Unlike the TriMesh class there are no vertices stored in this class.
     """
 
-    def __init__(self, faces: np.ndarray, clockwise: bool = False):
-        super().__init__(faces, clockwise)
+    def __init__(self, faces: np.ndarray, clockwise: bool = False, nb_vertices: Optional[int] = None):
+        super().__init__(faces, clockwise, nb_vertices)
         self.faces_torch = torch.LongTensor(faces)
         i = self.faces_torch.flatten()
         j = torch.LongTensor(np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten())
@@ -37,7 +37,7 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
         triangles = vertices[self.faces_torch, :]
         u = triangles[::, 1] - triangles[::, 0]
         v = triangles[::, 2] - triangles[::, 0]
-        n = -torch.cross(u, v) if self.clockwise else torch.cross(u, v)
+        n = -torch.cross(u, v, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
         l2 = (n**2).sum(dim=1)
         norm = l2.sqrt()
         return n / norm[:, None]
@@ -76,7 +76,7 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
         )
 
     def compute_adjacencies(self) -> None:
-        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces)
+        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From 83ad2b99b5ef4b5f0184ad300fb6ee7c845c3ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 15/32] fix: meshes created with compute_adjacencies=False

The adjacencies could not be computed lazily as the field was not initialised.
---
 deodr/triangulated_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 25806e8..aa422cf 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -188,6 +188,7 @@ class TriMesh:
 
         self._face_normals: Optional[np.ndarray] = None
         self._vertex_normals: Optional[np.ndarray] = None
+        self._adjacencies: Optional[TriMeshAdjacencies] = None
         self.clockwise = clockwise
 
         self._vertices_b = np.zeros((self.nb_vertices, 3))
@@ -214,6 +215,7 @@ class TriMesh:
     def adjacencies(self) -> TriMeshAdjacencies:
         if self._adjacencies is None:
             self.compute_adjacencies()
+        assert self._adjacencies is not None
         return self._adjacencies
 
     def set_vertices(self, vertices: np.ndarray) -> None:
@@ -229,7 +231,7 @@ class TriMesh:
         surfaces is a closed manifold. This is done by summing the volumes of the
         simplices formed by joining the origin and the vertices of each triangle.
         """
-        if not self._adjacencies.is_closed:
+        if not self.adjacencies.is_closed:
             raise (BaseException("The volume can only be computed for closed manifold surfaces"))
         return (
             (-1 if self.clockwise else 1)
-- 
2.43.0


From 8f7b6fb15cfc6f60e3557179759be0d18a700faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 16/32] fix: loop subdivision of clockwise meshes

The clockwise flag was lost, the subdivision of a closed mesh raised an error.
---
 deodr/triangulated_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index aa422cf..3ba600b 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -559,6 +559,7 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     return ColoredTriMesh(
         vertices=new_vertices,
         faces=new_faces,
+        clockwise=mesh.clockwise,
         colors=new_colors,
         nb_colors=mesh.nb_colors,
     )
-- 
2.43.0


From 36309b60bde1c912c2466fa4af4100fbecdb66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 17/32] fix: deferred rendering of clockwise meshes and with
 perspective correction

clockwise and perspective_correct were not given to the 2D scene.
---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 2043b0d..1c7fd89 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1161,8 +1161,10 @@ class Scene3D:
             nb_colors=nb_colors,
             texture=texture,
             background_image=background_image,
+            clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             background_color=None,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         buffers = np.empty((camera.height, camera.width, nb_colors))
-- 
2.43.0


From 2977a3b7cfd8b5b00e9416fffa42efa5a9347790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 18/32] fix: depth rendering with a background image or
 perspective correction

The background image and perspective_correct were not given to the 2D scene.
---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 1c7fd89..4b52757 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1027,7 +1027,9 @@ class Scene3D:
             clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             strict_edge=True,
+            background_image=self.background_image,
             background_color=self.background_color,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         self.scene_2d = scene_2d
-- 
2.43.0


From 30b2b2c88e09e637174de0c8775421c3d0e48dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 19/32] fix: errors raised by the C++ code terminated the
 process

They are now converted to python exceptions.
---
 deodr/differentiable_renderer_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index f274249..d6b3d2c 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -41,8 +41,8 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 		bool strict_edge
 		bool perspective_correct
 		bool integer_pixel_centers
-	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer)
-	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b)
+	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer) except +
+	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 30ce954e68ba275f45b901c8676de46af61ea399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 20/32] fix: reject invalid scenes that made the renderer
 access memory out of bounds

Height and width different from the size of the buffers, negative uv
indices, faces without three columns, textured faces without texture and
gradient buffers with a wrong number of channels were not detected.
---
 deodr/differentiable_renderer.py         | 23 ++++++++++++++++++++++
 deodr/differentiable_renderer_cython.pyx | 25 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 4b52757..e987304 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -71,8 +71,15 @@ def renderScene(
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
+        assert scene.height == height
+        assert scene.width == width
+        assert np.prod(scene.depths.shape) == nb_vertices
+
         assert scene.faces.dtype == np.uint32
+        assert scene.faces.shape == (nb_triangles, 3)
+        assert scene.faces_uv.shape == (nb_triangles, 3)
         assert np.all(scene.faces < nb_vertices)
+        assert np.all(scene.faces_uv >= 0)
         assert np.all(scene.faces_uv < nb_vertices_uv)
 
         assert scene.colors.ndim == 2
@@ -110,6 +117,8 @@ def renderScene(
             assert scene.texture.shape[0] > 0
             assert scene.texture.shape[1] > 0
             assert scene.texture.shape[2] == nb_colors
+        else:
+            assert not np.any(scene.textured), "You need to provide a texture"
 
         assert z_buffer.shape[0] == height
         assert z_buffer.shape[1] == width
@@ -159,8 +168,15 @@ def renderSceneB(
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
+        assert scene.height == height
+        assert scene.width == width
+        assert np.prod(scene.depths.shape) == nb_vertices
+
         assert scene.faces.dtype == np.uint32
+        assert scene.faces.shape == (nb_triangles, 3)
+        assert scene.faces_uv.shape == (nb_triangles, 3)
         assert np.all(scene.faces < nb_vertices)
+        assert np.all(scene.faces_uv >= 0)
         assert np.all(scene.faces_uv < nb_vertices_uv)
 
         assert scene.colors.ndim == 2
@@ -223,6 +239,8 @@ def renderSceneB(
             assert scene.texture.shape[1] == scene.texture_b.shape[1]
             assert scene.texture.shape[2] == nb_colors
             assert scene.texture_b.shape[2] == nb_colors
+        else:
+            assert not np.any(scene.textured), "You need to provide a texture"
 
         if antialiase_error:
             assert err_buffer is not None
@@ -231,10 +249,15 @@ def renderSceneB(
             assert err_buffer.shape[1] == width
             assert obs.shape[0] == height
             assert obs.shape[1] == width
+            assert obs.shape[2] == nb_colors
+            assert err_buffer_b is not None
+            assert err_buffer_b.shape[0] == height
+            assert err_buffer_b.shape[1] == width
         else:
             assert image_b is not None
             assert image_b.shape[0] == height
             assert image_b.shape[1] == width
+            assert image_b.shape[2] == nb_colors
 
     differentiable_renderer_cython.renderSceneBCpp(
         scene,
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index d6b3d2c..095676d 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -72,8 +72,14 @@ def renderSceneCpp(scene,
 	nb_vertices_uv  =  scene.uv.shape[0]
 
 	if check_valid:	
+		assert(scene.height == height)
+		assert(scene.width == width)
+		assert(np.prod(scene.depths.shape) == nb_vertices)
 		assert(scene.faces.dtype  ==  np.uint32)
+		assert(scene.faces.shape == (nb_triangles, 3))
+		assert(scene.faces_uv.shape == (nb_triangles, 3))
 		assert(np.all(scene.faces < nb_vertices))
+		assert(np.all(scene.faces_uv >= 0))
 		assert(np.all(scene.faces_uv < nb_vertices_uv))
 				
 		assert(scene.colors.ndim  ==  2)
@@ -109,6 +115,8 @@ def renderSceneCpp(scene,
 			assert(scene.texture.shape[0]>0)
 			assert(scene.texture.shape[1]>0)
 			assert(scene.texture.shape[2]  ==  nb_colors)
+		else:
+			assert(not np.any(scene.textured))
 		
 		assert z_buffer.shape[0]  ==  height 
 		assert z_buffer.shape[1]  ==  width 
@@ -184,6 +192,8 @@ def renderSceneCpp(scene,
 
 	
 	if antialiase_error:
+		assert err_buffer is not None
+		assert obs is not None
 		assert err_buffer.shape[0]  ==  height 
 		assert err_buffer.shape[1]  ==  width
 		assert obs.shape[0]  ==  height 
@@ -235,8 +245,14 @@ def renderSceneBCpp(scene,
 	nb_vertices_uv  =  scene.uv.shape[0]
 	
 	if check_valid:
+		assert(scene.height == height)
+		assert(scene.width == width)
+		assert(np.prod(scene.depths.shape) == nb_vertices)
 		assert(scene.faces.dtype == np.uint32)
+		assert(scene.faces.shape == (nb_triangles, 3))
+		assert(scene.faces_uv.shape == (nb_triangles, 3))
 		assert(np.all(scene.faces<nb_vertices))
+		assert(np.all(scene.faces_uv >= 0))
 		assert(np.all(scene.faces_uv<nb_vertices_uv))
 				
 		assert(scene.colors.ndim  ==  2)
@@ -291,6 +307,8 @@ def renderSceneBCpp(scene,
 			assert(scene.texture.shape[1]  ==  scene.texture_b.shape[1])
 			assert(scene.texture.shape[2]  ==  nb_colors)	
 			assert(scene.texture_b.shape[2]  ==  nb_colors)
+		else:
+			assert(not np.any(scene.textured))
 			
 	scene_c.nb_colors = nb_colors
 	
@@ -378,10 +396,16 @@ def renderSceneBCpp(scene,
 	
 	if antialiase_error:
 		if check_valid:
+			assert err_buffer is not None
+			assert err_buffer_b is not None
+			assert obs is not None
 			assert err_buffer.shape[0]  ==  height 
 			assert err_buffer.shape[1]  ==  width 
 			assert obs.shape[0]  ==  height 
 			assert obs.shape[1]  ==  width 
+			assert obs.shape[2]  ==  nb_colors
+			assert err_buffer_b.shape[0]  ==  height
+			assert err_buffer_b.shape[1]  ==  width
 	
 		err_buffer_ptr = <double*>err_buffer.data
 		err_buffer_b_ptr = <double*>err_buffer_b.data
@@ -398,6 +422,7 @@ def renderSceneBCpp(scene,
 			assert (not(image_b is None))
 			assert image_b.shape[0]  ==  height 
 			assert image_b.shape[1]  ==  width 
+			assert image_b.shape[2]  ==  nb_colors
 		image_b_ptr  =  <double*> image_b.data
 		if image_b_ptr  ==  NULL:
 			raise BaseException('image_b_ptr is NULL')
-- 
2.43.0


From f6e24307f5580a4dfb1f7ece45ba84285ec5d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 21/32] fix: obj reader with normals, texture coordinates,
 negative indices or continued lines

vn and vt lines were read as vertices, relative indices were off by one
and the end of line was not considered when looking for a backslash.
---
 deodr/obj.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 0651322..bf98ab2 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -23,10 +23,10 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         line = fid.readline()
         if not line:
             break
-        while line.endswith("\\"):
+        while line.endswith("\\\n"):
             # Remove backslash and concatenate with next line
-            line = line[:-1] + fid.readline()
-        if line.startswith("v"):
+            line = line[:-2] + fid.readline()
+        if line.startswith("v "):
             coord = line.split()
             coord.pop(0)
             node_counter += 1
@@ -39,9 +39,9 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-                v = int(f.split("/")[0]) - 1
-                if v < 0:
-                    v = node_counter + v
+                v = int(f.split("/")[0])
+                # negative indices are relative to the last vertex, which is -1
+                v = v - 1 if v > 0 else node_counter + v
                 cleaned_fields.append(v)
             faces.append(np.array(cleaned_fields))
 
-- 
2.43.0


From 1edefd124b961009dfa85987dd095073e4c1f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 22/32] fix: data term of the multi frame fitter

A row of the rendered image, instead of the image, was compared with the
image of the frame.
---
 deodr/mesh_fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9e34612..724594c 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -536,11 +536,11 @@ class MeshRGBFitterWithPoseMultiFrame:
         for idframe in range(self.nb_frames):
             image = self.render(idframe=idframe)
 
-            diff_image = np.sum((image[idframe] - self.mesh_images[idframe]) ** 2, axis=2)
+            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
             images.append(image)
             diff_images.append(diff_image)
 
-            image_b = coef_data * 2 * (image[idframe] - self.mesh_images[idframe])
+            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
             energy_data_image = coef_data * np.sum(diff_image)
             energy_datas.append(energy_data_image)
             self.render_backward(image_b)
-- 
2.43.0


From ab6c2942023070e1770c252dffe875f18db67654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 23/32] fix: update_lights=False and update_color=False were
 ignored by the fitters

---
 deodr/mesh_fitter.py                 | 64 +++++++++++++++-------------
 deodr/pytorch/mesh_fitter_pytorch.py | 30 +++++++------
 2 files changed, 50 insertions(+), 44 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 724594c..9866633 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -356,20 +356,22 @@ class MeshRGBFitterWithPose:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
@@ -611,22 +613,24 @@ class MeshRGBFitterWithPoseMultiFrame:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step_light_ambient = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (
-            self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
-        )
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step_light_ambient = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (
+                self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
+            )
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index badd532..5a32491 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -502,20 +502,22 @@ class MeshRGBFitterWithPose:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -light_directional_with_grad.grad.numpy() * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -light_ambient_with_grad.grad.numpy() * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -mesh_color_with_grad.grad.numpy() * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -light_directional_with_grad.grad.numpy() * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -light_ambient_with_grad.grad.numpy() * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -mesh_color_with_grad.grad.numpy() * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image.detach().numpy(), diff_image.detach().numpy()
-- 
2.43.0


From 7e23834632c2dda005e1fb12c9d029d2820feb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 24/32] fix: gradient of the masked error when the mask is not
 binary

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index e987304..182cd92 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -751,7 +751,7 @@ class Scene2D(Scene2DBase):
             diff_image = (image - obs) * mask[:, :, None]
             err_buffer = (diff_image) ** 2
             err = float(np.sum(err_buffer))
-            image_b = 2 * diff_image
+            image_b = 2 * diff_image * mask[:, :, None]
             self.render_backward(image_b, make_copies=make_copies)
 
         return image, z_buffer, err_buffer, err
-- 
2.43.0


From ff6aedf0763f45df9a78c70e88a326ff6abd668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 25/32] fix: division by zero in the gradient when a pixel
 centre lies exactly on a silhouette edge

The pixels exactly on the border of the overdraw area were drawn for some
edge directions, with a transparency of zero, by which the backward pass
divides.
---
 C++/DifferentiableRenderer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 2c9e87e..49dccd0 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2675,7 +2675,11 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 		}
 		else if (ineq[3 * k] < 0)
 		{
-			short int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
+			short int temp_x = ceil_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1) - 1;
+			if (ineq[3 * k] * temp_x <= numerator)
+			{
+				temp_x--; // the division has been rounded
+			}
 			if (temp_x < x_end)
 			{
 				x_end = temp_x;
@@ -2684,6 +2688,10 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 		else
 		{
 			short int temp_x = 1 + floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
+			if (ineq[3 * k] * temp_x <= numerator)
+			{
+				temp_x++; // the division has been rounded
+			}
 			if (temp_x > x_begin)
 			{
 				x_begin = temp_x;
-- 
2.43.0


From 1fa6120d0194f024c1dcace7660801bf9bf1f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 26/32] fix: differentiation of the pytorch rigidity energy

a tensor that requires a gradient cannot be combined with a numpy array
---
 deodr/pytorch/laplacian_rigid_energy_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/laplacian_rigid_energy_pytorch.py b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
index 77795b6..c43cf47 100644
--- a/deodr/pytorch/laplacian_rigid_energy_pytorch.py
+++ b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
@@ -36,7 +36,7 @@ class LaplacianRigidEnergyPytorch:
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         assert isinstance(vertices, torch.Tensor)
         if vertices.requires_grad:
-            diff = (vertices - self.numpy_imp.vertices_ref).flatten()
+            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
             grad_vertices = self.numpy_imp.cregu * (self.cT_torch.matmul(diff[:, None])).reshape_as(vertices)
         else:
             diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
-- 
2.43.0


From 9f4fe3c6169a6bc60634e57220292380e619bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 27/32] fix: perspective correct silhouette edges read past the
 two depths and shades of the edge

---
 C++/DifferentiableRenderer.h | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 49dccd0..3edd65a 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -425,6 +425,16 @@ inline void sort3(const double v[3], double sv[3], short int i[3])
 	}
 }
 
+inline void elementwise_inverse_vec2(const double input[2], double ouput[2])
+{
+	for (int k = 0; k < 2; k++)
+		ouput[k] = 1 / input[k];
+}
+inline void elementwise_prod_vec2(const double input1[2], const double input2[2], double ouput[2])
+{
+	for (int k = 0; k < 2; k++)
+		ouput[k] = input1[k] * input2[k];
+}
 inline void elementwise_inverse_vec3(const double input[3], double ouput[3])
 {
 	for (int i = 0; i < 3; i++)
@@ -1596,8 +1606,8 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
@@ -1839,11 +1849,11 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 	double T_inc = xy1_to_transp[0];
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
 
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2126,10 +2136,10 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2426,8 +2436,8 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		for (int i = 0; i < sizeA; i++)
 		{
-- 
2.43.0


From d42cc3faa6307507a22f4237c8293da8eae6922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 28/32] fix: depth buffer returned by the pytorch renderer

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 4532d07..8127141 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -60,6 +60,7 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         # making a copy to keep the antializaed image for visualization ,
         # could be optional
         ctx.z_buffer = z_buffer
+        scene.z_buffer = z_buffer.copy()
         return torch.as_tensor(image)
 
     @staticmethod
@@ -108,7 +109,5 @@ class Scene3DPytorch(Scene3D):
 
     def _render_2d(self) -> Tuple[torch.Tensor, torch.Tensor]:
         self.depths = self.scene_2d.depths.detach()
-        return (
-            TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self),
-            self.depths,
-        )
+        image = TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self)
+        return image, torch.as_tensor(self.z_buffer)
-- 
2.43.0


From 04a4425aca7dc303bb84ea4808239e44c1504c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 29/32] fix: shapes of the scene arrays read without bounds
 checks

---
 deodr/differentiable_renderer_cython.pyx | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index 095676d..9d9b984 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -1,8 +1,6 @@
 # distutils: language = c++
 from libcpp cimport bool
 
-import cython
-
 # import both numpy and the Cython declarations for numpy
 import numpy as np
 
@@ -45,8 +43,6 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
-@cython.boundscheck(False)
-@cython.wraparound(False)
 def renderSceneCpp(scene, 
 		double sigma,
 		np.ndarray[double,ndim = 3,mode = "c"] image, 
@@ -211,8 +207,6 @@ def renderSceneCpp(scene,
 
 	renderScene( scene_c,image_ptr, z_buffer_ptr, sigma, antialiase_error ,obs_ptr, err_buffer_ptr)
 	
-@cython.boundscheck(False)
-@cython.wraparound(False)	
 def renderSceneBCpp(scene, 
 		double sigma,
 		np.ndarray[double,ndim = 3,mode = "c"] image, 
-- 
2.43.0


From 5ee50f01880c86006741821ed807c7b6012edea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 30/32] fix: background colors of more than one dimension are
 refused

---
 deodr/differentiable_renderer.py         | 2 ++
 deodr/differentiable_renderer_cython.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 182cd92..57d7c25 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -110,6 +110,7 @@ def renderScene(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
+            assert scene.background_color.ndim == 1
             assert scene.background_color.shape[0] == nb_colors
 
         if scene.texture.size > 0:
@@ -207,6 +208,7 @@ def renderSceneB(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
+            assert scene.background_color.ndim == 1
             assert scene.background_color.shape[0] == nb_colors
 
         assert scene.uv_b is not None
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index 9d9b984..53f4498 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -104,6 +104,7 @@ def renderSceneCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
+			assert scene.background_color.ndim == 1
 			assert scene.background_color.shape[0] == nb_colors
 		
 		if scene.texture.size>0:
@@ -275,6 +276,7 @@ def renderSceneBCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
+			assert scene.background_color.ndim == 1
 			assert scene.background_color.shape[0] == nb_colors
 				
 		assert(scene.uv_b.ndim  ==  2)
-- 
2.43.0


From 0817e4bb16ecb70be2e18cde90992ea771aa37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 31/32] fix: color gradients of more than two dimensions are
 refused

---
 deodr/differentiable_renderer.py         | 1 +
 deodr/differentiable_renderer_cython.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 57d7c25..4e086f2 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -228,6 +228,7 @@ def renderSceneB(
         assert scene.ij_b.shape[0] == nb_vertices
         assert scene.ij_b.shape[1] == 2
         assert scene.shade_b.shape[0] == nb_vertices
+        assert scene.colors_b.ndim == 2
         assert scene.colors_b.shape[0] == nb_vertices
         assert scene.colors_b.shape[1] == nb_colors
 
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index 53f4498..e8188ed 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -290,6 +290,7 @@ def renderSceneBCpp(scene,
 		assert(scene.ij_b.shape[0]  ==  nb_vertices)
 		assert(scene.ij_b.shape[1]  ==  2)
 		assert(scene.shade_b.shape[0]  ==  nb_vertices)	
+		assert(scene.colors_b.ndim  ==  2)
 		assert(scene.colors_b.shape[0]  ==  nb_vertices)
 		assert(scene.colors_b.shape[1]  ==  nb_colors)
 
-- 
2.43.0


From e10a4fc34527120a150b328e60c01eb9b43d0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 32/32] fix: MeshDepthFitterEnergy renders the front of the
 given mesh like the other depth fitters, not its reversed faces

---
 deodr/pytorch/mesh_fitter_pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index 5a32491..1e5c124 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -44,10 +44,10 @@ class MeshDepthFitterEnergy(torch.nn.Module):
     ):
         super(MeshDepthFitterEnergy, self).__init__()
         self.mesh = ColoredTriMesh(
-            faces=faces[:, ::-1].copy(),
+            faces=faces,
             vertices=vertices,
             colors=np.zeros((vertices.shape[0], 0)),
-        )  # we do a copy to avoid negative stride not supported by pytorch
+        )
         object_center = vertices.mean(axis=0)
         object_radius = np.max(np.std(vertices, axis=0))
         self.camera_center = object_center + np.array([-0.5, 0, 5]) * object_radius
-- 
2.43.0

