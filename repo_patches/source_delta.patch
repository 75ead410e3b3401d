From 593964fa61767f5c1bb460f5390363aa55b8da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 01/58] fix: no NaN or wrong line of sight when a camera looks
 along the glass normal

The sine of the incidence angle was computed as sqrt(1 - n*n); rounding of the
unit vectors can make |n| exceed 1, which gave a NaN ray, or leave only noise,
which was then blown up by the normalisation of the glass-parallel direction.
---
 liboptv/src/ray_tracing.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/ray_tracing.c b/liboptv/src/ray_tracing.c
index 0af82f5..3119ffb 100644
--- a/liboptv/src/ray_tracing.c
+++ b/liboptv/src/ray_tracing.c
@@ -12,6 +12,15 @@ References:
 #include <stdio.h>
 #include "ray_tracing.h"
 
+/*  parallel_component() returns the glass-parallel component of a unit vector
+    from its glass-normal component, 0 if what is left is only rounding error:
+    |n| may exceed 1 by rounding, and the glass-parallel direction is noise.
+*/
+static double parallel_component(double n) {
+    double p2 = 1 - n * n;
+    return (p2 > 1e-14) ? sqrt(p2) : 0.0;
+}
+
 /*  ray_tracing () traces the optical ray through the multi-media interface of
     (presently) three layers, typically air - glass - water, and returns the
     position of the ray crossing point and the vector normal to the interface.
@@ -58,7 +67,7 @@ void ray_tracing (double x, double y, Calibration* cal, mm_np mm, vec3d X,
     unit_vector(tmp2, bp);
     
     /* Transform to direction inside glass, using Snell's law */
-    p = sqrt(1 -  n *  n) * mm.n1/mm.n2[0]; /* glass parallel */
+    p = parallel_component(n) * mm.n1/mm.n2[0]; /* glass parallel */
     n =  -sqrt(1 - p * p); /* glass normal */
     
     /* Propagation length in glass parallel to glass vector */
@@ -76,7 +85,7 @@ void ray_tracing (double x, double y, Calibration* cal, mm_np mm, vec3d X,
     vec_subt(a2, tmp2, tmp2);
     unit_vector(tmp2, bp);
 
-    p = sqrt(1 - n * n);
+    p = parallel_component(n);
     p = p * mm.n2[0]/mm.n3;
     n = -sqrt(1 - p * p);
     
-- 
2.43.0


From 4e47878b3c22535f7772b059c095333027dd5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 02/58] fix: distortion and its correction set their output at
 the image centre

Both returned without writing the result for the point (0, 0), leaving the
caller with whatever the output variables held before.
---
 liboptv/src/trafo.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..c660ced 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -171,7 +171,11 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
   
   
   r = sqrt (x*x + y*y);
-  if (r != 0)
+  if (r == 0)
+    {
+      *x1 = 0;  *y1 = 0;
+    }
+  else
     {
       x += x * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
@@ -210,7 +214,11 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        *x1 = 0;
+        *y1 = 0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
-- 
2.43.0


From adbe8bfd62f9dc39a7e386b91845b8cb2c31bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 03/58] fix: correction of sensor shear inverts the distortion
 exactly

The distortion shears by the y coordinate before the affine transformation, that
is y/cos(she), but the correction used the fully corrected y, so shear combined
with lens distortion did not cancel.
---
 liboptv/src/trafo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index c660ced..a6bd4b3 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -227,7 +227,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     
     do {
         r = rq;
-        xq = (x + yq*sin(ap.she))/ap.scx
+        xq = (x + y*tan(ap.she))/ap.scx
             - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
         yq = y/cos(ap.she)
@@ -247,7 +247,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     /* Final step uses the iteratively-found R and x, y to apply the exact
        correction, equivalent to one more iteration. */
     r = rq;
-    *x1 = (x + yq*sin(ap.she))/ap.scx
+    *x1 = (x + y*tan(ap.she))/ap.scx
 	    - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
     *y1 = y/cos(ap.she)
-- 
2.43.0


From be3cba83437a927ee65127718d6071bf3d48699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 04/58] fix: decentering distortion in y uses the undistorted x

The y term of the decentering distortion was computed from the already distorted
x, which is neither the Brown model nor what the correction inverts.
---
 liboptv/src/trafo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index a6bd4b3..2b4ff1f 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -167,7 +167,7 @@ void metric_to_pixel(double * x_pixel
     double *x1, *y1 - output metric distorted parameters.
 */
 void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
-  double		r;
+  double		r, x_flat = x;
   
   
   r = sqrt (x*x + y*y);
@@ -181,7 +181,7 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
-	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
+	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x_flat*y;
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
-- 
2.43.0


From 90009e9bd4049f9b07db2dd584a99fe4159f12c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 05/58] fix: rotation matrix agrees with the angles after a
 failed raw orientation

---
 liboptv/src/orientation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 21f23c2..d4c4f42 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -690,9 +690,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
     }
 
-    if (stopflag) {
-        rotation_matrix(&(cal->ext_par));
-    }
+    /* Also on failure, the matrix must agree with the angles left behind. */
+    rotation_matrix(&(cal->ext_par));
+    
     return stopflag;
 }
 
-- 
2.43.0


From fb65372e173e6fb5a4bf6f210d791fc75787ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 06/58] fix: raw orientation with more than 5 points overflowed
 its arrays

---
 liboptv/src/orientation.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index d4c4f42..ec8ecf3 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -613,14 +613,17 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
 int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[])
 {
-    double  X[10][6], y[10], XPX[6][6], XPy[6], beta[6];
+    double  (*X)[6], *y, XPX[6][6], XPy[6], beta[6];
     int     i, j, n, itnum, stopflag;
     double  dm = 0.0001,  drad = 0.0001;
     double 	xp, yp, xc, yc;
     vec3d   pos;
 
+    X = malloc(sizeof (*X) * nfix*2);
+    y = malloc(sizeof (*y) * nfix*2);
+
     /* init X, y (set to zero) */
-    for (i = 0; i < 10; i++) {
+    for (i = 0; i < nfix*2; i++) {
       for (j = 0; j < 6; j++)
         X[i][j] = 0;
       y[i] = 0;
@@ -693,6 +696,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     /* Also on failure, the matrix must agree with the angles left behind. */
     rotation_matrix(&(cal->ext_par));
     
+    free(X);
+    free(y);
+    
     return stopflag;
 }
 
-- 
2.43.0


From a6b4d96111fc9b513d50991cade8e006cd76672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 07/58] fix: orient() leaked its working copy of the
 calibration and an array

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index ec8ecf3..08187e1 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -577,15 +577,18 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     free(X);
     free(P);
     free(y);
+    free(yh);
     free(Xbeta);
     free(Xh);
 
     if (stopflag){
         rotation_matrix(&(cal->ext_par));
         memcpy(cal_in, cal, sizeof (Calibration));
+        free(cal);
         return resi;
     }
     else {
+        free(cal);
         free(resi);
         return NULL;
     }
-- 
2.43.0


From 758b3b1435066729c6ff229ccee138a7571d3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 08/58] fix: read_man_ori_fix() rejects short files and closes
 its file once

---
 liboptv/src/orientation.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 08187e1..8f89e49 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -722,7 +722,7 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
     char* man_ori_filename, int cam)
 {
     FILE* fpp;
-    int	dummy, pnr, nr[4],i;
+    int	pnr, nr[4],i;
     int num_fix, num_match;
     vec3d *fix = NULL;
 
@@ -732,14 +732,17 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
         goto handle_error;
     }
 
-    for (i=0; i<cam; i++)
-        fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
-    fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]);
+    for (i=0; i<=cam; i++)
+        if (fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4) {
+            printf("Error reading manual orientation file %s\n", man_ori_filename);
+            goto handle_error;
+        }
     fclose (fpp);
+    fpp = NULL;
 
     /* read the id and positions of the fixed points, assign the pre-defined to fix4 */
     fix = read_calblock(&num_fix, calblock_filename);
-    if (num_fix < 4) {
+    if (fix == NULL || num_fix < 4) {
         printf("Too few points or incompatible file: %s\n", calblock_filename);
         goto handle_error;
     }
-- 
2.43.0


From 66e4a5d4e3cca5b6cec8c7e8931c10a412d042cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 09/58] fix: lookups past the edge of the refraction table use
 the exact solution

---
 liboptv/src/multimed.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..4a44237 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -341,7 +341,7 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
    Calibration parameters pointer, *cal
 */
 double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
-    int i, ir,iz, nr,nz, rw, v4[4];
+    int ir,iz, nr,nz, rw, v4[4];
     double R, sr, sz, mmf = 1.0;
     vec3d temp;
     
@@ -362,9 +362,9 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     nr = cal->mmlut.nr;
     
     /* check whether point is inside camera's object volume */
-    if (ir > nr)
+    if (ir + 1 >= nr)
         return (0);
-    if (iz < 0  ||  iz > nz)
+    if (temp[2] < 0  ||  iz + 1 >= nz)
         return (0);
   
     /* bilinear interpolation in r/z box */
@@ -376,12 +376,6 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     v4[2] = (ir+1)*nz + iz;
     v4[3] = (ir+1)*nz + (iz+1);
   
-    /* 2. check wther point is inside camera's object volume */
-    /* important for epipolar line computation */
-    for (i = 0; i < 4; i++)
-        if (v4[i] < 0  ||  v4[i] > nr*nz)
-            return (0);
-    
     /* interpolate */
     mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
         + cal->mmlut.data[v4[1]] * (1-sr)*sz
-- 
2.43.0


From 47161365f39c40ac422252300e8069096017ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 10/58] fix: building the refraction table again replaces the
 old table

---
 liboptv/src/multimed.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 4a44237..4359484 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -307,6 +307,11 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   cal->mmlut.nz = nz;
   cal->mmlut.rw = rw;
   
+  /* a table from an earlier call has the wrong size and content by now */
+  free (cal->mmlut.data);
+  cal->mmlut.data = NULL;
+  cal_t.mmlut.data = NULL;
+  
   if (cal->mmlut.data == NULL) {
       data = (double *) malloc (nr*nz * sizeof (double));
   
-- 
2.43.0


From dd476d884eaeead566695ae857b38e25b896d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 11/58] fix: full orientation compares image positions in the
 same (distorted) coordinates

---
 liboptv/src/orientation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 8f89e49..6257ba4 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -360,9 +360,9 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
             case 3: if ((i % 3) == 0)  continue;  break;
         }
 
-        /* get metric flat-image coordinates of the detected point */
+        /* get metric image coordinates of the detected point, distorted as
+           are those that img_coord() gives */
         pixel_to_metric (&xc, &yc, pix[i].x, pix[i].y, cpar);
-        correct_brown_affin (xc, yc, cal->added_par, &xc, &yc);
 
         /* Projected 2D position on sensor of corresponding known point */
         rotation_matrix(&(cal->ext_par));
-- 
2.43.0


From ea8de9951446d6acdd37c4da96e6126c48887443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 12/58] fix: adjustment of the glass moves it along the glass
 and keeps the moves

---
 liboptv/src/orientation.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 6257ba4..3adf81c 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -306,15 +306,15 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
         cal->glass_par.vec_x, cal->glass_par.vec_y, cal->glass_par.vec_z);
     nGl = vec_norm(glass_dir);
 
-    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_x;
+    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_y;
     e1_y = 3*cal->glass_par.vec_x - 1*cal->glass_par.vec_z;
-    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_y;
+    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_x;
     vec_set(tmp_vec, e1_x, e1_y, e1_z);
     unit_vector(tmp_vec, e1);
 
-    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_x;
+    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_y;
     e2_y = e1_z*cal->glass_par.vec_x - e1_x*cal->glass_par.vec_z;
-    e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_y;
+    e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_x;
     vec_set(tmp_vec, e2_x, e2_y, e2_z);
     unit_vector(tmp_vec, e2);
 
@@ -557,6 +557,11 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
           cal->glass_par.vec_x += e2[0]*nGl*beta[17];
           cal->glass_par.vec_y += e2[1]*nGl*beta[17];
           cal->glass_par.vec_z += e2[2]*nGl*beta[17];
+
+          /* the next iteration's derivatives start from the moved glass */
+          safety_x = cal->glass_par.vec_x;
+          safety_y = cal->glass_par.vec_y;
+          safety_z = cal->glass_par.vec_z;
       }
     }
 
-- 
2.43.0


From e74de3291ce013bdd4ac2c43ee990795899c27af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 13/58] fix: undetermined orientation counts as not converged

---
 liboptv/src/orientation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 3adf81c..1e0902e 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -519,7 +519,7 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
       stopflag = 1;
       for (i = 0; i < numbers; i++) {
-          if (fabs (beta[i]) > CONVERGENCE)  stopflag = 0;
+          if (! (fabs (beta[i]) <= CONVERGENCE))  stopflag = 0; /* also NaN */
       }
 
       if ( ! flags->ccflag) beta[6] = 0.0;
@@ -688,7 +688,7 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
         stopflag = 1;
         for (i = 0; i < 6; i++) {
-          if (fabs (beta[i]) > 0.1 )
+          if (! (fabs (beta[i]) <= 0.1)) /* also NaN */
             stopflag = 0;
         }
     
-- 
2.43.0


From c45dfd570167f62e1f4a37032718e21d0a816ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 14/58] fix: raw orientation from fewer than 3 points reports
 failure

---
 liboptv/src/orientation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 1e0902e..e7ad1cb 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -652,7 +652,8 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     itnum = 0;
     stopflag = 0;
 
-    while ((stopflag == 0) && (itnum < 20)) {
+    /* fewer than 3 points do not determine the 6 parameters */
+    while ((nfix >= 3) && (stopflag == 0) && (itnum < 20)) {
         ++itnum;
 
         for (i = 0, n = 0; i < nfix; i++) {
-- 
2.43.0


From 3f235eb81405ab0a9bf9364c20ef7dd596fc9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 15/58] fix: candidate search starts at the first candidate
 also in long lists

---
 liboptv/src/epi.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index f14ceef..f6ff911 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -177,9 +177,9 @@ int find_candidate (coord_2d *crd, target *pix, int num,
           j0 -= dj;
   }
       
-  /* due to truncation error we might shift to smaller x */
-  j0 -= 12;  
-  if (j0 < 0)  j0 = 0; 
+  /* due to truncation error we might have passed the first candidates */
+  while (j0 > 0  &&  (j0 >= num || crd[j0 - 1].x >= (xa - tol_band_width)))
+      j0--;
 
   for (j = j0; j < num; j++) {  /* candidate search */
       	
-- 
2.43.0


From 40cc4eba7d34acfa7660a5ae99206737f695ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 16/58] fix: candidate group buffer holds as many groups as the
 searches may find

---
 liboptv/src/correspondences.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..98472d7 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -620,7 +620,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /* Allocation of scratch buffers for internal tasks and return-value 
      space. 
   */
-  con0 = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel));
+  con0 = (n_tupel *) malloc(4*nmax * sizeof(n_tupel));
   con = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel)); 
   
   tim = safely_allocate_target_usage_marks(cpar->num_cams);
-- 
2.43.0


From c029b356c4b228a4c86c5695eb3bb2684e4ab1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 17/58] fix: queue of pixels to examine holds any bright region

---
 liboptv/src/segmentation.c | 63 ++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fbe6e9d..61765bd 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -45,8 +45,8 @@ Returns:
 int targ_rec (unsigned char *img, target_par *targ_par, int xmin, 
     int xmax, int ymin, int ymax, control_par *cpar, int num_cam, target pix[])
 {
-    register int  i, j, m;
-    int           n=0, n_wait=0, n_targets=0, sumg;
+    register int  i, j;
+    int           n=0, n_wait=0, n_done=0, n_targets=0, sumg;
     int           numpix;
     int           thres, disco;
     int           xa,ya,xb,yb, x4[4],y4[4], xn,yn, nx, ny; 
@@ -55,13 +55,16 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     register unsigned char    gv, gvref;
 
-    targpix waitlist[2048];
+    targpix *waitlist;
 
     /* avoid many dereferences */
     int imx, imy;
     imx = cpar->imx;
     imy = cpar->imy;
 
+    /* A pixel is queued at most once. */
+    waitlist = (targpix *) malloc (imx*imy * sizeof(targpix));
+
     thres = targ_par->gvthres[num_cam];
     disco = targ_par->discont;
     
@@ -103,16 +106,17 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
             x = (xn) * gv;
             y = yn * gv;
             numpix = 1;
-            waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;
+            waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;  n_done = 0;
 
 
-            while (n_wait > 0) {
-                gvref = *(img + imx*(waitlist[0][1]) + (waitlist[0][0]));
+            while (n_done < n_wait) {
+                xn = waitlist[n_done][0];  yn = waitlist[n_done][1];
+                gvref = *(img + imx*yn + xn);
 
-                x4[0] = waitlist[0][0] - 1;  y4[0] = waitlist[0][1];
-                x4[1] = waitlist[0][0] + 1;  y4[1] = waitlist[0][1];
-                x4[2] = waitlist[0][0];  y4[2] = waitlist[0][1] - 1;
-                x4[3] = waitlist[0][0];  y4[3] = waitlist[0][1] + 1;
+                x4[0] = xn - 1;  y4[0] = yn;
+                x4[1] = xn + 1;  y4[1] = yn;
+                x4[2] = xn;  y4[2] = yn - 1;
+                x4[3] = xn;  y4[3] = yn + 1;
 
 
                 for (n=0; n<4; n++) {
@@ -152,13 +156,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
                       }
                 }
 
-                n_wait--;
-                for (m=0; m<n_wait; m++) {
-                    waitlist[m][0] = waitlist[m+1][0];
-                    waitlist[m][1] = waitlist[m+1][1];
-                }
-                waitlist[n_wait][0] = 0;  waitlist[n_wait][1] = 0;
-
+                n_done++;
             }   /*  end of while-loop  */
 
             /* check whether target touches image borders */
@@ -200,6 +198,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
           } /*  end of if-loop  */
     }
     free(img0);
+    free(waitlist);
     /* protect pix from zero memory */
     if (n_targets < 1){
         pix[0].n = 1;
@@ -245,7 +244,7 @@ int peak_fit (unsigned char *img, target_par *targ_par, int xmin, int xmax,
 int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     int imx, imy; /* save dereferencing of same in cpar */
     int           n_peaks=0;        /* # of peaks detected */
-    int           n_wait;               /* size of waitlist for connectivity */
+    int           n_wait, n_done;       /* waitlist for connectivity: size, processed */
     int           x8[4], y8[4];         /* neighbours for connectivity */
     int           p2;               /* considered point number */
     int           thres, disco;
@@ -256,7 +255,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     int           unify;              /* flag for unification of targets */
     int           unified=0;          /* # of unified targets */
     int       non_unified=0;          /* # of tested, but not unified targets */
-    register int  i, j, k, l, m, n;     /* loop variables */
+    register int  i, j, k, l, n;     /* loop variables */
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
@@ -264,7 +263,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     /* the following were not assigned, probably from globals */
     int nmax = 1024; 
     peak          *peaks, *ptr_peak;    /* detected peaks */
-    targpix       waitlist[2048];     /* pix to be tested for connectivity */
+    targpix       *waitlist;          /* pix to be tested for connectivity */
 
     imx = cpar->imx;
     imy = cpar->imy;
@@ -274,6 +273,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
     /* allocate memory */
     label_img = (short *) calloc (imx*imy, sizeof(short));
+    waitlist = (targpix *) malloc (imx*imy * sizeof(targpix));
     peaks = (peak *) calloc (4*nmax, sizeof(peak));
     ptr_peak = peaks;
 
@@ -315,15 +315,16 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
               for (k=0; k<4; k++)   ptr_peak->touch[k] = 0;
               ptr_peak++;
 
-              waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;
+              waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;  n_done = 0;
 
-              while (n_wait > 0) {
-                  gvref = *(img + imx*(waitlist[0][1]) + (waitlist[0][0]));
+              while (n_done < n_wait) {
+                  xn = waitlist[n_done][0];  yn = waitlist[n_done][1];
+                  gvref = *(img + imx*yn + xn);
 
-                  x8[0] = waitlist[0][0] - 1;   y8[0] = waitlist[0][1];
-                  x8[1] = waitlist[0][0] + 1;   y8[1] = waitlist[0][1];
-                  x8[2] = waitlist[0][0];       y8[2] = waitlist[0][1] - 1;
-                  x8[3] = waitlist[0][0];       y8[3] = waitlist[0][1] + 1;
+                  x8[0] = xn - 1;   y8[0] = yn;
+                  x8[1] = xn + 1;   y8[1] = yn;
+                  x8[2] = xn;       y8[2] = yn - 1;
+                  x8[3] = xn;       y8[3] = yn + 1;
                   
                   for (k=0; k<4; k++) {
                       yn = y8[k];
@@ -356,12 +357,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                         }
                   }
 
-                  n_wait--;
-                  for (m=0; m<n_wait; m++) {  
-                    waitlist[m][0] = waitlist[m+1][0];
-                    waitlist[m][1] = waitlist[m+1][1];
-                  }
-                  waitlist[n_wait][0] = 0;  waitlist[n_wait][1] = 0;
+                  n_done++;
               }   /*  end of while-loop  */
             }
     }
@@ -498,6 +494,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     }
     
     free (label_img);
+    free (waitlist);
     free (peaks);
 
     return (n_target);
-- 
2.43.0


From 7a18c1ed32548de68eb4bd4596e50090ca5cd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 18/58] fix: peak fitting read outside the image and overflowed
 the list of peaks

---
 liboptv/src/segmentation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 61765bd..6ce5d1a 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -271,6 +271,12 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     thres = targ_par->gvthres[num_cam];
     disco = targ_par->discont;
 
+    /* Make sure the search for neighbours stays inside the image memory. */
+    if (xmin <= 0) xmin = 1;
+    if (ymin <= 0) ymin = 1;
+    if (xmax >= imx) xmax = imx - 1;
+    if (ymax > imy) ymax = imy;
+
     /* allocate memory */
     label_img = (short *) calloc (imx*imy, sizeof(short));
     waitlist = (targpix *) malloc (imx*imy * sizeof(targpix));
@@ -299,6 +305,9 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
            &&   gv >= *(img + n-imx+1)
            &&   gv >= *(img + n+imx+1) )
             {
+              /* no room for more peaks */
+              if (n_peaks >= 4*nmax)    continue;
+
               /* label peak in label_img, initialize peak */
               n_peaks++;
               *(label_img + n) = n_peaks;
-- 
2.43.0


From 34d582131c94f1906f505ebeab88c096f147862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 19/58] fix: a unified peak is counted once, also when unified
 with the first peak

---
 liboptv/src/segmentation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 6ce5d1a..0866306 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -454,7 +454,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
           /* otherwise unify targets */
           unified++;
-          peaks[i].unr = p2;
+          peaks[i].unr = p2 + 1;
           peaks[p2].x += peaks[i].x;
           peaks[p2].y += peaks[i].y;
           peaks[p2].sumg += peaks[i].sumg;
@@ -463,6 +463,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (peaks[i].ymin < peaks[p2].ymin)   peaks[p2].ymin = peaks[i].ymin;
           if (peaks[i].xmax > peaks[p2].xmax)   peaks[p2].xmax = peaks[i].xmax;
           if (peaks[i].ymax > peaks[p2].ymax)   peaks[p2].ymax = peaks[i].ymax;
+          break;    /* no longer a target of its own */
       }
     }
 
-- 
2.43.0


From 2a4e8376dae1400b2b1f73ad4af15e90d0442eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 20/58] fix: touching peaks are found and unified in the right
 half and in bright parts of images

---
 liboptv/src/segmentation.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 0866306..f908d82 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -252,6 +252,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     int           pnr, sumg, xn, yn;  /* collecting variables for center of gravity */
     int           n_target=0;         /* # of targets detected */
     int           intx1, inty1;       /* pixels for profile test and crosses */
+    int           profile;            /* greyvalue and allowance on the profile */
     int           unify;              /* flag for unification of targets */
     int           unified=0;          /* # of unified targets */
     int       non_unified=0;          /* # of tested, but not unified targets */
@@ -398,14 +399,14 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
               if (i>0 && j>1)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
               if (i>0)                  check_touch (ptr_peak, pnr, *(label_img+n-imx));
-              if (i>0 && j<imy-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
+              if (i>0 && j<imx-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
 
               if (j>0)                  check_touch (ptr_peak, pnr, *(label_img+n-1));
-              if (j<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
+              if (j<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
 
-              if (i<imx-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
-              if (i<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
-              if (i<imx-1 && j<imy-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
+              if (i<imy-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
+              if (i<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
+              if (i<imy-1 && j<imx-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
           }
     }
 
@@ -443,8 +444,8 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           else for (unify=1, l=1; l<s12; l++) {
               intx1 = (int) (x1 + l * (x2 - x1) / s12);
               inty1 = (int) (y1 + l * (y2 - y1) / s12);
-              gv = *(img + inty1*imx + intx1) + disco;
-              if (gv < (gv1+l*(gv2-gv1)/s12) || gv<gv1 || gv<gv2)   unify = 0;
+              profile = *(img + inty1*imx + intx1) + disco;
+              if (profile < (gv1+l*(gv2-gv1)/s12) || profile<gv1 || profile<gv2)   unify = 0;
               if (unify == 0)   break;
           }
           if (unify == 0) {
-- 
2.43.0


From f5faa163b2466a8e1259dc27aa655772f2cd0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 21/58] fix: 3x3 filter saturates results that are negative or
 do not fit 16 bits

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index e58fed0..872588e 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -51,7 +51,7 @@ int filter_3(unsigned char *img, unsigned char *img_lp, filter_t filt,
         *ptr7, *ptr8, *ptr9;
 	int end;
 	double sum = 0;
-	unsigned short buf;
+	double buf;
 	register int i, j;
     int image_size = cpar->imx * cpar->imy;
 
-- 
2.43.0


From 868717e9175a7e2dd99c7fc7d29db8b99dd4cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 22/58] fix: box blur with a filter larger than the image left
 its buffers, and overflowed for wide filters

---
 liboptv/src/image_processing.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 872588e..08c40fd 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -136,15 +136,24 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     register unsigned char  *ptrl, *ptrr, *ptrz;
     register int *ptr, *ptr1, *ptr2, *ptr3;
     int *row_accum, *col_accum, accum, *end;
-    int row_start, n, nq, m;
+    int row_start, n, n_rows, nq, m, row_span;
     register int i;
     int image_size = cpar->imx * cpar->imy;
     
-    n = 2*filt_span + 1;
-    nq = n*n;
+    /* The filter is never wider or higher than the image. */
+    row_span = filt_span;
+    if (row_span > (cpar->imx - 1)/2) row_span = (cpar->imx - 1)/2;
+    if (filt_span > (cpar->imy - 1)/2) filt_span = (cpar->imy - 1)/2;
+    
+    n = 2*row_span + 1;
+    n_rows = 2*filt_span + 1;
+    nq = n*n_rows;
     
     if ((row_accum = (int *)calloc(image_size, sizeof(int))) == NULL) return 0;
-    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) return 0;
+    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) {
+        free(row_accum);
+        return 0;
+    }
     
     /* Sum over lines first [1]: */
     for (i = 0; i < cpar->imy; i++) {
@@ -154,13 +163,13 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         accum = *(src + row_start);
         *(row_accum + row_start) = accum * n;
         
-        /* Elements 1..filt_span have a growing filter, as much as fits.
+        /* Elements 1..row_span have a growing filter, as much as fits.
            Each iteration increases the filter symmetrically, so 2 new elements 
            are taken.
         */
         for (ptr = row_accum + row_start + 1, 
             ptrr = src + row_start + 2, ptrl = ptrr - 1, m = 3;
-            ptr < row_accum + row_start + 1 + filt_span;
+            ptr < row_accum + row_start + 1 + row_span;
             ptr++, ptrl+=2, ptrr+=2, m+=2) 
         {    
             accum += (*ptrl + *ptrr);
@@ -172,7 +181,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
            by adding the coming element and dropping the leaving element, in a 
            sliding window fashion. 
         */
-        for (ptr = row_accum + row_start + filt_span + 1,
+        for (ptr = row_accum + row_start + row_span + 1,
             ptrl = src + row_start, ptrr = src + row_start + n;
             ptrr < src + row_start + cpar->imx;
             ptrl++, ptr++, ptrr++)
@@ -184,7 +193,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         /* last elements in line treated like first ones, mutatis mutandis */
         for (ptrl = src + row_start + cpar->imx - n,
             ptrr = ptrl + 1, m = n - 2,
-            ptr = row_accum + row_start + cpar->imx - filt_span;
+            ptr = row_accum + row_start + cpar->imx - row_span;
             ptr < row_accum + row_start + cpar->imx;
             ptrl += 2, ptrr += 2, ptr++, m-=2)
         {
@@ -213,14 +222,14 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 += (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i + 1);
+            *ptrz = *ptr3 / n / (2*i + 1);
         }
     }
     
     /* Middle lines with filter-size lines around them */
     for (i = filt_span + 1, ptr1 = row_accum, 
         ptrz = dest + cpar->imx*(filt_span + 1),
-        ptr2 = row_accum + cpar->imx*n; i < cpar->imy - filt_span; i++)
+        ptr2 = row_accum + cpar->imx*n_rows; i < cpar->imy - filt_span; i++)
     {
         for (ptr3 = col_accum; ptr3 < end; ptr3++, ptr1++, ptrz++, ptr2++) {
            *ptr3 += (*ptr2 - *ptr1);
@@ -236,7 +245,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i+1);
+            *ptrz = *ptr3 / n / (2*i+1);
         }
     }
     
-- 
2.43.0


From d2aa9515540440f705cbe1aea3d92764574db58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 23/58] fix: image preparation reports missing, short and
 broken filter files

---
 liboptv/src/image_processing.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 08c40fd..12f71a0 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -395,7 +395,10 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
       puts ("calloc for img_lp --> error");
       return 0;
   }
-  fast_box_blur(dim_lp, img, img_lp, cpar);
+  if ( ! fast_box_blur(dim_lp, img, img_lp, cpar)) {
+      free (img_lp);
+      return 0;
+  }
   subtract_img (img, img_lp, img_hp, cpar);
   
   /* consider field mode */
@@ -409,9 +412,14 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
+        if (fp == NULL) {
+            free (img_lp);
+            return 0;
+        }
         for (i = 0; i < 9; i++) {
-            if (fscanf(fp, "%lf", (double *)filt + i) == 0) {
+            if (fscanf(fp, "%lf", (double *)filt + i) != 1) {
                 fclose(fp);
+                free (img_lp);
                 return 0;
             }
         }
-- 
2.43.0


From 3d856bba380e901f4c053c040b30d30bd9acc01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 24/58] fix: additional filters of the highpass image work on
 its pixels, not on their own output

---
 liboptv/src/image_processing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 12f71a0..0529a22 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -408,7 +408,10 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
   /* filter highpass image, if wanted */
   switch (filter_hp) {
     case 0: break;
-    case 1: lowpass_3 (img_hp, img_hp, cpar);   break;
+    case 1:
+        copy_images (img_hp, img_lp, cpar);
+        lowpass_3 (img_lp, img_hp, cpar);
+        break;
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
@@ -425,7 +428,8 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
         }
         fclose (fp);
 
-        filter_3 (img_hp, img_hp, filt, cpar);
+        copy_images (img_hp, img_lp, cpar);
+        filter_3 (img_lp, img_hp, filt, cpar);
         break;
   }
   
-- 
2.43.0


From 36b5ea85564af1cb3490fce45b186b8b35365da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 25/58] fix: last lines of the box blur are averaged over the
 lines they sum

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 0529a22..b8c700a 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -245,7 +245,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = *ptr3 / n / (2*i+1);
+            *ptrz = *ptr3 / n / (2*i - 1);
         }
     }
     
-- 
2.43.0


From 3e6c51b0fde826873e8a1c395e827a5a9aa03fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 26/58] fix: sorting an empty list of targets or coordinates
 read before it

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 98472d7..ccac571 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From 3a2c2c5fd7d6a655938bf7589ad265992f10b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 27/58] fix: particles added while tracking stay within the
 frame and carry no state of another particle

---
 liboptv/src/track.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..361febf 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -684,6 +684,8 @@ int assess_new_position(vec3d pos, vec2d targ_pos[],
  * vec3d pos - position of inserted particle in the global coordinates.
  * int cand_inds[][MAX_CANDS] - indices of candidate targets for association
  *    with this particle.
+ * 
+ * Note: a frame that is already full is left as it is.
  */
 void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     int num_parts, cam, _ix;
@@ -692,24 +694,31 @@ void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     target **ref_targets;
     
     num_parts = frm->num_parts;
+    if (num_parts < 0) num_parts = 0; /* frame whose reading failed */
+    if (num_parts >= frm->max_targets) return;
+    
     ref_path_inf = &(frm->path_info[num_parts]);
     vec_copy(ref_path_inf->x, pos);
     reset_links(ref_path_inf);
     
+    /* These may be left from a particle of another frame. */
+    ref_path_inf->inlist = 0;
+    ref_path_inf->finaldecis = 1000000.0;
+    
     ref_corres = &(frm->correspond[num_parts]);
+    ref_corres->nr = num_parts + 1;
+    for (cam = 0; cam < 4; cam++) ref_corres->p[cam] = CORRES_NONE;
+    
     ref_targets = frm->targets;
     for (cam = 0; cam < frm->num_cams; cam++) {
-        ref_corres->p[cam] = CORRES_NONE;
-        
         /* We always take the 1st candidate, apparently. Why did we fetch 4? */
         if(cand_inds[cam][0] != PT_UNUSED) {
             _ix = cand_inds[cam][0];
             ref_targets[cam][_ix].tnr = num_parts;
             ref_corres->p[cam] = _ix;
-            ref_corres->nr = num_parts;
         }
     }
-    frm->num_parts++;
+    frm->num_parts = num_parts + 1;
 }
 
 /* trackcorr_c_loop is the main tracking subroutine that scans the 3D particle position
@@ -752,6 +761,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
     target **curr_targets;
     int _ix;     /* For use in any of the complex index expressions below */
     int orig_parts; /* avoid infinite loop with particle addition set */
+    int orig_next; /* particles in the next frame before adding one */
 
     /* Shortcuts into the tracking_run struct */ 
     Calibration **cal;
@@ -971,10 +981,13 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                             dl = (vec_diff_norm(X[1], X[3]) +
                                   vec_diff_norm(X[0], X[1]) )/2;
                             rr = (dl/run_info->lmax + acc/tpar->dacc + angle/tpar->dangle)/(quali);
-                            register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts);
-
+                            orig_next = fb->buf[2]->num_parts;
                             add_particle(fb->buf[2], X[3], philf);
-                            num_added++;
+                            if (fb->buf[2]->num_parts > orig_next) {
+                                register_link_candidate(curr_path_inf, rr, 
+                                    fb->buf[2]->num_parts - 1);
+                                num_added++;
+                            }
                         }
                     }
                     in_volume = 0;
@@ -1065,6 +1078,7 @@ double trackback_c (tracking_run *run_info)
     int philf[4][MAX_CANDS];
     int count1 = 0, count2 = 0, num_added = 0;
     int quali = 0;
+    int orig_next; /* particles in the next frame before adding one */
     double angle, acc, dl;
     vec3d diff_pos, X[6];     /* 6 reference points used in the algorithm */
     vec2d n[4], v2[4];     // replaces xn,yn, x2[4], y2[4],
@@ -1184,9 +1198,11 @@ double trackback_c (tracking_run *run_info)
                                 dl = (vec_diff_norm(X[1], X[3]) +
                                       vec_diff_norm(X[0], X[1]) )/2;
                                 rr = (dl/run_info->lmax+acc/tpar->dacc + angle/tpar->dangle)/(quali);
-                                register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts);
-
+                                orig_next = fb->buf[2]->num_parts;
                                 add_particle(fb->buf[2], X[3], philf);
+                                if (fb->buf[2]->num_parts > orig_next)
+                                    register_link_candidate(curr_path_inf, rr, 
+                                        fb->buf[2]->num_parts - 1);
                             }
                         }
                         in_volume = 0;
-- 
2.43.0


From 505bc26874555343738c713c1e9c2c3e4420fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 28/58] fix: targets and particle files that are truncated,
 malformed, too long or misnamed are reported instead of read past

---
 liboptv/src/tracking_frame_buf.c | 323 +++++++++++++++++--------------
 1 file changed, 180 insertions(+), 143 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a75b4c6..6860671 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -9,6 +9,7 @@ reading targets, correspondences, etc.
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <limits.h>
 #include "tracking_frame_buf.h"
 
 /* Check that target t1 is equal to target t2, i.e. all their fields are equal.
@@ -26,31 +27,48 @@ int compare_targets(target *t1, target *t2) {
         (t1->sumg == t2->sumg) && (t1->tnr == t2->tnr));
 }
 
-/* Reads targets from a file. The number of targets is read from the first
- * line, then each line is one target.
- * 
+/* targets_fname() composes the name of the targets file of a frame.
+ *
  * Arguments:
- * target buffer[] - an allocated array of target structs to fill in from
- *   files.
- * char* file_base - base name of the files to read, to which a frame number
- *   and the suffix '_targets' is added.
- * int frame_num - number of frame to add to file_base. A value of 0 or less
- *   means that no frame number should be added.
- * 
+ * char *fname - output buffer, of at least STR_MAX_LEN + 1 characters.
+ * char *file_base, int frame_num - see read_targets().
+ *
  * Returns:
- * the number of targets found in the file, or -1 if an error occurred.
-*/
+ * True on success, 0 if the name is too long.
+ */
+static int targets_fname(char *fname, char *file_base, int frame_num) {
+    int len;
+    
+    if (frame_num > 0) {
+        len = snprintf(fname, STR_MAX_LEN + 1, "%s%04d%s", file_base, 
+            frame_num, "_targets");
+    } else {
+        len = snprintf(fname, STR_MAX_LEN + 1, "%s%s", file_base, "_targets");
+    }
+    return (len >= 0) && (len <= STR_MAX_LEN);
+}
 
-int read_targets(target buffer[], char* file_base, int frame_num) {
-    FILE *FILEIN;
+/* read_targets_limited() does the work of read_targets(), for a buffer of a
+ * known length.
+ * 
+ * Arguments:
+ * target buffer[], char* file_base, int frame_num - see read_targets().
+ * int max_targets - length of the buffer. 
+ *
+ * Returns:
+ * the number of targets found in the file, or -1 if an error occurred or if 
+ * there are more than max_targets targets in the file.
+ */
+static int read_targets_limited(target buffer[], int max_targets, 
+    char* file_base, int frame_num)
+{
+    FILE *FILEIN = NULL;
     int	tix, num_targets, scanf_ok;
     char filein[STR_MAX_LEN + 1];
 
-    if (frame_num > 0) {
-        sprintf(filein, "%s%04d%s", file_base, frame_num, "_targets");
-    } else {
-        strncpy(filein, file_base, STR_MAX_LEN);
-        strncat(filein, "_targets", STR_MAX_LEN);
+    if (! targets_fname(filein, file_base, frame_num)) {
+        printf("File name too long: %s\n", filein);
+        goto handle_error;
     }
     
     FILEIN = fopen (filein, "r");
@@ -59,10 +77,14 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) == 0) {
+    if ((fscanf(FILEIN, "%d\n", &num_targets) != 1) || (num_targets < 0)) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
+    if (num_targets > max_targets) {
+        printf("Too many targets in file: %s\n", filein);
+        goto handle_error;
+    }
     for (tix = 0; tix < num_targets; tix++)	{
 	  scanf_ok = fscanf (FILEIN, "%d %lf %lf %d %d %d %d %d\n",
 		  &(buffer[tix].pnr),  &(buffer[tix].x),
@@ -70,7 +92,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 		  &(buffer[tix].nx),   &(buffer[tix].ny),
 		  &(buffer[tix].sumg), &(buffer[tix].tnr) );
       
-      if (scanf_ok == 0) {
+      if (scanf_ok != 8) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
       }
@@ -84,6 +106,25 @@ handle_error:
     return -1;
 }
 
+/* Reads targets from a file. The number of targets is read from the first
+ * line, then each line is one target.
+ * 
+ * Arguments:
+ * target buffer[] - an allocated array of target structs to fill in from
+ *   files.
+ * char* file_base - base name of the files to read, to which a frame number
+ *   and the suffix '_targets' is added.
+ * int frame_num - number of frame to add to file_base. A value of 0 or less
+ *   means that no frame number should be added.
+ * 
+ * Returns:
+ * the number of targets found in the file, or -1 if an error occurred.
+*/
+
+int read_targets(target buffer[], char* file_base, int frame_num) {
+    return read_targets_limited(buffer, INT_MAX, file_base, frame_num);
+}
+
 /* Writes targets to a file. The number of targets is written to the first
  * line, then each line is one target.
  * 
@@ -102,14 +143,13 @@ handle_error:
 int write_targets(target buffer[], int num_targets, char* file_base, \
     int frame_num) {
     
-    FILE *FILEOUT;
+    FILE *FILEOUT = NULL;
     int	tix, printf_ok, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
-    if (frame_num == 0){
-        sprintf(fileout, "%s%s", file_base, "_targets");
-    } else {
-        sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
+    if (! targets_fname(fileout, file_base, frame_num)) {
+        printf("File name too long: %s\n", fileout);
+        goto finalize;
     }
 
     FILEOUT = fopen(fileout, "w");
@@ -206,88 +246,75 @@ void reset_links(P *self) {
     self->prio = PRIO_DEFAULT;
 }
 
-/* Reads rt_is files. these files contain both the path info and the 
- * information on correspondence between targets on the different images.
- * Sets fields not in file to default values.
- * 
+/* open_numbered() opens a file of one frame, with a name composed of a base 
+ * name, the separator '.' and the frame number.
+ *
  * Arguments:
- * corres *cor_buf - a buffer of corres structs to fill in from the file.
- * P *path_buf - same for path info structures.
- * char* corres_file_base, *linkage_file_base - base names of the output
- *   correspondence and likage files respectively, to which a frame number
- *   is added. Without separator.
- * char *prio_file_base - for the linkage file with added 'prio' column.
- * int frame_num - number of frame to add to file_base. A value of 0 or less
- *   means that no frame number should be added. The '.' separator is added
- * between the name and the frame number.
- * 
+ * char *file_base - base name, without the separator.
+ * int frame_num - the number of the frame.
+ * char *mode - as for fopen().
+ *
  * Returns:
- * The number of points read for this frame. -1 on failure.
-*/
-int read_path_frame(corres *cor_buf, P *path_buf, \
-    char *corres_file_base, char *linkage_file_base, char *prio_file_base,
-    int frame_num)
+ * the open file, or NULL on failure.
+ */
+static FILE *open_numbered(char *file_base, int frame_num, char *mode) {
+    char fname[STR_MAX_LEN + 1];
+    int len;
+    FILE *ret = NULL;
+    
+    len = snprintf(fname, STR_MAX_LEN + 1, "%s.%d", file_base, frame_num);
+    if ((len >= 0) && (len <= STR_MAX_LEN)) ret = fopen(fname, mode);
+    
+    /* Keeping the printf until we have proper logging. */
+    if (ret == NULL) printf("Can't open ascii file: %s\n", fname);
+    return ret;
+}
+
+/* read_path_frame_limited() does the work of read_path_frame(), for buffers of
+ * a known length.
+ *
+ * Arguments:
+ * int max_parts - length of cor_buf and path_buf.
+ * all others - see read_path_frame().
+ *
+ * Returns:
+ * The number of points read for this frame. -1 on failure, including more than
+ * max_parts points in the files.
+ */
+static int read_path_frame_limited(corres *cor_buf, P *path_buf, 
+    int max_parts, char *corres_file_base, char *linkage_file_base, 
+    char *prio_file_base, int frame_num)
 {
     FILE *filein, *linkagein = NULL, *prioin = NULL;
-    char fname[STR_MAX_LEN];
-    int read_res = 0, targets = -1, alt_link = 0;
+    int pix, num_parts, num_links, discard_int, targets = -1, alt_link = 0;
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
     
     /* File format: first line contains the number of points, then each line is
-    a record of path and correspondence info. We don't need the nuber of points
-    because we read to EOF anyway. */
-    
-    sprintf(fname, "%s.%d", corres_file_base, frame_num);
-    filein = fopen (fname, "r");
-    if (!filein) {
-        /* Keeping the printf until we have proper logging. */
-        printf("Can't open ascii file: %s\n", fname);
-        goto finalize;
-    }
+    a record of path and correspondence info. */
     
-    read_res = fscanf(filein, "%d\n", &read_res);
-    if (!read_res) goto finalize;
+    filein = open_numbered(corres_file_base, frame_num, "r");
+    if (!filein) goto finalize;
+    if (fscanf(filein, "%d\n", &num_parts) != 1) goto bad_format;
+    if ((num_parts < 0) || (num_parts > max_parts)) goto bad_format;
     
     if (linkage_file_base != NULL) {
-        sprintf(fname, "%s.%d", linkage_file_base, frame_num);
-        linkagein = fopen (fname, "r");
-        
-        if (!linkagein) {
-            /* Keeping the printf until we have proper logging. */
-            printf("Can't open linkage file: %s\n", fname);
-            goto finalize;
-        }
-    
-        read_res = fscanf(linkagein, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        linkagein = open_numbered(linkage_file_base, frame_num, "r");
+        if (!linkagein) goto finalize;
+        if (fscanf(linkagein, "%d\n", &num_links) != 1) goto bad_format;
     }
     
     if (prio_file_base != NULL) {
-        sprintf(fname, "%s.%d", prio_file_base, frame_num);
-        prioin = fopen (fname, "r");
-        
-        if (!prioin) {
-            /* Keeping the printf until we have proper logging. */
-            printf("Can't open prio file: %s\n", fname);
-            goto finalize;
-        }
-    
-        read_res = fscanf(prioin, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        prioin = open_numbered(prio_file_base, frame_num, "r");
+        if (!prioin) goto finalize;
+        if (fscanf(prioin, "%d\n", &num_links) != 1) goto bad_format;
     }
     
-    targets = 0;
-    do {
+    for (pix = 0; pix < num_parts; pix++, cor_buf++, path_buf++) {
         if (linkagein != NULL) {
-            read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
-	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
-            if (!read_res) {
-                printf("Error with linkage file format in: %s.%d\n",
-                    linkage_file_base, frame_num);
-                targets = -1;
-                break;
-            }
+            if (fscanf(linkagein, "%d %d %lf %lf %lf\n", &(path_buf->prev), 
+                &(path_buf->next), &discard, &discard, &discard) != 5)
+                goto bad_format;
         } else {
             /* Defaults: */
             path_buf->prev = -1;
@@ -295,15 +322,10 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         if (prioin != NULL) {
-            read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
-                &read_res, &read_res, &discard, &discard, &discard,
-                &(path_buf->prio) );
-            if (!read_res) {
-                printf("Error with linkage file format in: %s.%d\n",
-                    linkage_file_base, frame_num);
-                targets = -1;
-                break;
-            }
+            if (fscanf(prioin, "%d %d %lf %lf %lf %d\n", &discard_int, 
+                &discard_int, &discard, &discard, &discard, 
+                &(path_buf->prio)) != 6)
+                goto bad_format;
         } else {
             path_buf->prio = 4;
         }
@@ -319,21 +341,21 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         /* Rest of values: */
-        read_res = fscanf(filein, "%d %lf %lf %lf %d %d %d %d\n",\
-            &read_res, &(path_buf->x[0]), &(path_buf->x[1]), &(path_buf->x[2]),
+        if (fscanf(filein, "%d %lf %lf %lf %d %d %d %d\n", &discard_int, 
+            &(path_buf->x[0]), &(path_buf->x[1]), &(path_buf->x[2]),
             &(cor_buf->p[0]), &(cor_buf->p[1]), &(cor_buf->p[2]),
-            &(cor_buf->p[3]) );
+            &(cor_buf->p[3])) != 8) 
+            goto bad_format;
         
-        if (read_res != 8) {
-            targets = -1;
-            break;
-        }
-        
-        cor_buf->nr = ++targets;
-        
-        cor_buf++;
-        path_buf++;
-    } while (!feof(filein));
+        cor_buf->nr = pix + 1;
+    }
+    /* Note: a frame without any points is reported as a failure, too. */
+    if (num_parts > 0) targets = num_parts;
+    goto finalize;
+    
+bad_format:
+    printf("Bad format in the particle files of frame: %s.%d\n", 
+        corres_file_base, frame_num);
     
 finalize:
     if (filein != NULL) fclose(filein);
@@ -342,6 +364,32 @@ finalize:
     return targets;
 }
 
+/* Reads rt_is files. these files contain both the path info and the 
+ * information on correspondence between targets on the different images.
+ * Sets fields not in file to default values.
+ * 
+ * Arguments:
+ * corres *cor_buf - a buffer of corres structs to fill in from the file.
+ * P *path_buf - same for path info structures.
+ * char* corres_file_base, *linkage_file_base - base names of the output
+ *   correspondence and likage files respectively, to which a frame number
+ *   is added. Without separator.
+ * char *prio_file_base - for the linkage file with added 'prio' column.
+ * int frame_num - number of frame to add to file_base. A value of 0 or less
+ *   means that no frame number should be added. The '.' separator is added
+ * between the name and the frame number.
+ * 
+ * Returns:
+ * The number of points read for this frame. -1 on failure.
+*/
+int read_path_frame(corres *cor_buf, P *path_buf, \
+    char *corres_file_base, char *linkage_file_base, char *prio_file_base,
+    int frame_num)
+{
+    return read_path_frame_limited(cor_buf, path_buf, INT_MAX, 
+        corres_file_base, linkage_file_base, prio_file_base, frame_num);
+}
+
 /* write_path_frame() writes the correspondence and linkage information for a
  * frame with the next and previous frames. The information is weirdly 
  * distributed among two files. The rt_is file holds correspondence and 
@@ -367,34 +415,20 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     int frame_num) 
 {
     FILE *corres_file, *linkage_file = NULL, *prio_file = NULL;
-    char corres_fname[STR_MAX_LEN + 1], linkage_fname[STR_MAX_LEN + 1];
-    char prio_fname[STR_MAX_LEN + 1];
     int	pix, success = 0;
 
-    sprintf(corres_fname, "%s.%d", corres_file_base, frame_num);
-    corres_file = fopen (corres_fname, "w");
-    if (corres_file == NULL) {
-        printf("Can't open file %s for writing\n", corres_fname);
-        goto finalize;
-    }
+    corres_file = open_numbered(corres_file_base, frame_num, "w");
+    if (corres_file == NULL) goto finalize;
     
-    sprintf(linkage_fname, "%s.%d", linkage_file_base, frame_num);
-    linkage_file = fopen (linkage_fname, "w");
-    if (linkage_file == NULL) {
-        printf("Can't open file %s for writing\n", linkage_fname);
-        goto finalize;
-    }
+    linkage_file = open_numbered(linkage_file_base, frame_num, "w");
+    if (linkage_file == NULL) goto finalize;
 
     fprintf(corres_file, "%d\n", num_parts);
     fprintf(linkage_file, "%d\n", num_parts);
     
     if (prio_file_base != NULL) {
-        sprintf(prio_fname, "%s.%d", prio_file_base, frame_num);
-        prio_file = fopen (prio_fname, "w");
-        if (prio_file == NULL) {
-            printf("Can't open file %s for writing\n", prio_fname);
-            goto finalize;
-        }
+        prio_file = open_numbered(prio_file_base, frame_num, "w");
+        if (prio_file == NULL) goto finalize;
         fprintf(prio_file, "%d\n", num_parts);
     }
 
@@ -438,7 +472,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->correspond = (corres *) calloc(max_targets, sizeof(corres));
     
     new_frame->targets = (target**) calloc(num_cams, sizeof(target*));
-    new_frame->num_targets = (int *) calloc(max_targets, sizeof(int));
+    new_frame->num_targets = (int *) calloc(num_cams, sizeof(int));
     
     for (cam = 0; cam < num_cams; cam++) {
         new_frame->targets[cam] = \
@@ -499,22 +533,25 @@ int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
     char *prio_file_base, char **target_file_base,
     int frame_num)
 {
-    int cam;
-    
-    self->num_parts = read_path_frame(self->correspond, self->path_info,
-        corres_file_base, linkage_file_base, prio_file_base, frame_num);
-    if (self->num_parts == -1) return 0;
+    int cam, count, success;
     
     /* Prevent crashes by testing for initial allocation */
     if (self->num_targets == 0) return 0;
     
+    self->num_parts = read_path_frame_limited(self->correspond, 
+        self->path_info, self->max_targets, corres_file_base, 
+        linkage_file_base, prio_file_base, frame_num);
+    success = (self->num_parts != -1);
+    
+    /* Don't leave the targets of another frame there on failure. */
     for (cam = 0; cam < self->num_cams; cam++) {
-        self->num_targets[cam] = read_targets(
-            self->targets[cam], target_file_base[cam], frame_num);
-        if (self->num_targets[cam] == -1) return 0;
+        count = read_targets_limited(self->targets[cam], self->max_targets, 
+            target_file_base[cam], frame_num);
+        if (count == -1) success = 0;
+        self->num_targets[cam] = (count == -1) ? 0 : count;
     }
     
-    return 1;
+    return success;
 }
 
 /* write_frame() writes all of the frame associated data: correspondnces,
-- 
2.43.0


From 610997089d084976539591a476a4b944b282465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 29/58] fix: candidate search on an image misses no target of
 the window nor one equally distant as another

---
 liboptv/src/track.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 361febf..fa9e3da 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -259,6 +259,7 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
             }
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            while (j0 > 0 && next[j0 - 1].y >= ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */
                 if (next[j].tnr != TR_UNUSED ) {
                     if (next[j].y > ymax ) break;                     /* finish search */
@@ -275,15 +276,15 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
                             p4 = p3; p3 = p2; p2 = p1; p1 = j;
                             d4 = d3; d3 = d2; d2 = d1; d1 = d;
                         }
-                        else if ( d1 < d &&  d < d2 ) {
+                        else if ( d < d2 ) {
                             p4 = p3; p3 = p2; p2 = j;
                             d4 = d3; d3 = d2; d2 = d;
                         }
-                        else if ( d2 < d && d < d3 ) {
+                        else if ( d < d3 ) {
                             p4 = p3; p3 = j;
                             d4 = d3; d3 = d;
                         }
-                        else if ( d3 < d && d < d4 ) {
+                        else if ( d < d4 ) {
                             p4 = j;
                             d4 = d;
                         }
@@ -348,6 +349,7 @@ int candsearch_in_pix_rest (target next[], int num_targets, double cent_x, doubl
             }	
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */	
+            while (j0 > 0 && next[j0 - 1].y >= ymin) j0--;	
             for (j = j0; j<num_targets; j++) {           /* candidate search */	
                 if (next[j].tnr == TR_UNUSED ) {	
                     if (next[j].y > ymax ) break;                     /* finish search */	
-- 
2.43.0


From 8b85bf5d47ebc41c6f42d3a8e9b11edd2f674b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 30/58] fix: angle between steps is a number also for particles
 standing still or moving straight on

---
 liboptv/src/track.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index fa9e3da..0d2742d 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -192,6 +192,7 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double cosine, len;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
@@ -199,13 +200,18 @@ void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
     *acc = vec_diff_norm(v0, v1);
 
 
-    if ((v0[0] == -v1[0]) && (v0[1] == -v1[1]) && (v0[2] == -v1[2])) {
-        *angle = 200;
-    } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
+    if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
         *angle = 0;         // otherwise it returns NaN
+    } else if ((v0[0] == -v1[0]) && (v0[1] == -v1[1]) && (v0[2] == -v1[2])) {
+        *angle = 200;
     } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+        /* standing still has no direction to differ from the other one, and 
+           rounding may take the cosine out of the domain of acos(). */
+        len = vec_norm(v0) * vec_norm(v1);
+        cosine = (len > 0) ? vec_dot(v0, v1) / len : 1;
+        if (cosine > 1) cosine = 1;
+        if (cosine < -1) cosine = -1;
+        *angle = (200./M_PI) * acos(cosine);
     }
 }
 
-- 
2.43.0


From 7bae1f1a5ffa0579b352575380ee15dae553103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 31/58] fix: displacements to particles added while tracking
 are checked against the limits with their own sign and start

---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 0d2742d..f46532d 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -910,7 +910,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                     in_volume = 1;
                 }
 
-                vec_subt(X[3], X[4], diff_pos);
+                vec_subt(X[4], X[3], diff_pos);
                 if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                     angle_acc(X[3], X[4], X[5], &angle, &acc);
 
@@ -979,7 +979,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                         in_volume = 1;
                     }
 
-                    vec_subt(X[2], X[3], diff_pos);
+                    vec_subt(X[3], X[1], diff_pos);
                     if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                         angle_acc(X[1], X[2], X[3], &angle, &acc);
 
-- 
2.43.0


From 38a6750cd4c794c405fba5c34eb1e392129f20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 32/58] fix: tracked volume has definite limits, also
 backwards, and is not written into the caller's parameters

---
 liboptv/include/tracking_run.h |  1 +
 liboptv/src/track.c            | 21 ++++++++-------------
 liboptv/src/tracking_run.c     | 12 +++++++++---
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/liboptv/include/tracking_run.h b/liboptv/include/tracking_run.h
index 6cc6e14..5d04fe0 100644
--- a/liboptv/include/tracking_run.h
+++ b/liboptv/include/tracking_run.h
@@ -22,6 +22,7 @@ typedef struct {
     
     /* Intermediate calculations done in run setup phase and used in the loop: */
     double ymin, ymax, lmax;
+    double xmin, xmax, zmin, zmax; /* with ymin, ymax: the tracked volume */
     int npart, nlinks;
 } tracking_run;
 
diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index f46532d..4ecc099 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -775,7 +775,6 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
     Calibration **cal;
     framebuf_base *fb;
     track_par *tpar;
-    volume_par *vpar;
     control_par *cpar;
 
     foundpix *w, *wn; 
@@ -784,7 +783,6 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
     fb = run_info->fb;
     cal = run_info->cal;
     tpar = run_info->tpar;
-    vpar = run_info->vpar;
     cpar = run_info->cpar;
     curr_targets = fb->buf[1]->targets;
 
@@ -903,9 +901,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                 dl = point_position(v2, cpar->num_cams, cpar->mm, cal, X[4]);
 
                 /* volume check */
-                if ( vpar->X_lay[0] < X[4][0] && X[4][0] < vpar->X_lay[1] &&
+                if ( run_info->xmin < X[4][0] && X[4][0] < run_info->xmax &&
                      run_info->ymin < X[4][1] && X[4][1] < run_info->ymax &&
-                     vpar->Zmin_lay[0] < X[4][2] && X[4][2] < vpar->Zmax_lay[1])
+                     run_info->zmin < X[4][2] && X[4][2] < run_info->zmax)
                 {
                     in_volume = 1;
                 }
@@ -971,10 +969,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                     dl = point_position(v2, fb->num_cams, cpar->mm, cal, X[3]);
 
                     /* in volume check */
-                    if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
+                    if ( run_info->xmin < X[3][0] && X[3][0] < run_info->xmax &&
                          run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
-                         vpar->Zmin_lay[0] < X[3][2] &&
-                         X[3][2] < vpar->Zmax_lay[1])
+                         run_info->zmin < X[3][2] && X[3][2] < run_info->zmax)
                     {
                         in_volume = 1;
                     }
@@ -1090,13 +1087,12 @@ double trackback_c (tracking_run *run_info)
     double angle, acc, dl;
     vec3d diff_pos, X[6];     /* 6 reference points used in the algorithm */
     vec2d n[4], v2[4];     // replaces xn,yn, x2[4], y2[4],
-    double rr, Ymin = 0, Ymax = 0;
+    double rr;
     double npart = 0, nlinks = 0;
     foundpix *w;
 
     sequence_par *seq_par;
     track_par *tpar;
-    volume_par *vpar;
     control_par *cpar;
     framebuf_base *fb;
     Calibration **cal;
@@ -1108,7 +1104,6 @@ double trackback_c (tracking_run *run_info)
     cal = run_info->cal;
     seq_par = run_info->seq_par;
     tpar = run_info->tpar;
-    vpar = run_info->vpar;
     cpar = run_info->cpar;
 
     fb = run_info->fb;
@@ -1191,9 +1186,9 @@ double trackback_c (tracking_run *run_info)
                         point_position(v2, fb->num_cams, cpar->mm, cal, X[3]);
 
                         /* volume check */
-                        if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
-                             Ymin < X[3][1] && X[3][1] < Ymax &&
-                             vpar->Zmin_lay[0] < X[3][2] && X[3][2] < vpar->Zmax_lay[1])
+                        if ( run_info->xmin < X[3][0] && X[3][0] < run_info->xmax &&
+                             run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
+                             run_info->zmin < X[3][2] && X[3][2] < run_info->zmax)
                         {in_volume = 1;}
 
                         vec_subt(X[1], X[3], diff_pos);
diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8c983ae..89f437b 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -67,9 +67,15 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
     tr->lmax = norm((tpar->dvxmin - tpar->dvxmax), \
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
-    volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
-                    &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
-                    vpar, cpar, cal);
+    
+    /* volumedimension() extends the limits it is given. The parameters are 
+       the caller's, so they are not the place for the result. */
+    tr->xmax = vpar->X_lay[1];
+    tr->xmin = vpar->X_lay[0];
+    tr->ymax = -1e20;
+    tr->ymin = 1e20;
+    volumedimension(&(tr->xmax), &(tr->xmin), &(tr->ymax), &(tr->ymin), 
+                    &(tr->zmax), &(tr->zmin), vpar, cpar, cal);
     
     tr->npart = 0;
     tr->nlinks = 0;
-- 
2.43.0


From daaaba1b641a982b7c74f78cada63dcbcea3d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 33/58] fix: truncated, missing and overlong parameter files
 are reported instead of used half-read

---
 liboptv/src/parameters.c | 87 +++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 785328d..d976e29 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -37,15 +37,15 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
     ret = new_sequence_par(num_cams);
 
     for (cam = 0; cam < num_cams; cam++) {
-        read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok == 0) goto handle_error;
+        read_ok = fscanf(par_file, "%239s\n", line);
+        if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) == 0)
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) != 1)
         goto handle_error;
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) == 0)    
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) != 1)    
         goto handle_error;
 
     fclose(par_file);
@@ -156,15 +156,16 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dangle)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dacc)) == 0) goto handle_error;
-    if(fscanf(fpp, "%d\n", &(ret->add)) == 0) goto handle_error;
+    if(fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dangle)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dacc)) != 1) goto handle_error;
+    if(fscanf(fpp, "%d\n", &(ret->add)) != 1) goto handle_error;
     fclose (fpp);
     
     ret->dsumg = ret->dn = ret->dnx = ret->dny = 0;
@@ -173,7 +174,7 @@ parsing to fail */
 handle_error:
     printf("Error reading tracking parameters from %s\n", filename);
     free(ret);
-    fclose (fpp);
+    if (fpp != NULL) fclose(fpp);
     return NULL;
 }
 
@@ -227,19 +228,20 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) == 0) goto handle_error;
+    if(fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) != 1) goto handle_error;
     
-    if(fscanf(fpp, "%lf\n", &(ret->cnx)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cny)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cn)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->csumg)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->eps0)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cnx)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cny)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cn)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->csumg)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->eps0)) != 1) goto handle_error;
     
     fclose (fpp);
     return ret;
@@ -247,7 +249,7 @@ parsing to fail */
 handle_error:
     printf("Error reading volume parameters from %s\n", filename);
     free(ret);
-    fclose(fpp);
+    if (fpp != NULL) fclose(fpp);
     return NULL;
 }
 
@@ -351,32 +353,33 @@ parsing to fail */
         return NULL;
     }
 
-    if (fscanf(par_file, "%d\n", &num_cams) != 1) {
+    if ((fscanf(par_file, "%d\n", &num_cams) != 1) || (num_cams < 0)) {
         printf("Could not read number of cameras from %s", filename);
+        fclose(par_file);
         return NULL;
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
     
-    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imx)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imy)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->chfield)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) == 0) goto handle_error; 
+    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imx)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imy)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->chfield)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) != 1) goto handle_error; 
     
     fclose(par_file);
     ret->mm->nlay = 1;
-- 
2.43.0


From af8f2841e0ac8f54f3cf37685c66cde1888f9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 34/58] fix: sequence parameters with different image names
 compare as different

---
 liboptv/src/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index d976e29..8a46cbd 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -99,7 +99,7 @@ int compare_sequence_par(sequence_par *sp1, sequence_par *sp2) {
         return 0; /*not equal*/
 
     for (cam = 0; cam < sp1->num_cams; cam++) {
-        if (strcmp(sp1->img_base_name[cam],sp1->img_base_name[cam]) !=0){
+        if (strcmp(sp1->img_base_name[cam],sp2->img_base_name[cam]) !=0){
             return 0; /*not equal*/
         }
     }
-- 
2.43.0


From b304949c817b7def825c486b1b3b3df9cc491cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 35/58] fix: new sequence and control parameters have definite
 contents

---
 liboptv/src/parameters.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 8a46cbd..8e78861 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -73,12 +73,12 @@ sequence_par * new_sequence_par(int num_cams) {
     int cam;
     sequence_par *ret;
 
-    ret = (sequence_par *) malloc(sizeof(sequence_par));
+    ret = (sequence_par *) calloc(1, sizeof(sequence_par));
     ret->img_base_name = (char **) calloc(num_cams, sizeof(char *));
 
     ret->num_cams = num_cams;
     for (cam = 0; cam < num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
     return ret;
 }
@@ -286,7 +286,7 @@ int compare_volume_par(volume_par *v1, volume_par *v2) {
 */
 control_par * new_control_par(int cams) {
     int cam;
-    control_par *ret = (control_par *) malloc(sizeof(control_par));
+    control_par *ret = (control_par *) calloc(1, sizeof(control_par));
 
     ret->num_cams = cams;
 
@@ -294,11 +294,11 @@ control_par * new_control_par(int cams) {
     ret->cal_img_base_name = (char **) calloc(ret->num_cams, sizeof(char *));
 
     for (cam = 0; cam < ret->num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
-        ret->cal_img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
+        ret->cal_img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
 
-    ret->mm = (mm_np *) malloc(sizeof(mm_np));
+    ret->mm = (mm_np *) calloc(1, sizeof(mm_np));
 
     return ret;
 }
-- 
2.43.0


From ff1567c7000f455cec13f7a1d3fe0873be491da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 36/58] fix: target parameters that can't be written don't
 crash

---
 liboptv/src/parameters.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 8e78861..6e49473 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -536,8 +536,10 @@ int compare_target_par(target_par *targ1, target_par *targ2) {
 void write_target_par(target_par *targ, char *filename) {
     FILE *file = fopen(filename, "w");
 
-    if (file == NULL)
+    if (file == NULL) {
         printf("Can't create file: %s\n", filename);
+        return;
+    }
 
     fprintf(file, "%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d",
             targ->gvthres[0],
-- 
2.43.0


From 9c744a42685a441b3fee620f15d4c36308c35adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 37/58] fix: orientation files with incomplete distortion
 parameters are reported, files are closed on failure

---
 liboptv/src/calibration.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 6e7a973..bd7f7be 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -100,33 +100,34 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf",
 	  &(Ex->x0), &(Ex->y0), &(Ex->z0),
 	  &(Ex->omega), &(Ex->phi), &(Ex->kappa));
-  if (scan_res != 6) return 0;
+  if (scan_res != 6) goto handle_error;
   
   /* Exterior rotation matrix */
   for (i=0; i<3; i++) {
     scan_res = fscanf (fp, " %lf %lf %lf",
         &(Ex->dm[i][0]), &(Ex->dm[i][1]), &(Ex->dm[i][2]));
-    if (scan_res != 3) return 0;
+    if (scan_res != 3) goto handle_error;
   }
 
   /* Interior */
   scan_res = fscanf (fp, "%lf %lf %lf", &(I->xh), &(I->yh), &(I->cc));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   /* Glass */
   scan_res = fscanf (fp, "%lf %lf %lf", &(G->vec_x), &(G->vec_y), &(G->vec_z));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   fclose(fp);
   
   /* Additional: */
-  fp = fopen(add_file, "r");
+  fp = (add_file != NULL) ? fopen(add_file, "r") : NULL;
   if ((fp == NULL) && add_fallback) fp = fopen (add_fallback, "r");
   
   if (fp) {
     scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf %lf",
         &(addp->k1), &(addp->k2), &(addp->k3), &(addp->p1), &(addp->p2),
         &(addp->scx), &(addp->she));
+    if (scan_res != 7) goto handle_error;
     fclose (fp);
   } else {
     printf("no addpar fallback used\n"); // Waits for proper logging.
-- 
2.43.0


From bf61e3d5f097f0dd23f78b1e87a08a8e483093e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 38/58] fix: broken lines of calibration block and sortgrid
 files are reported

---
 liboptv/src/sortgrid.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cc72b4c..cce2b34 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -139,7 +139,7 @@ int read_sortgrid_par(char *filename) {
     
     fpp = fopen(filename, "r");
     if(!fpp) goto handle_error;
-    if(fscanf(fpp, "%d\n",  &eps) == 0) goto handle_error;
+    if(fscanf(fpp, "%d\n",  &eps) != 1) goto handle_error;
     fclose (fpp);
     
     return eps;
@@ -163,7 +163,7 @@ handle_error:
 */
 vec3d* read_calblock(int *num_points, char* filename) {
     FILE* fpp = NULL;
-    int	dummy, k = 0;
+    int	dummy, read_ok, k = 0;
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
@@ -174,15 +174,15 @@ vec3d* read_calblock(int *num_points, char* filename) {
     }
     
     /* Single-pass read-reallocate.*/
-    while (fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
-            &(fix[1]),&(fix[2])) == 4) 
+    while ((read_ok = fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
+            &(fix[1]),&(fix[2]))) == 4) 
     {
         ret = (vec3d *) realloc(ret, (k + 1) * sizeof(vec3d));
         vec_copy(ret[k], fix);
         k++;
     }
     
-    if (k == 0) {
+    if ((k == 0) || (read_ok != EOF)) {
         printf("Empty of badly formatted file: %s\n", filename);
         goto handle_error;
     }
-- 
2.43.0


From b49e087ef1d522df817c38a65048bda7ae7642a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 39/58] fix: unmatched points of the sorted calibration grid
 have definite contents

---
 liboptv/src/sortgrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cce2b34..278c042 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -52,7 +52,7 @@ target* sortgrid (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], in
   double        xp,yp;
       
   /* sorted pix should be just of the same size as fix[] */
-  sorted_pix = (target *) malloc(nfix * sizeof(target));
+  sorted_pix = (target *) calloc(nfix, sizeof(target));
 
   for (i=0; i<nfix; i++) sorted_pix[i].pnr = -999;
 
-- 
2.43.0


From 53f4e39c23d93b82cc78ccee6d3e76bd7545914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 40/58] fix: output that could not be written when closing its
 file is reported as failed

---
 liboptv/src/calibration.c        |  7 ++++---
 liboptv/src/tracking_frame_buf.c | 10 ++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index bd7f7be..8e722da 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -40,10 +40,11 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fprintf (fp,"\n    %8.4f %8.4f\n    %8.4f\n", I.xh, I.yh, I.cc);
   fprintf (fp,"\n    %20.15f %20.15f  %20.15f\n", G.vec_x, G.vec_y, G.vec_z);
   
-  fclose (fp);
+  success = (fclose (fp) == 0);
   fp = NULL;
   
-  if (add_file == NULL) goto finalize;
+  if (add_file == NULL || ! success) goto finalize;
+  success = 0;
   fp = fopen (add_file, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", add_file);
@@ -54,7 +55,7 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   success = 1;
   
 finalize:
-    if (fp != NULL) fclose (fp);
+    if ((fp != NULL) && (fclose (fp) != 0)) success = 0;
     return success;
 }
 
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 6860671..5206e23 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -177,7 +177,8 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     success = 1;
 
 finalize:
-    if (FILEOUT != NULL) fclose (FILEOUT);
+    /* buffered data may fail to be written only here */
+    if ((FILEOUT != NULL) && (fclose (FILEOUT) != 0)) success = 0;
     return success;
 }
 
@@ -450,9 +451,10 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     success = 1;
 
 finalize:
-    if (corres_file != NULL) fclose(corres_file);
-    if (linkage_file != NULL) fclose(linkage_file);
-    if (prio_file != NULL) fclose(prio_file);
+    /* buffered data may fail to be written only here */
+    if ((corres_file != NULL) && (fclose(corres_file) != 0)) success = 0;
+    if ((linkage_file != NULL) && (fclose(linkage_file) != 0)) success = 0;
+    if ((prio_file != NULL) && (fclose(prio_file) != 0)) success = 0;
     
     return success;
 }
-- 
2.43.0


From 822f5bb289e877bb997354f11d6b1e4d6340b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 41/58] fix: freeing a tracking run frees its frames and image
 names

---
 liboptv/src/tracking_run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 89f437b..48a0082 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -89,9 +89,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
    TrackingRun *tr - points to the TrackingRun object to free.
 */
 void tr_free(tracking_run *tr) {
+    fb_free(tr->fb);
     free(tr->fb);
-    free(tr->seq_par->img_base_name);
-    free(tr->seq_par);
+    free_sequence_par(tr->seq_par);
     free(tr->tpar);
     free(tr->vpar);
     free_control_par(tr->cpar);
-- 
2.43.0


From 86ecc3295cc096d422003e58570bc220fce419ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 42/58] fix: a tracking run from missing or broken parameter
 files is reported instead of crashing

---
 liboptv/src/tracking_run.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 48a0082..626dc51 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -13,14 +13,34 @@
    char *tpar_fname - path to tracking parameters file.
    char *vpar_fname - path to volume parameters file.
    char *cpar_fname - path to control parameters file.
+   
+   Returns:
+   a new tracking run, or NULL if any of the files can't be read.
 */
 tracking_run* tr_new_legacy(char *seq_par_fname, char *tpar_fname,
     char *vpar_fname, char *cpar_fname, Calibration **cal) 
 {
-    control_par *cpar = read_control_par(cpar_fname);
-    sequence_par *seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
-    return tr_new(seq_par, read_track_par(tpar_fname), 
-        read_volume_par(vpar_fname), cpar, 4, 20000,
+    control_par *cpar;
+    sequence_par *seq_par;
+    track_par *tpar;
+    volume_par *vpar;
+    
+    cpar = read_control_par(cpar_fname);
+    if (cpar == NULL) return NULL;
+    
+    seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
+    tpar = read_track_par(tpar_fname);
+    vpar = read_volume_par(vpar_fname);
+    
+    if ((seq_par == NULL) || (tpar == NULL) || (vpar == NULL)) {
+        if (seq_par != NULL) free_sequence_par(seq_par);
+        free(tpar);
+        free(vpar);
+        free_control_par(cpar);
+        return NULL;
+    }
+    
+    return tr_new(seq_par, tpar, vpar, cpar, 4, 20000,
         "res/rt_is", "res/ptv_is", "res/added", cal, 10000);
 }
 
-- 
2.43.0


From ce789c2f0dd0fbc97601823493798f0e5f0ffb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 43/58] fix: output of which an earlier part could not be
 written is reported as failed

---
 liboptv/src/calibration.c        |  5 +++--
 liboptv/src/tracking_frame_buf.c | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 8e722da..94bdc86 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -40,7 +40,8 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fprintf (fp,"\n    %8.4f %8.4f\n    %8.4f\n", I.xh, I.yh, I.cc);
   fprintf (fp,"\n    %20.15f %20.15f  %20.15f\n", G.vec_x, G.vec_y, G.vec_z);
   
-  success = (fclose (fp) == 0);
+  success = ! ferror (fp);
+  if (fclose (fp) != 0) success = 0;
   fp = NULL;
   
   if (add_file == NULL || ! success) goto finalize;
@@ -52,7 +53,7 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   }
   fprintf (fp, "%.8f %.8f %.8f %.8f %.8f %.8f %.8f", ap.k1, ap.k2, ap.k3, ap.p1, ap.p2,
     ap.scx, ap.she);
-  success = 1;
+  success = ! ferror (fp);
   
 finalize:
     if ((fp != NULL) && (fclose (fp) != 0)) success = 0;
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 5206e23..2fee92e 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -125,6 +125,19 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
     return read_targets_limited(buffer, INT_MAX, file_base, frame_num);
 }
 
+/* close_written() closes a file that was written to.
+ *
+ * Arguments:
+ * FILE *file - the open file.
+ *
+ * Returns:
+ * True if everything written before arrived in the file, 0 otherwise.
+ */
+static int close_written(FILE *file) {
+    int failed = ferror(file);
+    return (fclose(file) == 0) && ! failed;
+}
+
 /* Writes targets to a file. The number of targets is written to the first
  * line, then each line is one target.
  * 
@@ -178,7 +191,7 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
 
 finalize:
     /* buffered data may fail to be written only here */
-    if ((FILEOUT != NULL) && (fclose (FILEOUT) != 0)) success = 0;
+    if ((FILEOUT != NULL) && ! close_written(FILEOUT)) success = 0;
     return success;
 }
 
@@ -452,9 +465,9 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
 
 finalize:
     /* buffered data may fail to be written only here */
-    if ((corres_file != NULL) && (fclose(corres_file) != 0)) success = 0;
-    if ((linkage_file != NULL) && (fclose(linkage_file) != 0)) success = 0;
-    if ((prio_file != NULL) && (fclose(prio_file) != 0)) success = 0;
+    if ((corres_file != NULL) && ! close_written(corres_file)) success = 0;
+    if ((linkage_file != NULL) && ! close_written(linkage_file)) success = 0;
+    if ((prio_file != NULL) && ! close_written(prio_file)) success = 0;
     
     return success;
 }
-- 
2.43.0


From e2c248c941221c82560b31159816b29de0eef614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 44/58] fix: no undefined arithmetic on the smallest number in
 a manual orientation file

---
 liboptv/src/orientation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index e7ad1cb..a33cf8c 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -756,7 +756,7 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
     num_match = 0; /* count matches to needed numbers */
     for (pnr = 0; pnr < num_fix; pnr++) {
         for (i = 0; i < 4; i++) {
-            if (pnr == nr[i] - 1) {
+            if (pnr + 1 == nr[i]) {
                 vec_copy(fix4[i], fix[pnr]);
                 num_match++;
                 break;
-- 
2.43.0


From 294ba1fe1ce0c0123d3f12b74bb8a9da3f22577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 45/58] fix: targets and frames in Python own or keep the
 memory they use

---
 liboptv/include/tracking_frame_buf.h |   2 +
 liboptv/src/tracking_frame_buf.c     |   2 +-
 py_bind/optv/tracking_framebuf.pxd   |   3 +-
 py_bind/optv/tracking_framebuf.pyx   | 100 +++++++++++++++++++++------
 4 files changed, 83 insertions(+), 24 deletions(-)

diff --git a/liboptv/include/tracking_frame_buf.h b/liboptv/include/tracking_frame_buf.h
index fa2a8f7..eabfa82 100644
--- a/liboptv/include/tracking_frame_buf.h
+++ b/liboptv/include/tracking_frame_buf.h
@@ -25,6 +25,8 @@ target;
 
 int compare_targets(target *t1, target *t2);
 int read_targets(target buffer[], char* file_base, int frame_num);
+int read_targets_limited(target buffer[], int max_targets, char* file_base,
+    int frame_num);
 int write_targets(target buffer[], int num_targets, char* file_base, \
     int frame_num);
 
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 2fee92e..16b74c2 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -59,7 +59,7 @@ static int targets_fname(char *fname, char *file_base, int frame_num) {
  * the number of targets found in the file, or -1 if an error occurred or if 
  * there are more than max_targets targets in the file.
  */
-static int read_targets_limited(target buffer[], int max_targets, 
+int read_targets_limited(target buffer[], int max_targets, 
     char* file_base, int frame_num)
 {
     FILE *FILEIN = NULL;
diff --git a/py_bind/optv/tracking_framebuf.pxd b/py_bind/optv/tracking_framebuf.pxd
index 1a29a35..d62d0a0 100644
--- a/py_bind/optv/tracking_framebuf.pxd
+++ b/py_bind/optv/tracking_framebuf.pxd
@@ -38,7 +38,8 @@ cdef extern from "optv/tracking_frame_buf.h":
 cdef class Target:
     cdef target* _targ
     cdef int _owns_data
-    cdef void set(Target self, target* targ)
+    cdef object _owner # keeps the memory of a target it doesn't own.
+    cdef void set(Target self, target* targ, object owner)
 
 cdef class TargetArray:
     cdef target* _tarr
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 06b5f3f..9188b9a 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -1,14 +1,14 @@
 # Implementation of the trackin_frame_buf minimal interface.
 
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport malloc, calloc, realloc, free
 cimport numpy as np
 import numpy as np
 
 from optv.vec_utils cimport vec3d, vec_copy
 
 cdef extern from "optv/tracking_frame_buf.h":
-    int c_read_targets "read_targets" (target buffer[], \
-        char* file_base, int frame_num)
+    int c_read_targets "read_targets_limited" (target buffer[], \
+        int max_targets, char* file_base, int frame_num)
     int write_targets(target buffer[], int num_targets, char* file_base, \
         int frame_num)
     
@@ -24,6 +24,12 @@ DEF MAX_TARGETS = 20000 # Until improvement of read_targets to auto-allocate.
 ctypedef np.float64_t pos_t
 
 cdef class Target:
+    def __cinit__(self, *args, **kwd):
+        self._targ = <target *>calloc(1, sizeof(target))
+        if self._targ == NULL:
+            raise MemoryError("could not allocate target.")
+        self._owns_data = 1
+    
     def __init__(self, **kwd):
         """
         Initialises the Target instance: either as an empy one (to be set later
@@ -41,12 +47,8 @@ cdef class Target:
         tnr - used by the tracking code.
         """
         if len(kwd.keys()) == 0:
-            self._owns_data = 0
             return
         
-        self._owns_data = 1
-        self._targ = <target *>malloc(sizeof(target))
-        
         self.set_pnr(kwd['pnr'])
         self.set_tnr(kwd['tnr'])
         self.set_pos([kwd['x'], kwd['y']])
@@ -57,9 +59,13 @@ cdef class Target:
         if self._owns_data == 1:
             free(self._targ)
     
-    cdef void set(Target self, target* targ):
+    # The memory belongs to `owner`, which is kept as long as it is needed.
+    cdef void set(Target self, target* targ, object owner):
+        if self._owns_data == 1:
+            free(self._targ)
         self._owns_data = 0
         self._targ = targ
+        self._owner = owner
     
     def tnr(self):
         return self._targ[0].tnr
@@ -132,11 +138,15 @@ cdef class TargetArray:
             by iteration later), otherwise nothing is allocated.
         """
         cdef target *tarr
+        if self._tarr != NULL:
+            raise TypeError("Can't initialize a TargetArray again.")
         if size <=0:
             tarr = NULL
             size = 0
         else:
-            tarr = <target *>malloc(size * sizeof(target))
+            tarr = <target *>calloc(size, sizeof(target))
+            if tarr == NULL:
+                raise MemoryError("could not allocate target array.")
         self.set(tarr, size, 1)
 
     # Assumed to not own the data.
@@ -166,7 +176,9 @@ cdef class TargetArray:
         file_base - path to the file, base part.
         frame_num - frame number part of the file name.
         """
-        write_targets(self._tarr, self._num_targets, file_base, frame_num)
+        if not write_targets(self._tarr, self._num_targets, file_base, 
+            frame_num):
+            raise IOError("Failed to write targets.")
 
     def __getitem__(self, int ix):
         """
@@ -186,7 +198,7 @@ cdef class TargetArray:
             raise IndexError
         
         ret = Target()
-        ret.set(self._tarr + ix)
+        ret.set(self._tarr + ix, self)
         return ret
     
     def __len__(self):
@@ -208,10 +220,14 @@ def read_targets(basename, int frame_num):
     
     Returns:
     A TargetArray object pointing to the read array.
+    
+    Raises:
+    IOError if the file can't be read, or holds more than 20,000 targets.
     """
     cdef:
         int num_targets
-        target *tarr = <target *>malloc(MAX_TARGETS * sizeof(target))
+        target *tarr
+        target *fit
         TargetArray ret = TargetArray()
         char* c_string
     
@@ -219,8 +235,18 @@ def read_targets(basename, int frame_num):
     py_byte_string = basename.encode('UTF-8')
     c_string = py_byte_string
     
-    num_targets = c_read_targets(tarr, c_string, frame_num)
-    ret.set(tarr, num_targets, 1)
+    tarr = <target *>malloc(MAX_TARGETS * sizeof(target))
+    if tarr == NULL:
+        raise MemoryError("could not allocate target array.")
+    
+    num_targets = c_read_targets(tarr, MAX_TARGETS, c_string, frame_num)
+    if num_targets < 0:
+        free(tarr)
+        raise IOError("Failed to read targets.")
+    
+    # Keep only the memory that is used.
+    fit = <target *>realloc(tarr, max(num_targets, 1) * sizeof(target))
+    ret.set(tarr if fit == NULL else fit, num_targets, 1)
     
     return ret
 
@@ -248,15 +274,23 @@ cdef class Frame:
         frame_num - number of frame to add to *_file_base. A value of 0 or less
             means that no frame number should be added. The '.' separator is 
             added between the name and the frame number.
+        
+        Raises:
+        IOError if the files can't be read.
         """
+        if num_cams < 0:
+            raise ValueError("The number of cameras can't be negative.")
+        if self._frm != NULL:
+            raise TypeError("Can't initialize a Frame again.")
+        
         self._num_cams = num_cams
         if corres_file_base is None or linkage_file_base is None or \
             target_file_base is None or frame_num is None:
-            self._frm = NULL
-
-        else:
-            self.read(corres_file_base, linkage_file_base, 
-                target_file_base, frame_num, prio_file_base)
+            return
+        
+        if not self.read(corres_file_base, linkage_file_base, 
+            target_file_base, frame_num, prio_file_base):
+            raise IOError("Failed to read frame.")
     
     def read(Frame self, char *corres_file_base, char *linkage_file_base,
         list target_file_base, int frame_num, prio_file_base):
@@ -274,18 +308,29 @@ cdef class Frame:
             added between the name and the frame number.
         prio_file_base - optional, for the linkage file with added 'prio'
             column.
+        
+        Returns:
+        True if everything was read, otherwise the frame is left without 
+        particles.
         """
-        cdef char **targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        cdef char **targ_fb
         cdef char* pb
+        cdef char* name
         
+        if target_file_base is None or len(target_file_base) < self._num_cams:
+            raise ValueError("Expected a target file name for each camera.")
         for cam in range(self._num_cams):
-            targ_fb[cam] = target_file_base[cam]
+            name = target_file_base[cam] # Raises an exception if it isn't one.
         
         if prio_file_base is None:
             pb = NULL
         else:
             pb = prio_file_base
         
+        targ_fb = <char **> calloc(self._num_cams + 1, sizeof(char *))
+        for cam in range(self._num_cams):
+            targ_fb[cam] = target_file_base[cam]
+        
         if self._frm == NULL:
             self._frm = <frame *> malloc(sizeof(frame))
         else:
@@ -295,7 +340,10 @@ cdef class Frame:
         frame_init(self._frm, self._num_cams, MAX_TARGETS)
         success = read_frame(self._frm, corres_file_base, linkage_file_base, 
             pb, targ_fb, frame_num)
+        free(targ_fb)
         
+        if not success:
+            self._frm.num_parts = 0
         return success
      
     def positions(Frame self):
@@ -307,6 +355,9 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos3d
             double *vec
         
+        if self._frm == NULL:
+            raise ValueError("The frame has not been read yet.")
+        
         pos3d = np.empty((self._frm.num_parts, 3))
         for pt in range(self._frm.num_parts):
             vec = <double *>np.PyArray_GETPTR2(pos3d, pt, 0)
@@ -332,11 +383,16 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos2d
             int tix
         
+        if self._frm == NULL:
+            raise ValueError("The frame has not been read yet.")
+        if cam < 0 or cam >= self._frm.num_cams or cam >= 4:
+            raise IndexError("No such camera.")
+        
         pos2d = np.empty((self._frm.num_parts, 2))
         for pt in range(self._frm.num_parts):
             tix = self._frm.correspond[pt].p[cam]
             
-            if tix == CORRES_NONE:
+            if tix < 0 or tix >= self._frm.num_targets[cam]:
                 pos2d[pt] = np.nan
             else:
                 pos2d[pt,0] = self._frm.targets[cam][tix].x
-- 
2.43.0


From e93f4e712ba8a1f68782e423cbe1fac4be7d5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 46/58] fix: a Calibration that can't be read raises an
 exception, and uses the fallback file

---
 py_bind/optv/calibration.pyx | 40 ++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 613bc61..c318a33 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -4,7 +4,7 @@
 # [1] Dracos, Th., ed.; Three Dimensional Velocity and Vorticity Measuring
 #     and Image Analysis Techniques; 1996. Chapter 3.
 
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport calloc, free
 import numpy
 cimport numpy as cnp
 
@@ -17,6 +17,11 @@ cdef extern from "optv/calibration.h":
     void rotation_matrix(Exterior *ex)
     
 cdef class Calibration:
+    def __cinit__(self, *args, **kwds):
+        self._calibration = <calibration *> calloc(1, sizeof(calibration))
+        if self._calibration == NULL:
+            raise MemoryError("could not allocate calibration.")
+    
     def __init__(self, pos=None, angs=None, prim_point=None, rad_dist=None,
         decent=None, affine=None, glass=None):
         """
@@ -34,9 +39,6 @@ cdef class Calibration:
         affine - 2 parameters: scaling and x-shearing.
         glass - vector from world origin to glass, normal to glass.
         """
-        self._calibration = <calibration *> malloc(sizeof(calibration))
-        self._calibration.mmlut.data = NULL
-        
         if pos is None:
             pos = numpy.zeros(3)
         if angs is None:
@@ -70,11 +72,29 @@ cdef class Calibration:
         add_file - optional path to file containing distortion parameters.
         fallback_file - optional path to file used in case ``add_file`` fails
             to open.
-        """
-        free(self._calibration);
-        self._calibration = read_calibration(
-            (<char *>ori_file if ori_file != None else < char *> 0),
-            (<char *>add_file if add_file != None else < char *> 0), NULL)
+        
+        Raises:
+        IOError if reading fails. The calibration is then unchanged.
+        """
+        cdef:
+            calibration *read
+            char *ori = ori_file
+            char *add = NULL
+            char *fallback = NULL
+        
+        if add_file is not None:
+            add = add_file
+        if fallback_file is not None:
+            fallback = fallback_file
+        
+        read = read_calibration(ori, add, fallback)
+        if read == NULL:
+            raise IOError("Failed to read calibration.")
+        
+        # The struct stays where it is, others may be using it.
+        free(self._calibration.mmlut.data)
+        self._calibration[0] = read[0]
+        free(read)
         
     def write(self, filename, add_file):
         """
@@ -279,5 +299,7 @@ cdef class Calibration:
     
     # Free memory
     def __dealloc__(self):
+        if self._calibration != NULL:
+            free(self._calibration.mmlut.data)
         free(self._calibration)
 
-- 
2.43.0


From fb1f90f4099db1d88fc3dd3c8e571a0fc6c0110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 47/58] fix: parameter objects in Python keep their memory in
 place, in bounds and initialised

---
 py_bind/optv/parameters.pxd |   2 +
 py_bind/optv/parameters.pyx | 253 +++++++++++++++++++++++++++---------
 2 files changed, 191 insertions(+), 64 deletions(-)

diff --git a/py_bind/optv/parameters.pxd b/py_bind/optv/parameters.pxd
index b9149b5..5be2102 100644
--- a/py_bind/optv/parameters.pxd
+++ b/py_bind/optv/parameters.pxd
@@ -13,6 +13,7 @@ cdef extern from "optv/parameters.h":
         int dsumg, dn, dnx, dny, add
     
     ctypedef struct sequence_par:
+        int num_cams
         char ** img_base_name
         int first, last
         
@@ -54,6 +55,7 @@ cdef class TrackingParams:
 
 cdef class SequenceParams:
     cdef sequence_par * _sequence_par
+    cdef object _replaced # names used before, which others may still use.
 
 cdef class VolumeParams:
     cdef volume_par * _volume_par
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index a5c703c..016591c 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -1,6 +1,6 @@
 # Implementation of Python binding to parameters.h
-from libc.stdlib cimport malloc, free
-from libc.string cimport strncpy
+from libc.stdlib cimport calloc, free
+from libc.string cimport strncpy, memset
 
 import numpy
 numpy.import_array()
@@ -9,6 +9,9 @@ cimport numpy as numpy
 from cpython cimport PyObject, Py_INCREF
 
 cdef extern from "optv/parameters.h":
+    enum:
+        SEQ_FNAME_MAX_LEN
+    
     int c_compare_mm_np "compare_mm_np"(mm_np * mm_np1, mm_np * mm_np2)
     
     track_par * c_read_track_par "read_track_par"(char * file_name)
@@ -59,6 +62,32 @@ cdef numpy.ndarray wrap_1d_c_arr_as_ndarray(object base_obj,
     
     return ndarr
     
+cdef int set_base_name(char *buf, new_name) except -1:
+    """
+    Copies a file base name to the memory that a parameters struct has for it.
+    
+    Arguments:
+    char *buf - the memory to write to.
+    new_name - the Python string with the name.
+    """
+    py_byte_string = new_name.encode('UTF-8')
+    cdef char * c_string = py_byte_string
+    
+    if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+        raise ValueError("Base name too long.")
+    
+    memset(buf, 0, SEQ_FNAME_MAX_LEN)
+    strncpy(buf, c_string, SEQ_FNAME_MAX_LEN - 1)
+    return 0
+
+cdef int check_cam(cam, int num_cams) except -1:
+    """
+    Raises an exception if the camera number doesn't exist.
+    """
+    if cam < 0 or cam >= num_cams:
+        raise IndexError("No such camera.")
+    return 0
+
 cdef class MultimediaParams:
     """
     Relates to photographing through several transparent media (air, tank 
@@ -66,6 +95,12 @@ cdef class MultimediaParams:
     refractive index.
     """
 
+    def __cinit__(self, *args, **kwargs):
+        self._mm_np = < mm_np *> calloc(1, sizeof(mm_np))
+        if self._mm_np == NULL:
+            raise MemoryError("could not allocate parameters.")
+        self._mm_np[0].nlay = 1
+    
     def __init__(self, **kwargs):
         """
         Arguments (all optional):
@@ -75,8 +110,6 @@ cdef class MultimediaParams:
         n3 - index of refraction of final medium (e.g. water, 1.33).
         d - thickness of all but first and last layers, [mm].
         """
-        self._mm_np = < mm_np *> malloc(sizeof(mm_np))
-        
         if kwargs.has_key('n1') and kwargs['n1'] is not None:
             self.set_n1(kwargs['n1'])
         if kwargs.has_key('n2') and kwargs.has_key('d') \
@@ -85,9 +118,11 @@ cdef class MultimediaParams:
         if kwargs.has_key('n3') and kwargs['n3'] is not None:
             self.set_n3(kwargs['n3'])
              
+    # Takes the values of the other struct, and frees it. Our struct stays where
+    # it is, others may be using it.
     cdef void set_mm_np(self, mm_np * other_mm_np_c_struct):
-        free(self._mm_np)
-        self._mm_np = other_mm_np_c_struct
+        self._mm_np[0] = other_mm_np_c_struct[0]
+        free(other_mm_np_c_struct)
         
     def get_nlay(self):
         return self._mm_np[0].nlay
@@ -101,6 +136,8 @@ cdef class MultimediaParams:
     def set_layers(self, refr_index, thickness):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
+        elif len(refr_index) > sizeof(self._mm_np[0].n2) / sizeof(self._mm_np[0].n2[0]):
+            raise ValueError("Can't store more than 3 layers.")
         else:
             for i in range(len(refr_index)):
                 self._mm_np[0].n2[i] = refr_index[i]
@@ -133,13 +170,15 @@ cdef class MultimediaParams:
     def set_n3(self, n3):
         self._mm_np[0].n3 = n3
 
-    def __richcmp__(MultimediaParams self, MultimediaParams other, operator):
-        c_compare_result = c_compare_mm_np(self._mm_np, other._mm_np)
+    def __richcmp__(MultimediaParams self, other, operator):
+        if not isinstance(other, MultimediaParams):
+            return NotImplemented
+        c_compare_result = c_compare_mm_np(self._mm_np, (<MultimediaParams>other)._mm_np)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        else: raise TypeError("Unhandled comparison operator " + str(operator))
         
     def __str__(self):
         n2_str = "{"
@@ -169,6 +208,11 @@ cdef class TrackingParams:
     Binding the read_track_par C function
     Objects of this type can be checked for equality using "==" and "!=" operators
     """
+    def __cinit__(self, *args, **kwds):
+        self._track_par = < track_par *> calloc(1, sizeof(track_par))
+        if self._track_par == NULL:
+            raise MemoryError("could not allocate parameters.")
+    
     def __init__(self, **kwds):
         """
         Arguments (all optional):
@@ -180,8 +224,6 @@ cdef class TrackingParams:
             positions that have enough targets but no matching correspondence
             result (boolean int).
         """
-        self._track_par = < track_par *> malloc(sizeof(track_par))
-        
         if 'accel_lim' in kwds:
             self.set_dacc(kwds['accel_lim'])
         if 'angle_lim' in kwds:
@@ -221,19 +263,28 @@ cdef class TrackingParams:
         """
         Reads tracking parameters from an old-style .par file having the
         objects' arguments ordered one per line.
+        
+        Raises IOError if reading fails. The object is then unchanged.
         """
-        free(self._track_par)
-        self._track_par = c_read_track_par(file_name)
+        cdef track_par *read = c_read_track_par(file_name)
+        if read == NULL:
+            raise IOError("Problem reading tracking parameters.")
+        
+        # The struct stays where it is, others may be using it.
+        self._track_par[0] = read[0]
+        free(read)
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
-    def __richcmp__(TrackingParams self, TrackingParams other, operator):
-        c_compare_result = c_compare_track_par(self._track_par, other._track_par)
+    def __richcmp__(TrackingParams self, other, operator):
+        if not isinstance(other, TrackingParams):
+            return NotImplemented
+        c_compare_result = c_compare_track_par(self._track_par, (<TrackingParams>other)._track_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        else: raise TypeError("Unhandled comparison operator " + str(operator))
              
     # Getters and setters    
     def get_dacc(self):
@@ -350,6 +401,11 @@ cdef class SequenceParams:
             raise ValueError(
                 "SequenceParams requires either num_cams or image_base")
         
+        if num_cams < 0:
+            raise ValueError("The number of cameras can't be negative.")
+        if self._sequence_par != NULL:
+            raise TypeError("Can't initialize a SequenceParams again.")
+        
         self._sequence_par = c_new_sequence_par(num_cams)
         
         if 'frame_range' in kwargs:
@@ -381,38 +437,66 @@ cdef class SequenceParams:
         Arguments:
         filename - path to the text file containing the parameters.
         num_cams - expected number of cameras
+        
+        Raises IOError if reading fails. The object is then unchanged.
         """
-        # free the memory of previous C struct and its inner strings before 
-        # creating a new one.
-        c_free_sequence_par(self._sequence_par)
+        cdef:
+            sequence_par *read
+            sequence_par tmp
+            SequenceParams old
+        
+        if num_cams < 0:
+            raise ValueError("The number of cameras can't be negative.")
         
         # read parameters from file to a new sequence_par C struct
-        self._sequence_par = c_read_sequence_par(filename, num_cams)
+        read = c_read_sequence_par(filename, num_cams)
+        if read == NULL:
+            raise IOError("Problem reading sequence parameters.")
+        
+        # The struct and the names stay where they are, others may be using 
+        # them.
+        if self._sequence_par[0].num_cams == read[0].num_cams:
+            self._sequence_par[0].first = read[0].first
+            self._sequence_par[0].last = read[0].last
+            for cam in range(read[0].num_cams):
+                strncpy(self._sequence_par[0].img_base_name[cam], 
+                    read[0].img_base_name[cam], SEQ_FNAME_MAX_LEN)
+            c_free_sequence_par(read)
+        else:
+            tmp = self._sequence_par[0]
+            self._sequence_par[0] = read[0]
+            read[0] = tmp
+            old = SequenceParams.__new__(SequenceParams)
+            old._sequence_par = read
+            self._replaced = (old, self._replaced)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        check_cam(cam, self._sequence_par[0].num_cams)
         cdef char * c_str = self._sequence_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
-    def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+    def set_img_base_name(self, cam, str new_img_name not None):
+        check_cam(cam, self._sequence_par[0].num_cams)
+        set_base_name(self._sequence_par[0].img_base_name[cam], new_img_name)
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
-    def __richcmp__(SequenceParams self, SequenceParams other, operator):
-        c_compare_result = c_compare_sequence_par(self._sequence_par, other._sequence_par)
+    def __richcmp__(SequenceParams self, other, operator):
+        if not isinstance(other, SequenceParams):
+            return NotImplemented
+        c_compare_result = c_compare_sequence_par(self._sequence_par, (<SequenceParams>other)._sequence_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        else: raise TypeError("Unhandled comparison operator " + str(operator))
         
     def __dealloc__(self):
-        c_free_sequence_par(self._sequence_par)
+        if self._sequence_par != NULL:
+            c_free_sequence_par(self._sequence_par)
         
 cdef class VolumeParams:
     """
@@ -420,6 +504,11 @@ cdef class VolumeParams:
     pythonic access. Objects of this type can be checked for equality using 
     "==" and "!=" operators.
     """
+    def __cinit__(self, *args, **kwargs):
+        self._volume_par = < volume_par *> calloc(1, sizeof(volume_par))
+        if self._volume_par == NULL:
+            raise MemoryError("could not allocate parameters.")
+    
     def __init__(self, **kwargs):
         """
         Accepted keyword arguments:
@@ -435,8 +524,6 @@ cdef class VolumeParams:
             calculated from match of the different target measures to the 
             reference values in this object.
         """
-        self._volume_par = < volume_par *> malloc(sizeof(volume_par))
-        
         if 'x_span' in kwargs:
             self.set_X_lay(kwargs['x_span'])
         if 'z_spans' in kwargs:
@@ -464,6 +551,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].X_lay, copy)
     
     def set_X_lay(self, X_lay):
+        if len(X_lay) != 2:
+            raise ValueError("Expected 2 numbers.")
         for i in range(len(X_lay)):
             self._volume_par[0].X_lay[i] = X_lay[i]
             
@@ -472,6 +561,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmin_lay, copy)
 
     def set_Zmin_lay(self, Zmin_lay):
+        if len(Zmin_lay) != 2:
+            raise ValueError("Expected 2 numbers.")
         for i in range(len(Zmin_lay)):
             self._volume_par[0].Zmin_lay[i] = Zmin_lay[i]
             
@@ -480,6 +571,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmax_lay, copy)
     
     def set_Zmax_lay(self, Zmax_lay):
+        if len(Zmax_lay) != 2:
+            raise ValueError("Expected 2 numbers.")
         for i in range(len(Zmax_lay)):
             self._volume_par[0].Zmax_lay[i] = Zmax_lay[i]
             
@@ -539,21 +632,28 @@ cdef class VolumeParams:
         
         Argument:
         filename - path to the text file containing the parameters.
+        
+        Raises IOError if reading fails. The object is then unchanged.
         """
-        # free the memory of previous C struct 
-        free(self._volume_par)
-        # read parameters from file to a new volume_par C struct
-        self._volume_par = c_read_volume_par(filename)
+        cdef volume_par *read = c_read_volume_par(filename)
+        if read == NULL:
+            raise IOError("Problem reading volume parameters.")
+        
+        # The struct stays where it is, others may be using it.
+        self._volume_par[0] = read[0]
+        free(read)
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
-    def __richcmp__(VolumeParams self, VolumeParams other, operator):
-        c_compare_result = c_compare_volume_par(self._volume_par, other._volume_par)
+    def __richcmp__(VolumeParams self, other, operator):
+        if not isinstance(other, VolumeParams):
+            return NotImplemented
+        c_compare_result = c_compare_volume_par(self._volume_par, (<VolumeParams>other)._volume_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        else: raise TypeError("Unhandled comparison operator " + str(operator))
         
     def __dealloc__(self):
         free(self._volume_par)
@@ -575,6 +675,11 @@ cdef class ControlParams:
         pixel_size - sequence, w,h pixel size in mm.
         cam_side_n, wall_ns, wall_thicks, object_side_n - see MultimediaParams
         """
+        if cams < 0:
+            raise ValueError("The number of cameras can't be negative.")
+        if self._control_par != NULL:
+            raise TypeError("Can't initialize a ControlParams again.")
+        
         self._control_par = c_new_control_par(cams)
         self.set_hp_flag('hp' in flags)
         self.set_allCam_flag('allcam' in flags)
@@ -677,60 +782,72 @@ cdef class ControlParams:
     # Arguments:
     # filename - path to text file containing the parameters.
     def read_control_par(self, filename):
-        # free the memory of previous C struct and its inner strings before creating a new one
-        c_free_control_par(self._control_par)
-        # memory for _multimedia_params' mm_np struct was just freed,
-        # so set _multimedia params' mm_np pointer to NULL to avoid double free corruption 
-        self._multimedia_params._mm_np = NULL
+        cdef:
+            control_par *read
+            control_par tmp
+        
         # read parameters from file to a new control_par C struct
-        self._control_par = c_read_control_par(filename)
-        # set _multimedia_params's _mm_np to the new mm_np that just allocated and read into _control_par
-        self._multimedia_params.set_mm_np(self._control_par[0].mm)
+        read = c_read_control_par(filename)
+        if read == NULL:
+            raise IOError("Problem reading control parameters.")
+        
+        # The structs stay where they are, others may be using them: take the
+        # new values, and leave the old ones to be freed with the new struct.
+        self._multimedia_params.set_mm_np(read[0].mm)
+        tmp = self._control_par[0]
+        self._control_par[0] = read[0]
+        self._control_par[0].mm = tmp.mm
+        read[0] = tmp
+        read[0].mm = NULL
+        c_free_control_par(read)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        check_cam(cam, self._control_par[0].num_cams)
         cdef char * c_str = self._control_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
-    def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+    def set_img_base_name(self, cam, str new_img_name not None):
+        check_cam(cam, self._control_par[0].num_cams)
+        set_base_name(self._control_par[0].img_base_name[cam], new_img_name)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
+        check_cam(cam, self._control_par[0].num_cams)
         cdef char * c_str = self._control_par[0].cal_img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set calibration image base name for camera #cam
-    def set_cal_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(new_img_name) + 1)
+    def set_cal_img_base_name(self, cam, str new_img_name not None):
+        check_cam(cam, self._control_par[0].num_cams)
+        set_base_name(self._control_par[0].cal_img_base_name[cam], new_img_name)
     
     def get_multimedia_params(self):
         return self._multimedia_params
     
     # Checks for equality between this and other ControlParams objects
     # Gives the ability to use "==" and "!=" operators on two ControlParams objects
-    def __richcmp__(ControlParams self, ControlParams other, operator):
-        c_compare_result = c_compare_control_par(self._control_par, other._control_par)
+    def __richcmp__(ControlParams self, other, operator):
+        if not isinstance(other, ControlParams):
+            return NotImplemented
+        c_compare_result = c_compare_control_par(self._control_par, (<ControlParams>other)._control_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        else: raise TypeError("Unhandled comparison operator " + str(operator))
         
     def __dealloc__(self):
         # set the mm pointer to NULL in order to prevent c_free_control_par 
         # function from freeing it. MultimediaParams object will free this
         # memory in its python destructor when there will be no references to it.
         
-        self._control_par[0].mm = NULL
-        c_free_control_par(self._control_par)
+        if self._control_par != NULL:
+            self._control_par[0].mm = NULL
+            c_free_control_par(self._control_par)
 
 cdef class TargetParams:
     """
@@ -738,6 +855,11 @@ cdef class TargetParams:
     pythonic access. Objects of this type can be checked for equality using 
     "==" and "!=" operators.
     """
+    def __cinit__(self, *args, **kwargs):
+        self._targ_par = <target_par *> calloc(1, sizeof(target_par))
+        if self._targ_par == NULL:
+            raise MemoryError("could not allocate parameters.")
+    
     def __init__(self, int discont=0, gvthresh=None, 
         pixel_count_bounds=(0, 1000),
         xsize_bounds=(0, 100), ysize_bounds=(0, 100), int min_sum_grey=0, 
@@ -756,8 +878,6 @@ cdef class TargetParams:
         if gvthresh is None:
             gvthresh = [0] * 4
         
-        self._targ_par = <target_par *> malloc(sizeof(target_par))
-        
         self.set_max_discontinuity(discont)
         self.set_grey_thresholds(gvthresh)
         self.set_pixel_count_bounds(pixel_count_bounds)
@@ -782,6 +902,9 @@ cdef class TargetParams:
         copy - if True, return a copy of the underlying array. This way the 
             original is safe.
         """
+        if num_cams < 0 or num_cams > 4:
+            raise ValueError("There are no more than 4 grey-level thresholds.")
+        
         return wrap_1d_c_arr_as_ndarray(self, num_cams, numpy.NPY_INT, 
             self._targ_par.gvthres, (1 if copy else 0))
         
@@ -871,11 +994,13 @@ cdef class TargetParams:
         
         Fills up the fields of the object from the file and returns.
         """
-        free(self._targ_par)
-        self._targ_par = read_target_par(inp_filename)
-        
-        if self._targ_par == NULL:
+        cdef target_par *read = read_target_par(inp_filename)
+        if read == NULL:
             raise IOError("Problem reading target recognition parameters.")
+        
+        # The struct stays where it is, others may be using it.
+        self._targ_par[0] = read[0]
+        free(read)
     
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From f097725ad90fc1a42618ef665a6f810910bd8976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 48/58] fix: matching in Python returns the right coordinates
 and totals for 1-3 cameras

---
 py_bind/optv/correspondences.pxd |  3 ++
 py_bind/optv/correspondences.pyx | 76 +++++++++++++++++++++++++++-----
 2 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/py_bind/optv/correspondences.pxd b/py_bind/optv/correspondences.pxd
index 45c6e32..b82a6ae 100644
--- a/py_bind/optv/correspondences.pxd
+++ b/py_bind/optv/correspondences.pxd
@@ -19,6 +19,9 @@ cdef extern from "optv/epi.h":
         double x, y
 
 cdef extern from "optv/correspondences.h":
+    enum:
+        nmax
+    
     ctypedef struct n_tupel:
         int p[4]
     
diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 1b14fc3..46b38fe 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -32,8 +32,8 @@ cdef class MatchedCoords:
     """
     
     def __init__(
-        self, TargetArray targs, ControlParams cpar, 
-        Calibration cal, double tol=0.00001, reset_numbers=True):
+        self, TargetArray targs not None, ControlParams cpar not None, 
+        Calibration cal not None, double tol=0.00001, reset_numbers=True):
         """
         Allocates and initializes the memory, including coordinate conversion 
         and sorting.
@@ -53,9 +53,12 @@ cdef class MatchedCoords:
         cdef:
             target *targ
         
+        free(self.buf)
+        self.buf = NULL
         self._num_pts = len(targs)
-        self.buf = <coord_2d *> malloc(self._num_pts * sizeof(coord_2d))
+        self.buf = <coord_2d *> malloc((self._num_pts + 1) * sizeof(coord_2d))
         if self.buf == NULL:
+            self._num_pts = 0
             raise MemoryError("could not allocate matched-coordinates array.")
         
         for tnum in range(self._num_pts):
@@ -97,7 +100,7 @@ cdef class MatchedCoords:
         
         return pos, pnr
     
-    def get_by_pnrs(self, np.ndarray[ndim=1, dtype=np.int_t] pnrs):
+    def get_by_pnrs(self, np.ndarray[ndim=1, dtype=np.int_t] pnrs not None):
         """
         Return the flat positions of points whose pnr property is given, as an
         (n,2) flat position array. Assumes all pnrs are to be found, otherwise
@@ -119,8 +122,41 @@ cdef class MatchedCoords:
     def __dealloc__(self):
         free(self.buf)
 
+def check_match_inputs(list img_pts not None, list flat_coords not None, 
+    list cals not None):
+    """
+    The lists given for matching all have one item per camera, and each item of
+    flat_coords is of the targets in the respective item of img_pts. Raises the 
+    appropriate exception if not.
+    """
+    cdef:
+        MatchedCoords coords
+        int pt
+    
+    if len(img_pts) != len(cals) or len(flat_coords) != len(cals):
+        raise ValueError("Expected targets, coordinates and a calibration "
+            "for each camera.")
+    
+    for cam in range(len(cals)):
+        if not isinstance(cals[cam], Calibration):
+            raise TypeError("Expected Calibration objects.")
+        if not isinstance(img_pts[cam], TargetArray):
+            raise TypeError("Expected TargetArray objects.")
+        if not isinstance(flat_coords[cam], MatchedCoords):
+            raise TypeError("Expected MatchedCoords objects.")
+        
+        coords = flat_coords[cam]
+        if coords._num_pts != len(img_pts[cam]):
+            raise ValueError("Expected coordinates for each target.")
+        if coords._num_pts > nmax:
+            raise ValueError("Too many targets.")
+        for pt in range(coords._num_pts):
+            if coords.buf[pt].pnr >= coords._num_pts or \
+                (coords.buf[pt].pnr < 0 and len(cals) > 1):
+                raise ValueError("Coordinates refer to unknown targets.")
+
 def correspondences(list img_pts, list flat_coords, list cals, 
-    VolumeParams vparam, ControlParams cparam):
+    VolumeParams vparam not None, ControlParams cparam not None):
     """
     Get the correspondences for each clique size. 
     
@@ -146,13 +182,21 @@ def correspondences(list img_pts, list flat_coords, list cals,
         previous 3).
     """
     cdef: 
-        int num_cams = len(cals)
+        int num_cams
+
+    check_match_inputs(img_pts, flat_coords, cals)
+    num_cams = len(cals)
+    if num_cams < 1 or num_cams > 4:
+        raise ValueError("Matching is possible for 1 to 4 cameras.")
 
     # Special case of a single camera, follow the single_cam_correspondence docstring    
     if num_cams == 1:
         sorted_pos, sorted_corresp, num_targs = single_cam_correspondence(img_pts, flat_coords, cals)
         return sorted_pos, sorted_corresp, num_targs
 
+    if num_cams != cparam._control_par.num_cams:
+        raise ValueError("The number of cameras is not that of the parameters.")
+
     cdef:        
         calibration **calib = <calibration **> malloc(
             num_cams * sizeof(calibration *))
@@ -164,7 +208,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         np.ndarray[ndim=3, dtype=np.float64_t] clique_targs
         
         # Return buffers:
-        int *match_counts = <int *> malloc(num_cams * sizeof(int))
+        int match_counts[4] # one per clique size, then the total.
         n_tupel *corresp_buf
     
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -180,6 +224,12 @@ def correspondences(list img_pts, list flat_coords, list cals,
     # The biz:
     corresp_buf = corresp(&frm, corrected, 
         vparam._volume_par, cparam._control_par, calib, match_counts)
+    if corresp_buf == NULL:
+        free(frm.targets)
+        free(frm.num_targets)
+        free(calib)
+        free(corrected)
+        raise MemoryError("could not allocate memory for matching.")
     
     # Distribute data to return structures:
     sorted_pos = [None]*(num_cams - 1)
@@ -214,11 +264,11 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_corresp[clique_type] = clique_ids
     
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
-    free(match_counts)
+    free(corrected)
     free(corresp_buf) # Note this for future returning of correspondences.
     
     return sorted_pos, sorted_corresp, num_targs
@@ -250,7 +300,11 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
     """
     cdef: 
         int pt, num_points
-        coord_2d *corrected = <coord_2d *> malloc(sizeof(coord_2d *))
+        coord_2d *corrected
+    
+    check_match_inputs(img_pts, flat_coords, cals)
+    if len(cals) != 1:
+        raise ValueError("Expected one camera.")
     
     corrected = (<MatchedCoords>flat_coords[0]).buf
 
@@ -276,7 +330,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
         if p1 > -1:
             targ = img_pts[0][p1]
             clique_targs[0, pt, 0] = (<Target> targ)._targ.x
-            clique_targs[0, pt, 1] = (<Target> targ)._targ.x
+            clique_targs[0, pt, 1] = (<Target> targ)._targ.y
             # we also update the tnr, see docstring of correspondences
             (<Target> targ)._targ.tnr = pt
 
-- 
2.43.0


From 4e3de701f39f5e1a5c37b9cae39cc5f3fafbac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 49/58] fix: image functions in Python work for any array
 layout, subranges and image sizes

---
 py_bind/optv/image_processing.pyx | 30 ++++++++++++++++++++----------
 py_bind/optv/segmentation.pyx     | 25 ++++++++++++++++---------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 6add162..f51a489 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -3,9 +3,9 @@ import numpy as np
 cimport numpy as np
 from six import string_types
 
-def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
+def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img not None,
                    int filter_hp,
-                   ControlParams control,
+                   ControlParams control not None,
                    int lowpass_dim=1,
                    filter_file=None,
                    np.ndarray[ndim=2, dtype=np.uint8_t] output_img=None):
@@ -25,38 +25,48 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     filter_file - path to a text file containing the filter matrix to be
         used in case ```filter_hp == 2```. One line per row, white-space 
         separated columns.
-    numpy.ndarray output_img - result numpy 2d array representing the source 
-        image to filter. Same size as img.
+    numpy.ndarray output_img - (optional) numpy 2d array that the result is 
+        written to. Same size as img.
     
     Returns:
     numpy.ndarray representing the result image.
     '''
 
+    cdef np.ndarray[ndim=2, dtype=np.uint8_t] result_img
+    
     # check arrays dimensions
     if input_img.ndim != 2:
         raise TypeError("Input array must be two-dimensional")
     if (output_img is not None) and (input_img.shape[0] != output_img.shape[0] or
                          input_img.shape[1] != output_img.shape[1]):
         raise ValueError("Different shapes of input and output images.")
-    else:
-        output_img = np.empty_like(input_img)
+    if input_img.shape[0] != control._control_par.imy or \
+        input_img.shape[1] != control._control_par.imx:
+        raise ValueError("The image size is not that of the parameters.")
+    if lowpass_dim < 0:
+        raise ValueError("The width of the lowpass filter can't be negative.")
     
     if filter_hp == 2:
         if filter_file == None or not isinstance(filter_file, string_types):
             raise ValueError("Expecting a filter file name, received None or non-string.")
+        filter_file = filter_file.encode('UTF-8')
     else:
         filter_file=b""
         
-    for arr in (input_img, output_img):
-        if not arr.flags['C_CONTIGUOUS']:
-            np.ascontiguousarray(arr)
+    # The C function works on separate, C-contiguous images.
+    input_img = np.ascontiguousarray(input_img)
+    result_img = np.zeros_like(input_img)
     
     if (1 != prepare_image( < unsigned char *> input_img.data,
-                            < unsigned char *> output_img.data,
+                            < unsigned char *> result_img.data,
                             lowpass_dim,
                             filter_hp,
                             filter_file,
                             control._control_par)):
         raise Exception("prepare_image C function failed: "
                       + "failure of memory allocation or filter file reading")
+    
+    if output_img is None:
+        return result_img
+    output_img[...] = result_img
     return output_img              
diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index d40dff9..c110640 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -7,7 +7,6 @@ Created on Thu Aug 18 16:22:48 2016
 @author: yosef
 """
 from libc.stdlib cimport calloc, realloc, free
-from libc.stdio cimport printf
 import numpy as np
 cimport numpy as np
 np.import_array()
@@ -26,14 +25,12 @@ ctypedef np.int_t DTYPE_t
 from optv.parameters cimport TargetParams, ControlParams
 from optv.tracking_framebuf cimport TargetArray
 
-def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, int cam, 
-    ControlParams cparam, subrange_x=None, subrange_y=None):
+def target_recognition(np.ndarray[np.uint8_t, ndim=2] img not None, 
+    TargetParams tpar not None, int cam, 
+    ControlParams cparam not None, subrange_x=None, subrange_y=None):
     """
     Detects targets (contiguous bright blobs) in an image.
     
-    Limited to ~20,000 targets per image for now. This limitation comes from
-    the structure of underlying C code.
-    
     Arguments:
     np.ndarray img - a numpy array holding the 8-bit gray image.
     TargetParams tpar - target recognition parameters s.a. size bounds etc.
@@ -51,7 +48,7 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     cdef:
         TargetArray t = TargetArray()
         target *ret
-        target *targs = <target *> calloc(1024*20, sizeof(target))
+        target *targs
         int num_targs
         int xmin, xmax, ymin, ymax
     
@@ -68,17 +65,27 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     else:
         ymin, ymax = subrange_y
     
-    if img.shape[0] != ymax or img.shape[1] != xmax:
+    if img.shape[0] != cparam._control_par[0].imy or \
+        img.shape[1] != cparam._control_par[0].imx:
         raise ValueError("dimensions are not correct")
+    
+    if cam < 0 or cam >= 4:
+        raise IndexError("No such camera.")
 
     assert img.dtype == DTYPE
+    img = np.ascontiguousarray(img)
+    
+    # Each target has at least one pixel of its own.
+    targs = <target *> calloc(img.size + 1, sizeof(target))
+    if targs == NULL:
+        raise MemoryError("Failed to allocate target array.")
 
     # The core liboptv call:
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
     
     # Fit the memory size snugly and generate the Python return value.
-    ret = <target *>realloc(targs, num_targs * sizeof(target))
+    ret = <target *>realloc(targs, max(num_targs, 1) * sizeof(target))
     if ret == NULL:
         free(targs)
         raise MemoryError("Failed to reallocate target array.")
-- 
2.43.0


From 33b98ca2c2c1e1074850514d5806710cd2b2b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 50/58] fix: orientation functions in Python check their
 inputs, free their memory and return the residuals of the targets used

---
 py_bind/optv/image_processing.pyx |   2 +
 py_bind/optv/orientation.pxd      |   2 +-
 py_bind/optv/orientation.pyx      | 123 ++++++++++++++++++++++--------
 3 files changed, 93 insertions(+), 34 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index f51a489..2d437c3 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -43,6 +43,8 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img not None,
     if input_img.shape[0] != control._control_par.imy or \
         input_img.shape[1] != control._control_par.imx:
         raise ValueError("The image size is not that of the parameters.")
+    if input_img.shape[0] == 0 or input_img.shape[1] == 0:
+        raise ValueError("The image is empty.")
     if lowpass_dim < 0:
         raise ValueError("The width of the lowpass filter can't be negative.")
     
diff --git a/py_bind/optv/orientation.pxd b/py_bind/optv/orientation.pxd
index 7228d34..bf3e9c3 100644
--- a/py_bind/optv/orientation.pxd
+++ b/py_bind/optv/orientation.pxd
@@ -33,4 +33,4 @@ cdef extern from "optv/orientation.h":
         int num_cams, mm_np *multimed_pars, calibration* cals[], 
         int db_length, double db_weight)
 
-cdef calibration** cal_list2arr(list cals)
+cdef calibration** cal_list2arr(list cals) except NULL
diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index b3ef927..2cfcf80 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -10,10 +10,18 @@ from optv.parameters cimport ControlParams, VolumeParams
 from optv.epipolar cimport epi_mm_2D
 
 
-def match_detection_to_ref(Calibration cal,
-                           np.ndarray[ndim=2, dtype=pos_t] ref_pts,
-                           TargetArray img_pts,
-                           ControlParams cparam,
+cdef int check_ref_pts(np.ndarray[ndim=2, dtype=pos_t] ref_pts) except -1:
+    """
+    Raises an exception if the known positions aren't an (n,3) array.
+    """
+    if ref_pts.shape[1] != 3:
+        raise ValueError("Expected an (n,3) array of known positions.")
+    return 0
+
+def match_detection_to_ref(Calibration cal not None,
+                           np.ndarray[ndim=2, dtype=pos_t] ref_pts not None,
+                           TargetArray img_pts not None,
+                           ControlParams cparam not None,
                            eps=25):
     """
     Creates a TargetArray where the targets are those for which a point in the
@@ -47,6 +55,7 @@ def match_detection_to_ref(Calibration cal,
         target *sorted_targs
         TargetArray t = TargetArray()
 
+    check_ref_pts(ref_pts)
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *> ref_pts.data
 
@@ -56,7 +65,19 @@ def match_detection_to_ref(Calibration cal,
     t.set(sorted_targs, len(ref_pts), 1)
     return t
 
-cdef calibration** cal_list2arr(list cals):
+cdef int check_targets(np.ndarray[ndim=3, dtype=pos_t] targets, 
+    cals) except -1:
+    """
+    Raises an exception if the targets aren't a (num_targets, num_cams, 2) 
+    array, where there are num_cams calibrations.
+    """
+    if targets.shape[2] != 2:
+        raise ValueError("Expected a (num_targets, num_cams, 2) array.")
+    if targets.shape[1] != len(cals):
+        raise ValueError("Expected a calibration for each camera.")
+    return 0
+
+cdef calibration** cal_list2arr(list cals) except NULL:
     """
     Allocate a C array with C calibration objects based on a Python list with
     Python Calibration objects.
@@ -65,14 +86,18 @@ cdef calibration** cal_list2arr(list cals):
         calibration ** calib
         int num_cals = len(cals)
 
-    calib = <calibration **> calloc(num_cals, sizeof(calibration *))
+    for cal in range(num_cals):
+        if not isinstance(cals[cal], Calibration):
+            raise TypeError("Expected Calibration objects.")
+
+    calib = <calibration **> calloc(num_cals + 1, sizeof(calibration *))
     for cal in range(num_cals):
         calib[cal] = (<Calibration> cals[cal])._calibration
 
     return calib
 
-def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
-                    ControlParams cparam, cals, VolumeParams vparam):
+def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets not None,
+                    ControlParams cparam not None, cals, VolumeParams vparam):
     """
     Calculate the 3D positions of the points given by their 2D projections
     using one of the options: 
@@ -99,6 +124,9 @@ def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
 
+    # These work with lists.
+    cals = list(cals)
+    
     if len(cals) == 1:
         res, rcm = single_cam_point_positions(targets, cparam, cals, vparam)
     elif len(cals) > 1:
@@ -109,8 +137,9 @@ def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
     return res, rcm
 
 
-def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
-                    ControlParams cparam, cals, VolumeParams vparam):
+def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets not None,
+                    ControlParams cparam not None, cals, 
+                    VolumeParams vparam not None):
     """
     Calculates the 3D positions of the points from a single camera using
     the 2D target positions given in metric coordinates
@@ -120,9 +149,12 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
     
@@ -137,11 +169,12 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                             calib[0], cparam._control_par.mm, vparam._volume_par, 
                             <vec3d> np.PyArray_GETPTR2(res, pt, 0));
 
+    free(calib)
     return res, rcm
           
 
-def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
-                    ControlParams cparam, cals):
+def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets not None,
+                    ControlParams cparam not None, cals):
     """
     Calculate the 3D positions of the points given by their 2D projections.
 
@@ -162,9 +195,12 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
 
@@ -179,12 +215,13 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                                  cparam._control_par.mm, calib,
                                  <vec3d> np.PyArray_GETPTR2(res, pt, 0))
 
+    free(calib)
     return res, rcm
 
-def external_calibration(Calibration cal, 
-    np.ndarray[ndim=2, dtype=pos_t] ref_pts, 
-    np.ndarray[ndim=2, dtype=pos_t] img_pts,
-    ControlParams cparam):
+def external_calibration(Calibration cal not None, 
+    np.ndarray[ndim=2, dtype=pos_t] ref_pts not None, 
+    np.ndarray[ndim=2, dtype=pos_t] img_pts not None,
+    ControlParams cparam not None):
     """
     Update the external calibration with results of raw orientation, i.e.
     the iterative process that adjust the initial guess' external parameters
@@ -205,11 +242,15 @@ def external_calibration(Calibration cal,
         target *targs
         vec3d *ref_coord
     
+    check_ref_pts(ref_pts)
+    if img_pts.shape[1] != 2 or len(img_pts) < len(ref_pts):
+        raise ValueError("Expected an image point for each known position.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
     
     # Convert pixel coords to metric coords:
-    targs = <target *>calloc(len(img_pts), sizeof(target))
+    targs = <target *>calloc(len(img_pts) + 1, sizeof(target))
     
     for ptx, pt in enumerate(img_pts):
         targs[ptx].x = pt[0]
@@ -222,9 +263,10 @@ def external_calibration(Calibration cal,
     
     return (True if success else False)
 
-def full_calibration(Calibration cal,
-    np.ndarray[ndim=2, dtype=pos_t] ref_pts, TargetArray img_pts,
-    ControlParams cparam, list flags=[]):
+def full_calibration(Calibration cal not None,
+    np.ndarray[ndim=2, dtype=pos_t] ref_pts not None, 
+    TargetArray img_pts not None, ControlParams cparam not None, 
+    list flags=[]):
     """
     Performs a full calibration, affecting all calibration structs.
     
@@ -255,7 +297,8 @@ def full_calibration(Calibration cal,
     ret - (r,2) array, the residuals in the x and y direction for r points used
         in orientation.
     used - r-length array, indices into target array of targets used.
-    err_est - error estimation per calibration DOF. We 
+    err_est - error estimation per calibration DOF, and in the last place the
+        overall one.
     
     Raises:
     ValueError if iteration did not converge.
@@ -268,6 +311,10 @@ def full_calibration(Calibration cal,
         orient_par *orip
         double *residuals
     
+    check_ref_pts(ref_pts)
+    if len(img_pts) < len(ref_pts):
+        raise ValueError("Expected a target for each known position.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
 
@@ -287,7 +334,7 @@ def full_calibration(Calibration cal,
     orip[0].sheflag = (1 if 'shear' in flags else 0)
     orip[0].interfflag = 0 # This also solves for the glass, I'm skipping it.
     
-    err_est = np.empty((NPAR + 1) * sizeof(double))
+    err_est = np.zeros(NPAR + 1)
     residuals = orient(cal._calibration, cparam._control_par, len(ref_pts), 
         ref_coord, img_pts._tarr, orip, <double *>err_est.data)
     
@@ -297,18 +344,20 @@ def full_calibration(Calibration cal,
         free(residuals)
         raise ValueError("Orientation iteration failed, need better setup.")
     
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
+    # There are residuals only for the targets used, which are those that match
+    # the known position in their place.
+    used = np.array([ix for ix in range(len(ref_pts)) \
+        if img_pts[ix].pnr() == ix], dtype=np.int_)
+    ret = np.empty((len(used), 2))
     
-    for ix in range(len(img_pts)):
+    for ix in range(len(used)):
         ret[ix] = (residuals[2*ix], residuals[2*ix + 1])
-        used[ix] = img_pts[ix].pnr()
     
     free(residuals)
     return ret, used, err_est
 
-def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets, 
-    ControlParams cparam, cals, db_length, db_weight):
+def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets not None, 
+    ControlParams cparam not None, cals, int db_length, double db_weight):
     """
     Wrap the epipolar convergence test.
     
@@ -326,16 +375,24 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
     cdef:
         np.ndarray[ndim=2, dtype=pos_t] targ
         vec2d **ctargets
-        calibration **calib = cal_list2arr(cals)
+        calibration **calib
         int cam, num_cams
+        double ret
+    
+    check_targets(targets, cals)
+    calib = cal_list2arr(list(cals))
     
     num_cams = targets.shape[1]
     num_pts = targets.shape[0]
-    ctargets = <vec2d **>calloc(num_pts, sizeof(vec2d*))
+    ctargets = <vec2d **>calloc(num_pts + 1, sizeof(vec2d*))
     
     for pt in range(num_pts):
         targ = targets[pt]
         ctargets[pt] = <vec2d *>(targ.data)
     
-    return weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
+    ret = weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
         cparam._control_par.mm, calib,  db_length, db_weight)
+    
+    free(ctargets)
+    free(calib)
+    return ret
-- 
2.43.0


From 49302444c1285e0625189da111b1598df44a3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 51/58] fix: the Tracker in Python keeps what it uses, and None
 arguments raise exceptions

---
 py_bind/optv/epipolar.pyx   |  6 ++--
 py_bind/optv/imgcoord.pyx   | 12 ++++----
 py_bind/optv/tracker.pxd    |  3 ++
 py_bind/optv/tracker.pyx    | 57 ++++++++++++++++++++++++++++++++-----
 py_bind/optv/transforms.pyx | 20 ++++++-------
 5 files changed, 72 insertions(+), 26 deletions(-)

diff --git a/py_bind/optv/epipolar.pyx b/py_bind/optv/epipolar.pyx
index 074768c..1769e4e 100644
--- a/py_bind/optv/epipolar.pyx
+++ b/py_bind/optv/epipolar.pyx
@@ -22,9 +22,9 @@ cdef extern from "optv/ray_tracing.h":
 cdef extern from "optv/multimed.h":
     void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out)
 
-def epipolar_curve(np.ndarray[ndim=1, dtype=np.float64_t] image_point,
-    Calibration origin_cam, Calibration project_cam, int num_points,
-    ControlParams cparam, VolumeParams vparam):
+def epipolar_curve(np.ndarray[ndim=1, dtype=np.float64_t] image_point not None,
+    Calibration origin_cam not None, Calibration project_cam not None, int num_points,
+    ControlParams cparam not None, VolumeParams vparam not None):
     """
     Get the points lying on the epipolar line from one camera to the other, on
     the edges of the observed volume. Gives pixel coordinates.
diff --git a/py_bind/optv/imgcoord.pyx b/py_bind/optv/imgcoord.pyx
index 07b629a..3044e9c 100644
--- a/py_bind/optv/imgcoord.pyx
+++ b/py_bind/optv/imgcoord.pyx
@@ -4,9 +4,9 @@ cimport numpy as np
 from optv.parameters cimport MultimediaParams, mm_np
 from optv.calibration cimport Calibration, calibration
 
-def flat_image_coordinates(np.ndarray[ndim=2, dtype=np.float_t] input,
-                           Calibration cal,
-                           MultimediaParams mult_params,
+def flat_image_coordinates(np.ndarray[ndim=2, dtype=np.float_t] input not None,
+                           Calibration cal not None,
+                           MultimediaParams mult_params not None,
                            np.ndarray[ndim=2, dtype=np.float_t] output=None):
     '''
     calculates projection from coordinates in
@@ -38,9 +38,9 @@ def flat_image_coordinates(np.ndarray[ndim=2, dtype=np.float_t] input,
                          < double *> np.PyArray_GETPTR2(output, i, 1))
     return output
 
-def image_coordinates(np.ndarray[ndim=2, dtype=np.float_t] input,
-                      Calibration cal,
-                      MultimediaParams mult_params,
+def image_coordinates(np.ndarray[ndim=2, dtype=np.float_t] input not None,
+                      Calibration cal not None,
+                      MultimediaParams mult_params not None,
                       np.ndarray[ndim=2, dtype=np.float_t] output=None):
     '''
     estimates metric coordinates in image space
diff --git a/py_bind/optv/tracker.pxd b/py_bind/optv/tracker.pxd
index a86cfda..b2753d3 100644
--- a/py_bind/optv/tracker.pxd
+++ b/py_bind/optv/tracker.pxd
@@ -6,6 +6,7 @@ from optv.calibration cimport calibration
 cdef extern from "optv/tracking_run.h":
     ctypedef struct tracking_run:
         sequence_par *seq_par
+        control_par *cpar
         calibration **cal
         framebuf *fb
     
@@ -25,6 +26,8 @@ cdef extern from "optv/track.h":
 cdef class Tracker:
     cdef tracking_run *run_info
     cdef int step
+    cdef int num_cams
+    cdef int check_run(Tracker self) except -1
     cdef object _keepalive
 
     
diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index cbf47d3..e3aa1dd 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -12,6 +12,7 @@ from optv.parameters cimport ControlParams, TrackingParams, SequenceParams, \
     VolumeParams
 from optv.orientation cimport cal_list2arr
 from optv.tracking_framebuf cimport fb_free
+from optv.calibration cimport calibration
 
 default_naming = {
     'corres': b'res/rt_is',
@@ -26,9 +27,10 @@ cdef class Tracker:
     ``finalize()`` to finish the run. Alternatively, ``full_forward()`` will 
     do all this for you.
     """
-    def __init__(self, ControlParams cpar, VolumeParams vpar, 
-        TrackingParams tpar, SequenceParams spar, list cals,
-        dict naming=default_naming, flatten_tol=0.0001):
+    def __init__(self, ControlParams cpar not None, VolumeParams vpar not None, 
+        TrackingParams tpar not None, SequenceParams spar not None, 
+        list cals not None, dict naming=default_naming, 
+        double flatten_tol=0.0001):
         """
         Arguments:
         ControlParams cpar, VolumeParams vpar, TrackingParams tpar, 
@@ -38,20 +40,53 @@ cdef class Tracker:
         dict naming - a dictionary with naming rules for the frame buffer 
             files. See the ``default_naming`` member (which is the default).
         """
+        cdef:
+            bytes corres = naming['corres']
+            bytes linkage = naming['linkage']
+            bytes prio = naming['prio']
+            calibration **calib
+        
+        if self.run_info != NULL:
+            raise TypeError("Can't initialize a Tracker again.")
+        
+        self.num_cams = cpar._control_par.num_cams
+        if self.num_cams < 1 or self.num_cams > 4:
+            raise ValueError("Tracking is possible with 1 to 4 cameras.")
+        if corres is None or linkage is None or prio is None:
+            raise TypeError("Expected file base names.")
+        if len(cals) < self.num_cams:
+            raise ValueError("Expected a calibration for each camera.")
+        if spar._sequence_par.num_cams < self.num_cams:
+            raise ValueError("Expected an image name for each camera.")
+        
+        calib = cal_list2arr(cals)
+        
         # We need to keep a reference to the Python objects so that their
-        # allocations are not freed.
-        self._keepalive = (cpar, vpar, tpar, spar, cals)
+        # allocations are not freed. The containers are copied because they
+        # may be changed later.
+        self._keepalive = (cpar, vpar, tpar, spar, tuple(cals), corres, 
+            linkage, prio)
         
         self.run_info = tr_new(spar._sequence_par, tpar._track_par,
             vpar._volume_par, cpar._control_par, TR_BUFSPACE, MAX_TARGETS,
-            naming['corres'], naming['linkage'], naming['prio'], 
-            cal_list2arr(cals), flatten_tol)
+            corres, linkage, prio, calib, flatten_tol)
+    
+    cdef int check_run(Tracker self) except -1:
+        """
+        Raises an exception if tracking is not possible (anymore).
+        """
+        if self.run_info == NULL:
+            raise ValueError("The tracker was not initialized.")
+        if self.run_info.cpar.num_cams != self.num_cams:
+            raise ValueError("The number of cameras has changed.")
+        return 0
     
     def restart(self):
         """
         Prepare a tracking run. Sets up initial buffers and performs the
         one-time calculations used throughout the loop.
         """
+        self.check_run()
         self.step = self.run_info.seq_par.first
         track_forward_start(self.run_info)
     
@@ -59,6 +94,7 @@ cdef class Tracker:
         """
         Perform one tracking step for the current frame of iteration.
         """
+        self.check_run()
         if self.step >= self.run_info.seq_par.last:
             return False
         
@@ -70,12 +106,14 @@ cdef class Tracker:
         """
         Finish a tracking run.
         """
+        self.check_run()
         trackcorr_c_finish(self.run_info, self.step)
     
     def full_forward(self):
         """
         Do a full tracking run from restart to finalize.
         """
+        self.check_run()
         track_forward_start(self.run_info)
         for step in range(
                 self.run_info.seq_par.first, self.run_info.seq_par.last):
@@ -87,14 +125,19 @@ cdef class Tracker:
         Does a full backward run on existing tracking results. so make sure
         results exist or it will explode in your face.
         """
+        self.check_run()
         trackback_c(self.run_info)
         
     def current_step(self):
         return self.step
     
     def __dealloc__(self):
+        if self.run_info == NULL:
+            return
+        
         # Don't call tr_free, just free the memory that belongs to us.
         fb_free(self.run_info.fb)
+        free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
         free(self.run_info) # not using tr_free() which assumes ownership of 
diff --git a/py_bind/optv/transforms.pyx b/py_bind/optv/transforms.pyx
index 04cdfcf..b1733a4 100644
--- a/py_bind/optv/transforms.pyx
+++ b/py_bind/optv/transforms.pyx
@@ -24,8 +24,8 @@ def check_inputs(inp_arr, out_arr):
                             + str(inp_arr.shape) + " != " + str(out_arr.shape))
     return out_arr
     
-def convert_arr_pixel_to_metric(np.ndarray[ndim=2, dtype=np.float_t] input,
-                                ControlParams control,
+def convert_arr_pixel_to_metric(np.ndarray[ndim=2, dtype=np.float_t] input not None,
+                                ControlParams control not None,
                                 np.ndarray[ndim=2, dtype=np.float_t] out=None):
     '''
     Convert NumPy 2d, Nx2 array from pixel coordinates to metric coordinates.
@@ -39,8 +39,8 @@ def convert_arr_pixel_to_metric(np.ndarray[ndim=2, dtype=np.float_t] input,
     '''
     return convert_generic(input, control._control_par, out, pixel_to_metric)
   
-def convert_arr_metric_to_pixel(np.ndarray[ndim=2, dtype=np.float_t] input,
-                                ControlParams control,
+def convert_arr_metric_to_pixel(np.ndarray[ndim=2, dtype=np.float_t] input not None,
+                                ControlParams control not None,
                                 np.ndarray[ndim=2, dtype=np.float_t] out=None):
     '''
     Convert NumPy 2d, Nx2 array from metric coordinates to pixel coordinates.
@@ -69,8 +69,8 @@ cdef convert_generic(np.ndarray[ndim=2, dtype=np.float_t] input,
 
 # Affine #
 
-def correct_arr_brown_affine(np.ndarray[ndim=2, dtype=np.float_t] input,
-                                Calibration calibration,
+def correct_arr_brown_affine(np.ndarray[ndim=2, dtype=np.float_t] input not None,
+                                Calibration calibration not None,
                                 np.ndarray[ndim=2, dtype=np.float_t] out=None):
     '''
     Correct crd to geo with Brown + affine.
@@ -85,8 +85,8 @@ def correct_arr_brown_affine(np.ndarray[ndim=2, dtype=np.float_t] input,
     return brown_affine_generic(input, calibration._calibration.added_par, out,
         correct_brown_affin)
   
-def distort_arr_brown_affine(np.ndarray[ndim=2, dtype=np.float_t] input,
-                                Calibration calibration,
+def distort_arr_brown_affine(np.ndarray[ndim=2, dtype=np.float_t] input not None,
+                                Calibration calibration not None,
                                 np.ndarray[ndim=2, dtype=np.float_t] out=None):
     '''
     Transformation with Brown + affine. 
@@ -114,8 +114,8 @@ cdef brown_affine_generic(np.ndarray[ndim=2, dtype=np.float_t] input,
                         , < double *> np.PyArray_GETPTR2(out, i, 1))
     return out
 
-def distorted_to_flat(np.ndarray[ndim=2, dtype=np.float_t] inp,
-    Calibration calibration, np.ndarray[ndim=2, dtype=np.float_t] out=None,
+def distorted_to_flat(np.ndarray[ndim=2, dtype=np.float_t] inp not None,
+    Calibration calibration not None, np.ndarray[ndim=2, dtype=np.float_t] out=None,
     double tol=0.00001):
     """
     Full, exact conversion of distorted metric coordinates to flat unshifted 
-- 
2.43.0


From 05bc66370e475fa70df34a1400aa5349afd8c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 52/58] fix: a ControlParams whose constructor raises frees its
 memory

---
 py_bind/optv/parameters.pyx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 016591c..62bd78a 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -680,7 +680,15 @@ cdef class ControlParams:
         if self._control_par != NULL:
             raise TypeError("Can't initialize a ControlParams again.")
         
+        # Once the struct refers to it, the memory of the multimedia parameters
+        # belongs to the Python object, whatever happens afterwards.
+        mmp = MultimediaParams(
+            n1=cam_side_n, n2=wall_ns, d=wall_thicks, n3=object_side_n)
         self._control_par = c_new_control_par(cams)
+        self._multimedia_params = mmp
+        free(self._control_par[0].mm)
+        self._control_par[0].mm = self._multimedia_params._mm_np
+        
         self.set_hp_flag('hp' in flags)
         self.set_allCam_flag('allcam' in flags)
         self.set_tiff_flag('headers' in flags)
@@ -691,11 +699,6 @@ cdef class ControlParams:
         if pixel_size is not None:
             self.set_pixel_size(pixel_size)
         
-        self._multimedia_params = MultimediaParams(
-            n1=cam_side_n, n2=wall_ns, d=wall_thicks, n3=object_side_n)
-        free(self._control_par[0].mm)
-        self._control_par[0].mm = self._multimedia_params._mm_np
-        
     # Getters and setters
     def get_num_cams(self):
         return self._control_par[0].num_cams
-- 
2.43.0


From b6a8b5e37182ba56d7c0eef1e75c81ae382d6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 53/58] fix: a position too far away for an int is not looked
 up in the multimedia table

---
 liboptv/src/multimed.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 4359484..f913910 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -354,24 +354,25 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
   
     vec_subt(pos, cal->mmlut.origin, temp);
     sz = temp[2]/rw;
-    iz = (int) sz;
-    sz -= iz;
     
     R = norm(temp[0], temp[1], 0);
-    
     sr = R/rw;
-    ir = (int) sr;
-    sr -= ir;
   
     nz = cal->mmlut.nz;
     nr = cal->mmlut.nr;
     
-    /* check whether point is inside camera's object volume */
-    if (ir + 1 >= nr)
+    /* check whether point is inside camera's object volume. Done before the 
+       conversion to integers, which can't hold every distance. */
+    if (! (sr < nr - 1))
         return (0);
-    if (temp[2] < 0  ||  iz + 1 >= nz)
+    if (! (sz >= 0  &&  sz < nz - 1))
         return (0);
   
+    ir = (int) sr;
+    sr -= ir;
+    iz = (int) sz;
+    sz -= iz;
+  
     /* bilinear interpolation in r/z box */
     /* ================================= */
   
-- 
2.43.0


From 4bf8f12327a23731437d3a274bbc65d5d14c79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 54/58] fix: detections beyond the number of usage marks are
 not matched

---
 liboptv/src/correspondences.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index ccac571..98ab055 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -182,7 +182,7 @@ int** safely_allocate_target_usage_marks(int num_cams) {
     
     for (cam = 0; cam < num_cams; cam++) {
         if (error == 0) {
-            tusage[cam] = (int *) calloc(nmax, sizeof(int));
+            tusage[cam] = (int *) calloc(nmax + 1, sizeof(int));
             if (tusage[cam] == NULL) 
                 error = 1;
         } else {
@@ -292,6 +292,10 @@ int four_camera_matching(correspond *list[4][4], int base_target_count,
           p2 = list[0][1][i].p2[j];
           p3 = list[0][2][i].p2[k];
           p4 = list[0][3][i].p2[l];
+          
+          /* there are no usage marks for further targets */
+          if (p1 > nmax || p2 > nmax || p3 > nmax || p4 > nmax) continue;
+          
           for (m=0; m<list[1][2][p2].n; m++) {
             p31 = list[1][2][p2].p2[m];
             if (p3 != p31) continue;
-- 
2.43.0


From 4d93032f5ed38e269bb7030a324270809a6a84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 55/58] fix: target detection in images of more than 32767
 pixels a side

---
 liboptv/include/segmentation.h | 2 +-
 liboptv/src/segmentation.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/include/segmentation.h b/liboptv/include/segmentation.h
index 214a858..7900b02 100644
--- a/liboptv/include/segmentation.h
+++ b/liboptv/include/segmentation.h
@@ -18,7 +18,7 @@
 typedef struct
 {
   int 	pos, status;
-  short	xmin, xmax, ymin, ymax;
+  int	xmin, xmax, ymin, ymax;
   int   n, sumg;
   double  x, y;
   int   unr, touch[4], n_touch;	/* unified with target unr, touching ... */
diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index f908d82..80880ea 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -18,7 +18,7 @@ Description:
 #include <string.h>
 #include <stdio.h>
 
-typedef short targpix[2];
+typedef int targpix[2];
 
 
 /*  targ_rec() thresholding and center of gravity with a peak fitting technique 
-- 
2.43.0


From e9c219fb9ab8588d84f82144375e1acbd265bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 56/58] fix: brightness sums of very large targets do not
 overflow

---
 liboptv/include/segmentation.h |  4 ++--
 liboptv/src/segmentation.c     | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/liboptv/include/segmentation.h b/liboptv/include/segmentation.h
index 7900b02..399bf7a 100644
--- a/liboptv/include/segmentation.h
+++ b/liboptv/include/segmentation.h
@@ -19,8 +19,8 @@ typedef struct
 {
   int 	pos, status;
   int	xmin, xmax, ymin, ymax;
-  int   n, sumg;
-  double  x, y;
+  int   n;
+  double  sumg, x, y;   /* a large region's sum does not fit an int */
   int   unr, touch[4], n_touch;	/* unified with target unr, touching ... */
 }
 peak;
diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 80880ea..b64b265 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -16,6 +16,7 @@ Description:
 
 #include "segmentation.h"
 #include <string.h>
+#include <limits.h>
 #include <stdio.h>
 
 typedef int targpix[2];
@@ -46,11 +47,11 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
     int xmax, int ymin, int ymax, control_par *cpar, int num_cam, target pix[])
 {
     register int  i, j;
-    int           n=0, n_wait=0, n_done=0, n_targets=0, sumg;
+    int           n=0, n_wait=0, n_done=0, n_targets=0;
     int           numpix;
     int           thres, disco;
     int           xa,ya,xb,yb, x4[4],y4[4], xn,yn, nx, ny; 
-    double            x, y;
+    double            x, y, sumg;     /* sums may not fit an int */
     unsigned char *img0;
 
     register unsigned char    gv, gvref;
@@ -178,8 +179,8 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
                     pix[n_targets].n = numpix;
                     pix[n_targets].nx = nx;
                     pix[n_targets].ny = ny;
-                    pix[n_targets].sumg = sumg;
-                    sumg -= (numpix*thres);
+                    pix[n_targets].sumg = (sumg < INT_MAX) ? (int) sumg : INT_MAX;
+                    sumg -= ((double) numpix*thres);
 
                     /* finish the grey-value weighting: */
                     x /= sumg;  x += 0.5;   
@@ -486,11 +487,11 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
          && peaks[i].n >= targ_par->nnmin
          && peaks[i].n <= targ_par->nnmax)
         {
-          sumg = peaks[i].sumg;
+          sumg = (peaks[i].sumg < INT_MAX) ? (int) peaks[i].sumg : INT_MAX;
 
           /* target coordinates */
-          pix[n_target].x = 0.5 + peaks[i].x / sumg;
-          pix[n_target].y = 0.5 + peaks[i].y / sumg;
+          pix[n_target].x = 0.5 + peaks[i].x / peaks[i].sumg;
+          pix[n_target].y = 0.5 + peaks[i].y / peaks[i].sumg;
 
 
           /* target shape parameters */
-- 
2.43.0


From 3ed8d3ed6629394ea292a509e647da4bcee53599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 57/58] fix: box blur with wide filters does not overflow

---
 liboptv/src/image_processing.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index b8c700a..cd9d8b6 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -134,8 +134,10 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     control_par *cpar) 
 {
     register unsigned char  *ptrl, *ptrr, *ptrz;
-    register int *ptr, *ptr1, *ptr2, *ptr3;
-    int *row_accum, *col_accum, accum, *end;
+    register int *ptr, *ptr1, *ptr2;
+    register long long *ptr3;
+    int *row_accum;
+    long long *col_accum, accum, *end; /* sums over wide filters outgrow int */
     int row_start, n, n_rows, nq, m, row_span;
     register int i;
     int image_size = cpar->imx * cpar->imy;
@@ -150,7 +152,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     nq = n*n_rows;
     
     if ((row_accum = (int *)calloc(image_size, sizeof(int))) == NULL) return 0;
-    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) {
+    if ((col_accum = (long long *)calloc(cpar->imx, sizeof(long long))) == NULL) {
         free(row_accum);
         return 0;
     }
@@ -207,11 +209,11 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     end = col_accum + cpar->imx;
     
     /* first line */
-    for (ptr1 = row_accum, ptr2 = col_accum, ptrz = dest; 
-        ptr2 < end; ptr1++, ptr2++, ptrz++)
+    for (ptr1 = row_accum, ptr3 = col_accum, ptrz = dest; 
+        ptr3 < end; ptr1++, ptr3++, ptrz++)
     {
-       *ptr2 = *ptr1;
-       *ptrz = *ptr2/n;
+       *ptr3 = *ptr1;
+       *ptrz = *ptr3/n;
     }
     
     /* Sum vertically the accumulated row values for lines 1 ... filt_span */
-- 
2.43.0


From a881c0a0cf08068d5d1cb26482423698acd11f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 58/58] fix: reading and writing numbers does not depend on the
 locale of the program

As in parameters.c: orientation, target, path and calibration block files and
filters have decimal points also where the program has set a locale with
decimal commas.
---
 liboptv/src/calibration.c        |  7 +++++++
 liboptv/src/image_processing.c   |  4 ++++
 liboptv/src/sortgrid.c           |  4 ++++
 liboptv/src/tracking_frame_buf.c | 10 ++++++++++
 4 files changed, 25 insertions(+)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 94bdc86..a6ebaf7 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <math.h>
+#include <locale.h>
 #include "tracking_frame_buf.h"
 #include "calibration.h"
 
@@ -27,6 +28,9 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   FILE	*fp;
   int  	i, success = 0;
 
+  /* Numbers in files have decimal points, see parameters.c */
+  setlocale(LC_NUMERIC, "C");
+
   fp = fopen (filename, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", filename);
@@ -92,6 +96,9 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
    if (!(fp = fopen_r(ori_file))) return 0;
    */
    
+    /* Numbers in files have decimal points, see parameters.c */
+    setlocale(LC_NUMERIC, "C");
+
     fp = fopen (ori_file, "r");
     if (! fp) {
         printf("Can't open ORI file: %s\n", ori_file);
diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index cd9d8b6..4e2f6d5 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -9,6 +9,7 @@
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <locale.h>
 #include "image_processing.h"
 
 /*  This would be a function, only the original writer of these filters put a 
@@ -416,6 +417,9 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
         break;
     case 2:
         /* read filter elements from parameter file */
+        /* Numbers in files have decimal points, see parameters.c */
+        setlocale(LC_NUMERIC, "C");
+
         fp = fopen (filter_file, "r");
         if (fp == NULL) {
             free (img_lp);
diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index 278c042..c6dc04f 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -19,6 +19,7 @@ Description:	       	reads objects, detected by detection etc.,
 ****************************************************************************/
 
 
+#include <locale.h>
 #include "sortgrid.h"
 
 /* sortgrid () is sorting detected target points by back-projection. Three dimensional 
@@ -167,6 +168,9 @@ vec3d* read_calblock(int *num_points, char* filename) {
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
+    /* Numbers in files have decimal points, see parameters.c */
+    setlocale(LC_NUMERIC, "C");
+
     fpp = fopen (filename, "r");
     if (! fpp) {
         printf("Can't open calibration block file: %s\n", filename);
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 16b74c2..6433b46 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -10,6 +10,7 @@ reading targets, correspondences, etc.
 #include <stdio.h>
 #include <stdlib.h>
 #include <limits.h>
+#include <locale.h>
 #include "tracking_frame_buf.h"
 
 /* Check that target t1 is equal to target t2, i.e. all their fields are equal.
@@ -71,6 +72,9 @@ int read_targets_limited(target buffer[], int max_targets,
         goto handle_error;
     }
     
+    /* Numbers in files have decimal points, see parameters.c */
+    setlocale(LC_NUMERIC, "C");
+
     FILEIN = fopen (filein, "r");
     if (! FILEIN) {
         printf("Can't open ascii file: %s\n", filein);
@@ -165,6 +169,9 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
         goto finalize;
     }
 
+    /* Numbers in files have decimal points, see parameters.c */
+    setlocale(LC_NUMERIC, "C");
+
     FILEOUT = fopen(fileout, "w");
     if (! FILEOUT) {
         printf("Can't open ascii file: %s\n", fileout);
@@ -277,6 +284,9 @@ static FILE *open_numbered(char *file_base, int frame_num, char *mode) {
     FILE *ret = NULL;
     
     len = snprintf(fname, STR_MAX_LEN + 1, "%s.%d", file_base, frame_num);
+    /* Numbers in files have decimal points, see parameters.c */
+    setlocale(LC_NUMERIC, "C");
+
     if ((len >= 0) && (len <= STR_MAX_LEN)) ret = fopen(fname, mode);
     
     /* Keeping the printf until we have proper logging. */
-- 
2.43.0

