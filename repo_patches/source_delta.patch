From 335451df73d1fa65539d214f43a0fba34ed96e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 01/40] fix: sorting an empty target or coordinate list must
 not touch memory

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..3dc0db9 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From a8a0f5f3969c14619c88b6e285093a2eec35ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 02/40] fix: distortion and its correction define their outputs
 at the image centre and share one model

The tangential y term used the already distorted x, and the correction took
the flat instead of the distorted y for the shear, so neither was the inverse
of the other; at the centre both returned without setting their outputs.
---
 liboptv/src/trafo.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..46f60e4 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -167,7 +167,7 @@ void metric_to_pixel(double * x_pixel
     double *x1, *y1 - output metric distorted parameters.
 */
 void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
-  double		r;
+  double		r, x_flat = x;
   
   
   r = sqrt (x*x + y*y);
@@ -177,10 +177,14 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
-	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
+	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x_flat*y;
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
+  else
+    {
+      *x1 = 0;  *y1 = 0;
+    }
 }
 
 /*  correct distorted to flat-image coordinates, see correct_brown_affine_exact(),
@@ -210,7 +214,10 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        *x1 = 0;  *y1 = 0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
@@ -219,7 +226,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     
     do {
         r = rq;
-        xq = (x + yq*sin(ap.she))/ap.scx
+        xq = (x + y*tan(ap.she))/ap.scx
             - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
         yq = y/cos(ap.she)
@@ -239,7 +246,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     /* Final step uses the iteratively-found R and x, y to apply the exact
        correction, equivalent to one more iteration. */
     r = rq;
-    *x1 = (x + yq*sin(ap.she))/ap.scx
+    *x1 = (x + y*tan(ap.she))/ap.scx
 	    - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
     *y1 = y/cos(ap.she)
-- 
2.43.0


From 8fc5f5ce2c94889ddb9d836f31aabe2fc4f4d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 03/40] fix: the multimedia look-up table is only read where it
 has four nodes

Points below the table or in its last row or column were extrapolated from
nodes of another row or from memory behind the table, and a second call for
another volume changed the size of an existing table but not its data.
---
 liboptv/src/multimed.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..11138be 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -301,13 +301,13 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   nz = (int)((Zmax_t-Zmin_t)/rw + 1);
 
   /* create two dimensional mmlut structure */
-  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
-  
-  cal->mmlut.nr = nr;
-  cal->mmlut.nz = nz;
-  cal->mmlut.rw = rw;
-  
   if (cal->mmlut.data == NULL) {
+      /* only now: the size must stay that of the existing data */
+      vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+      cal->mmlut.nr = nr;
+      cal->mmlut.nz = nz;
+      cal->mmlut.rw = rw;
+  
       data = (double *) malloc (nr*nz * sizeof (double));
   
       /* fill mmlut structure */
@@ -362,9 +362,9 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     nr = cal->mmlut.nr;
     
     /* check whether point is inside camera's object volume */
-    if (ir > nr)
+    if (ir > nr - 2)
         return (0);
-    if (iz < 0  ||  iz > nz)
+    if (temp[2] < 0  ||  iz > nz - 2)
         return (0);
   
     /* bilinear interpolation in r/z box */
-- 
2.43.0


From 4ae0b5bcd76794f0ec50467ff8dd7d85ce21ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 04/40] fix: candidate search must not drop targets at equal
 distance from the window centre

---
 liboptv/src/track.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..23f7419 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -275,15 +275,15 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
                             p4 = p3; p3 = p2; p2 = p1; p1 = j;
                             d4 = d3; d3 = d2; d2 = d1; d1 = d;
                         }
-                        else if ( d1 < d &&  d < d2 ) {
+                        else if ( d < d2 ) {
                             p4 = p3; p3 = p2; p2 = j;
                             d4 = d3; d3 = d2; d2 = d;
                         }
-                        else if ( d2 < d && d < d3 ) {
+                        else if ( d < d3 ) {
                             p4 = p3; p3 = j;
                             d4 = d3; d3 = d;
                         }
-                        else if ( d3 < d && d < d4 ) {
+                        else if ( d < d4 ) {
                             p4 = j;
                             d4 = d;
                         }
-- 
2.43.0


From 1f20390e85c0494fc036d60386fab734692f3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 05/40] fix: candidate searches start early enough in long
 target lists

---
 liboptv/src/epi.c   | 1 +
 liboptv/src/track.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index f14ceef..7f789e5 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -180,6 +180,7 @@ int find_candidate (coord_2d *crd, target *pix, int num,
   /* due to truncation error we might shift to smaller x */
   j0 -= 12;  
   if (j0 < 0)  j0 = 0; 
+  while (j0 > 0 && crd[j0].x > xa - tol_band_width)  j0--;
 
   for (j = j0; j < num; j++) {  /* candidate search */
       	
diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 23f7419..13bc69c 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -259,6 +259,7 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
             }
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            while (j0 > 0 && next[j0].y >= ymin) j0--; /* trunc in long lists */
             for (j = j0; j<num_targets; j++) {           /* candidate search */
                 if (next[j].tnr != TR_UNUSED ) {
                     if (next[j].y > ymax ) break;                     /* finish search */
@@ -348,6 +349,7 @@ int candsearch_in_pix_rest (target next[], int num_targets, double cent_x, doubl
             }	
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */	
+            while (j0 > 0 && next[j0].y >= ymin) j0--; /* trunc in long lists */
             for (j = j0; j<num_targets; j++) {           /* candidate search */	
                 if (next[j].tnr == TR_UNUSED ) {	
                     if (next[j].y > ymax ) break;                     /* finish search */	
-- 
2.43.0


From 62683a82728a67bb1248b5640d423341ec17a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 06/40] fix: the angle between displacements is a number for
 zero and for parallel displacements

---
 liboptv/src/track.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 13bc69c..bdd7e71 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -192,20 +192,27 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double norm0, norm1, cosine;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
 
     *acc = vec_diff_norm(v0, v1);
+    norm0 = vec_norm(v0);
+    norm1 = vec_norm(v1);
 
-
-    if ((v0[0] == -v1[0]) && (v0[1] == -v1[1]) && (v0[2] == -v1[2])) {
+    if (norm0 == 0 || norm1 == 0) {
+        *angle = 0;         /* no direction to compare */
+    } else if ((v0[0] == -v1[0]) && (v0[1] == -v1[1]) && (v0[2] == -v1[2])) {
         *angle = 200;
     } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
         *angle = 0;         // otherwise it returns NaN
     } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+        /* rounding may leave the cosine of parallel vectors outside -1..1 */
+        cosine = vec_dot(v0, v1) / norm0 / norm1;
+        if (cosine > 1) cosine = 1;
+        if (cosine < -1) cosine = -1;
+        *angle = (200./M_PI) * acos(cosine);
     }
 }
 
-- 
2.43.0


From 8dda8f71e7c8e0cc6b083d55b398805e8f9f0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 07/40] fix: compare the image names of both sequences

---
 liboptv/src/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 785328d..5ad5d3a 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -99,7 +99,7 @@ int compare_sequence_par(sequence_par *sp1, sequence_par *sp2) {
         return 0; /*not equal*/
 
     for (cam = 0; cam < sp1->num_cams; cam++) {
-        if (strcmp(sp1->img_base_name[cam],sp1->img_base_name[cam]) !=0){
+        if (strcmp(sp1->img_base_name[cam],sp2->img_base_name[cam]) !=0){
             return 0; /*not equal*/
         }
     }
-- 
2.43.0


From 0ff71128faa42630f4606afbb72f0255e8d8925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 08/40] fix: the search for correspondences stays within its
 scratch buffer

---
 liboptv/src/correspondences.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 3dc0db9..92cc199 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -661,7 +661,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent quadruplets in the list */
   if (cpar->num_cams == 4) {
     match0 = four_camera_matching(list, frm->num_targets[0], 
-        vpar->corrmin, con0, 4*nmax);
+        vpar->corrmin, con0, cpar->num_cams*nmax);
     
     match_counts[0] = take_best_candidates(con0, con, cpar->num_cams, match0, tim);
     match_counts[3] += match_counts[0];
@@ -670,7 +670,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent triplets :  123, 124, 134, 234 */
   if ((cpar->num_cams == 4 && cpar->allCam_flag == 0) || cpar->num_cams == 3) {
     match0 = three_camera_matching(list, cpar->num_cams, frm->num_targets, 
-        vpar->corrmin, con0, 4*nmax, tim);
+        vpar->corrmin, con0, cpar->num_cams*nmax, tim);
     
     match_counts[1] = take_best_candidates(con0, &(con[match_counts[3]]), 
         cpar->num_cams, match0, tim);
@@ -680,7 +680,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent pairs :  12, 13, 14, 23, 24, 34 */
   if(cpar->num_cams > 1 && cpar->allCam_flag == 0) {
       match0 = consistent_pair_matching(list, cpar->num_cams, 
-          frm->num_targets, vpar->corrmin, con0, 4*nmax, tim);
+          frm->num_targets, vpar->corrmin, con0, cpar->num_cams*nmax, tim);
                 
       match_counts[2] = take_best_candidates(con0, &(con[match_counts[3]]), 
           cpar->num_cams, match0, tim);
-- 
2.43.0


From fde4035c2de98763402d861077c6a86023b560ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 09/40] fix: the Python bindings give correspondences() the
 four counters it fills and return the total

---
 liboptv/src/correspondences.c    | 5 +++--
 py_bind/optv/correspondences.pyx | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 92cc199..7a917ce 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -601,8 +601,9 @@ int take_best_candidates(n_tupel *src, n_tupel *dst,
         parameters.
     
     Output Arguments:
-    int match_counts[] - output buffer, as long as the number of cameras.
-        stores the number of matches for each clique size, in descending
+    int match_counts[] - output buffer of four elements for any number of
+        cameras.
+        Stores the number of matches for each clique size, in descending
         clique size order. The last element stores the total.
     
     Returns:
diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 1b14fc3..2fd03c1 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -164,7 +164,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         np.ndarray[ndim=3, dtype=np.float64_t] clique_targs
         
         # Return buffers:
-        int *match_counts = <int *> malloc(num_cams * sizeof(int))
+        int *match_counts = <int *> malloc(4 * sizeof(int))
         n_tupel *corresp_buf
     
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -214,7 +214,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_corresp[clique_type] = clique_ids
     
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
-- 
2.43.0


From b73d1b581c3366b23a79be57b9d97b6ea2cf1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 10/40] fix: box blur of the bottom lines and of images smaller
 than the kernel

The last filt_span lines were divided by the number of lines of the next
line up, so the bottom of the blurred image came out too dark. Kernels
larger than the image made the sums run outside of it; refuse them.
---
 liboptv/src/image_processing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index e58fed0..7e0cc55 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -124,7 +124,8 @@ void lowpass_3(unsigned char *img, unsigned char *img_lp, control_par *cpar) {
     control_par *cpar - contains image size parameters.
     
     Returns:
-    0 on failure (due to memory allocation error), 1 on success.
+    0 on failure (due to memory allocation error, or because the kernel is 
+    larger than the image), 1 on success.
     
     References:
     [1] http://www.filtermeister.com/tutorials/blur01.html
@@ -143,6 +144,8 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     n = 2*filt_span + 1;
     nq = n*n;
     
+    if (filt_span < 0 || n > cpar->imx || n > cpar->imy) return 0;
+    
     if ((row_accum = (int *)calloc(image_size, sizeof(int))) == NULL) return 0;
     if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) return 0;
     
@@ -236,7 +239,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i+1);
+            *ptrz = n * (*ptr3) / nq / (2*i - 1);
         }
     }
     
-- 
2.43.0


From 0abf615f77f14fc88fe7e68e72434b553f4124ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 11/40] fix: filter_3 clamps negative and large weighted sums

They were converted to an unsigned short before clamping, which is
undefined (and turned slightly negative sums into white pixels).
---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 7e0cc55..6f555cc 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -51,7 +51,7 @@ int filter_3(unsigned char *img, unsigned char *img_lp, filter_t filt,
         *ptr7, *ptr8, *ptr9;
 	int end;
 	double sum = 0;
-	unsigned short buf;
+	int buf;
 	register int i, j;
     int image_size = cpar->imx * cpar->imy;
 
-- 
2.43.0


From b4fbeed7c5364efabcf6060b1c3a16e9065cc6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 12/40] fix: prepare_image filters from a copy and reports bad
 filter files

Filtering in place used already filtered neighbours. A missing filter file
crashed, a truncated one left filter elements unset.
---
 liboptv/src/image_processing.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 6f555cc..8932546 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -373,7 +373,8 @@ void copy_images (unsigned char *src, unsigned char *dest, control_par *cpar)
       cases.
    
    Returns:
-   1 on success, 0 on failure of memory allocation or filter file reading.
+   1 on success, 0 on failure of memory allocation, lowpass filtering or filter
+   file reading.
 */
 int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
     int filter_hp, char *filter_file, control_par *cpar)
@@ -389,29 +390,42 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
       puts ("calloc for img_lp --> error");
       return 0;
   }
-  fast_box_blur(dim_lp, img, img_lp, cpar);
+  if ( ! fast_box_blur(dim_lp, img, img_lp, cpar)) {
+      free (img_lp);
+      return 0;
+  }
   subtract_img (img, img_lp, img_hp, cpar);
   
   /* consider field mode */
   if (cpar->chfield == 1 || cpar->chfield == 2)
     split (img_hp, cpar->chfield, cpar);
 
-  /* filter highpass image, if wanted */
+  /* filter highpass image, if wanted. The filters can't work in place, since
+     each result is computed from the original neighbours. */
   switch (filter_hp) {
     case 0: break;
-    case 1: lowpass_3 (img_hp, img_hp, cpar);   break;
+    case 1:
+        copy_images (img_hp, img_lp, cpar);
+        lowpass_3 (img_lp, img_hp, cpar);
+        break;
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
+        if (fp == NULL) {
+            free (img_lp);
+            return 0;
+        }
         for (i = 0; i < 9; i++) {
-            if (fscanf(fp, "%lf", (double *)filt + i) == 0) {
+            if (fscanf(fp, "%lf", (double *)filt + i) != 1) {
                 fclose(fp);
+                free (img_lp);
                 return 0;
             }
         }
         fclose (fp);
 
-        filter_3 (img_hp, img_hp, filt, cpar);
+        copy_images (img_hp, img_lp, cpar);
+        filter_3 (img_lp, img_hp, filt, cpar);
         break;
   }
   
-- 
2.43.0


From be60d278453cca457b7cf679e88d15dd1d95c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 13/40] fix: targ_rec does not overrun its waitlist on large
 bright areas

The list of pixels to be tested had room for 2048 pixels, fewer than the
front of a growing target can have in a large overexposed image.
---
 liboptv/src/segmentation.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fbe6e9d..2dc8c3d 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -45,8 +45,8 @@ Returns:
 int targ_rec (unsigned char *img, target_par *targ_par, int xmin, 
     int xmax, int ymin, int ymax, control_par *cpar, int num_cam, target pix[])
 {
-    register int  i, j, m;
-    int           n=0, n_wait=0, n_targets=0, sumg;
+    register int  i, j;
+    int           n=0, next, n_wait=0, n_targets=0, sumg;
     int           numpix;
     int           thres, disco;
     int           xa,ya,xb,yb, x4[4],y4[4], xn,yn, nx, ny; 
@@ -55,7 +55,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     register unsigned char    gv, gvref;
 
-    targpix waitlist[2048];
+    targpix *waitlist; /* holds each pixel of a target once */
 
     /* avoid many dereferences */
     int imx, imy;
@@ -70,6 +70,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
     /* copy image to a temporary mask */
     img0 = (unsigned char *) calloc (imx*imy, 1);
     memcpy(img0, img, imx*imy);
+    waitlist = (targpix *) malloc (imx*imy*sizeof(targpix));
 
     // printf("in segmentation.c memcpy succeded\n");
 
@@ -106,13 +107,13 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
             waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;
 
 
-            while (n_wait > 0) {
-                gvref = *(img + imx*(waitlist[0][1]) + (waitlist[0][0]));
+            for (next = 0; next < n_wait; next++) {
+                gvref = *(img + imx*(waitlist[next][1]) + (waitlist[next][0]));
 
-                x4[0] = waitlist[0][0] - 1;  y4[0] = waitlist[0][1];
-                x4[1] = waitlist[0][0] + 1;  y4[1] = waitlist[0][1];
-                x4[2] = waitlist[0][0];  y4[2] = waitlist[0][1] - 1;
-                x4[3] = waitlist[0][0];  y4[3] = waitlist[0][1] + 1;
+                x4[0] = waitlist[next][0] - 1;  y4[0] = waitlist[next][1];
+                x4[1] = waitlist[next][0] + 1;  y4[1] = waitlist[next][1];
+                x4[2] = waitlist[next][0];  y4[2] = waitlist[next][1] - 1;
+                x4[3] = waitlist[next][0];  y4[3] = waitlist[next][1] + 1;
 
 
                 for (n=0; n<4; n++) {
@@ -152,14 +153,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
                       }
                 }
 
-                n_wait--;
-                for (m=0; m<n_wait; m++) {
-                    waitlist[m][0] = waitlist[m+1][0];
-                    waitlist[m][1] = waitlist[m+1][1];
-                }
-                waitlist[n_wait][0] = 0;  waitlist[n_wait][1] = 0;
-
-            }   /*  end of while-loop  */
+            }   /*  end of waitlist loop  */
 
             /* check whether target touches image borders */
             if (xa == (xmin - 1) || ya == (ymin - 1) || 
@@ -200,6 +194,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
           } /*  end of if-loop  */
     }
     free(img0);
+    free(waitlist);
     /* protect pix from zero memory */
     if (n_targets < 1){
         pix[0].n = 1;
-- 
2.43.0


From d69ffd65ae1192dbba6226a5d0defb4ca14283b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 14/40] fix: peak_fit stays inside its buffers and counts each
 pixel once

Pixels at the image border were compared with memory outside the image,
and several border tests used the wrong bound. More than 4096 peaks or a
target front of more than 2048 pixels overran fixed buffers. A target
unified with the first one was reported again, and a target touching
several others was unified with all of them.
---
 liboptv/src/segmentation.c | 107 +++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 46 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 2dc8c3d..977d990 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -213,6 +213,14 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
 
 
+/* pixel_at() returns a pixel's grey value, 0 for pixels outside the image. */
+static unsigned char pixel_at (unsigned char *img, int imx, int imy, 
+    int x, int y)
+{
+    if (x < 0 || x >= imx || y < 0 || y >= imy) return 0;
+    return *(img + imx*y + x);
+}
+
 /* 
   peak fitting technique for particle coordinate determination  
   labeling with discontinuity, reunification with distance and profile criteria
@@ -240,7 +248,7 @@ int peak_fit (unsigned char *img, target_par *targ_par, int xmin, int xmax,
 int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     int imx, imy; /* save dereferencing of same in cpar */
     int           n_peaks=0;        /* # of peaks detected */
-    int           n_wait;               /* size of waitlist for connectivity */
+    int           n_wait, next;         /* waitlist for connectivity */
     int           x8[4], y8[4];         /* neighbours for connectivity */
     int           p2;               /* considered point number */
     int           thres, disco;
@@ -251,15 +259,14 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     int           unify;              /* flag for unification of targets */
     int           unified=0;          /* # of unified targets */
     int       non_unified=0;          /* # of tested, but not unified targets */
-    register int  i, j, k, l, m, n;     /* loop variables */
+    register int  i, j, k, l, n;        /* loop variables */
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
-    short         *label_img;           /* target number labeling */
-    /* the following were not assigned, probably from globals */
-    int nmax = 1024; 
+    int           *label_img;           /* target number labeling */
+    int nmax = 4096;                    /* # of peaks there is memory for */
     peak          *peaks, *ptr_peak;    /* detected peaks */
-    targpix       waitlist[2048];     /* pix to be tested for connectivity */
+    targpix       *waitlist;            /* pix to be tested for connectivity */
 
     imx = cpar->imx;
     imy = cpar->imy;
@@ -267,10 +274,18 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     thres = targ_par->gvthres[num_cam];
     disco = targ_par->discont;
 
+    /* Make sure the min/max coordinates don't cause us to access memory
+       outside the image memory.
+    */
+    if (xmin < 0) xmin = 0;
+    if (ymin < 0) ymin = 0;
+    if (xmax > imx) xmax = imx;
+    if (ymax > imy) ymax = imy;
+
     /* allocate memory */
-    label_img = (short *) calloc (imx*imy, sizeof(short));
-    peaks = (peak *) calloc (4*nmax, sizeof(peak));
-    ptr_peak = peaks;
+    label_img = (int *) calloc (imx*imy, sizeof(int));
+    waitlist = (targpix *) malloc (imx*imy*sizeof(targpix));
+    peaks = (peak *) calloc (nmax, sizeof(peak));
 
 
     /* connectivity analysis with peak search and discontinuity criterion */
@@ -285,46 +300,50 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (*(label_img + n) != 0)    continue;
 
           /* check, wether pixel is a local maximum */
-          if ( gv >= *(img + n-1)
-           &&   gv >= *(img + n+1)
-           &&   gv >= *(img + n-imx)
-           &&   gv >= *(img + n+imx)
-           &&   gv >= *(img + n-imx-1)
-           &&   gv >= *(img + n+imx-1)
-           &&   gv >= *(img + n-imx+1)
-           &&   gv >= *(img + n+imx+1) )
+          if ( gv >= pixel_at (img, imx, imy, j-1, i)
+           &&   gv >= pixel_at (img, imx, imy, j+1, i)
+           &&   gv >= pixel_at (img, imx, imy, j, i-1)
+           &&   gv >= pixel_at (img, imx, imy, j, i+1)
+           &&   gv >= pixel_at (img, imx, imy, j-1, i-1)
+           &&   gv >= pixel_at (img, imx, imy, j-1, i+1)
+           &&   gv >= pixel_at (img, imx, imy, j+1, i-1)
+           &&   gv >= pixel_at (img, imx, imy, j+1, i+1) )
             {
               /* label peak in label_img, initialize peak */
+              if (n_peaks == nmax) {
+                  nmax *= 2;
+                  peaks = (peak *) realloc (peaks, nmax*sizeof(peak));
+              }
+              ptr_peak = peaks + n_peaks;
               n_peaks++;
               *(label_img + n) = n_peaks;
               ptr_peak->pos = n;
               ptr_peak->status = 1;
               ptr_peak->xmin = j;   ptr_peak->xmax = j;
               ptr_peak->ymin = i;   ptr_peak->ymax = i;
-              ptr_peak->unr = 0;
+              ptr_peak->unr = -1;
               ptr_peak->n = 0;
               ptr_peak->sumg = 0;
               ptr_peak->x = 0;
               ptr_peak->y = 0;
               ptr_peak->n_touch = 0;
               for (k=0; k<4; k++)   ptr_peak->touch[k] = 0;
-              ptr_peak++;
 
               waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;
 
-              while (n_wait > 0) {
-                  gvref = *(img + imx*(waitlist[0][1]) + (waitlist[0][0]));
+              for (next = 0; next < n_wait; next++) {
+                  gvref = *(img + imx*(waitlist[next][1]) + (waitlist[next][0]));
 
-                  x8[0] = waitlist[0][0] - 1;   y8[0] = waitlist[0][1];
-                  x8[1] = waitlist[0][0] + 1;   y8[1] = waitlist[0][1];
-                  x8[2] = waitlist[0][0];       y8[2] = waitlist[0][1] - 1;
-                  x8[3] = waitlist[0][0];       y8[3] = waitlist[0][1] + 1;
+                  x8[0] = waitlist[next][0] - 1;   y8[0] = waitlist[next][1];
+                  x8[1] = waitlist[next][0] + 1;   y8[1] = waitlist[next][1];
+                  x8[2] = waitlist[next][0];       y8[2] = waitlist[next][1] - 1;
+                  x8[3] = waitlist[next][0];       y8[3] = waitlist[next][1] + 1;
                   
                   for (k=0; k<4; k++) {
                       yn = y8[k];
                       xn = x8[k];
                       
-                      if (xn<0 || xn>imx || yn<0 || yn>imy) 
+                      if (xn<0 || xn>=imx || yn<0 || yn>=imy) 
                         continue;
                       
                       n = imx*yn + xn;
@@ -338,10 +357,10 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                       if (   (gv > thres)
                          && (xn>=xmin)&&(xn<xmax) && (yn>=ymin)&&(yn<ymax-1)
                          && (gv <= gvref+disco)
-                         && (gvref + disco >= *(img + imx*(yn-1) + xn))
-                         && (gvref + disco >= *(img + imx*(yn+1) + xn))
-                         && (gvref + disco >= *(img + imx*yn + (xn-1)))
-                         && (gvref + disco >= *(img + imx*yn + (xn+1)))
+                         && (gvref + disco >= pixel_at (img, imx, imy, xn, yn-1))
+                         && (gvref + disco >= pixel_at (img, imx, imy, xn, yn+1))
+                         && (gvref + disco >= pixel_at (img, imx, imy, xn-1, yn))
+                         && (gvref + disco >= pixel_at (img, imx, imy, xn+1, yn))
                          )
                         {
                           *(label_img + imx*yn + xn) = n_peaks;
@@ -351,13 +370,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                         }
                   }
 
-                  n_wait--;
-                  for (m=0; m<n_wait; m++) {  
-                    waitlist[m][0] = waitlist[m+1][0];
-                    waitlist[m][1] = waitlist[m+1][1];
-                  }
-                  waitlist[n_wait][0] = 0;  waitlist[n_wait][1] = 0;
-              }   /*  end of while-loop  */
+              }   /*  end of waitlist loop  */
             }
     }
 
@@ -386,16 +399,16 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
               /* get touch events */
 
-              if (i>0 && j>1)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
+              if (i>0 && j>0)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
               if (i>0)                  check_touch (ptr_peak, pnr, *(label_img+n-imx));
-              if (i>0 && j<imy-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
+              if (i>0 && j<imx-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
 
               if (j>0)                  check_touch (ptr_peak, pnr, *(label_img+n-1));
-              if (j<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
+              if (j<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
 
-              if (i<imx-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
-              if (i<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
-              if (i<imx-1 && j<imy-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
+              if (i<imy-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
+              if (i<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
+              if (i<imy-1 && j<imx-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
           }
     }
 
@@ -403,7 +416,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
     for (i=0; i<n_peaks; i++) {
       if (peaks[i].n_touch == 0)    continue;       /* no touching targets */
-      if (peaks[i].unr != 0)        continue;       /* target already unified */
+      if (peaks[i].unr != -1)       continue;       /* target already unified */
 
       /* profile criterion */
       /* point 1 */
@@ -417,7 +430,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
           if (p2 >= n_peaks) continue;  /* workaround memory overwrite problem */
           if ( p2 <0) continue;         /*  workaround memory overwrite problem */
-          if (peaks[p2].unr != 0)       continue; /* target already unified */
+          if (peaks[p2].unr != -1)      continue; /* target already unified */
 
           /* point 2 */
           x2 = peaks[p2].x / peaks[p2].sumg;
@@ -453,6 +466,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (peaks[i].ymin < peaks[p2].ymin)   peaks[p2].ymin = peaks[i].ymin;
           if (peaks[i].xmax > peaks[p2].xmax)   peaks[p2].xmax = peaks[i].xmax;
           if (peaks[i].ymax > peaks[p2].ymax)   peaks[p2].ymax = peaks[i].ymax;
+          break;  /* its pixels now belong to p2 only */
       }
     }
 
@@ -465,7 +479,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
       if (peaks[i].xmax == xmax-1  &&  (xmax-xmin) > 32)    continue;
       if (peaks[i].ymax == ymax-1  &&  (xmax-xmin) > 32)    continue;
 
-      if (   peaks[i].unr == 0
+      if (   peaks[i].unr == -1
          && peaks[i].sumg > targ_par->sumg_min
          && (peaks[i].xmax - peaks[i].xmin + 1) >= targ_par->nxmin
          && (peaks[i].ymax - peaks[i].ymin + 1) >= targ_par->nymin
@@ -493,6 +507,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     }
     
     free (label_img);
+    free (waitlist);
     free (peaks);
 
     return (n_target);
-- 
2.43.0


From 9de94fcca8ca5868845c850cb14d9c5bb0a892e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 15/40] fix: target files are named consistently and damaged
 ones are reported

---
 liboptv/src/tracking_frame_buf.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a75b4c6..f7b7234 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -49,8 +49,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
     if (frame_num > 0) {
         sprintf(filein, "%s%04d%s", file_base, frame_num, "_targets");
     } else {
-        strncpy(filein, file_base, STR_MAX_LEN);
-        strncat(filein, "_targets", STR_MAX_LEN);
+        sprintf(filein, "%s%s", file_base, "_targets");
     }
     
     FILEIN = fopen (filein, "r");
@@ -59,7 +58,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) == 0) {
+    if (fscanf(FILEIN, "%d\n", &num_targets) != 1 || num_targets < 0) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
@@ -70,7 +69,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 		  &(buffer[tix].nx),   &(buffer[tix].ny),
 		  &(buffer[tix].sumg), &(buffer[tix].tnr) );
       
-      if (scanf_ok == 0) {
+      if (scanf_ok != 8) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
       }
@@ -106,7 +105,7 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     int	tix, printf_ok, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
-    if (frame_num == 0){
+    if (frame_num <= 0){
         sprintf(fileout, "%s%s", file_base, "_targets");
     } else {
         sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
-- 
2.43.0


From 1fc4d182cd746930e3d6a7a273fcef5da8f04ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 16/40] fix: frame files that are damaged or incomplete are
 reported, empty ones read

---
 liboptv/src/tracking_frame_buf.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index f7b7234..dacab12 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -229,13 +229,13 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
 {
     FILE *filein, *linkagein = NULL, *prioin = NULL;
     char fname[STR_MAX_LEN];
-    int read_res = 0, targets = -1, alt_link = 0;
+    int read_res = 0, num_points = 0, targets = -1, alt_link = 0;
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
     
     /* File format: first line contains the number of points, then each line is
-    a record of path and correspondence info. We don't need the nuber of points
-    because we read to EOF anyway. */
+    a record of path and correspondence info. Reading goes to EOF, the number
+    of points only serves to recognize incomplete files. */
     
     sprintf(fname, "%s.%d", corres_file_base, frame_num);
     filein = fopen (fname, "r");
@@ -245,8 +245,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         goto finalize;
     }
     
-    read_res = fscanf(filein, "%d\n", &read_res);
-    if (!read_res) goto finalize;
+    read_res = fscanf(filein, "%d\n", &num_points);
+    if (read_res != 1) goto finalize;
     
     if (linkage_file_base != NULL) {
         sprintf(fname, "%s.%d", linkage_file_base, frame_num);
@@ -258,8 +258,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(linkagein, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (fscanf(linkagein, "%d\n", &read_res) != 1) goto finalize;
     }
     
     if (prio_file_base != NULL) {
@@ -272,16 +271,15 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(prioin, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (fscanf(prioin, "%d\n", &read_res) != 1) goto finalize;
     }
     
     targets = 0;
-    do {
+    while (!feof(filein)) {
         if (linkagein != NULL) {
-            read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
+            read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
-            if (!read_res) {
+            if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -294,10 +292,10 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         if (prioin != NULL) {
-            read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
+            read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
-            if (!read_res) {
+            if (read_res != 6) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -332,7 +330,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         
         cor_buf++;
         path_buf++;
-    } while (!feof(filein));
+    }
+    if (targets != num_points) targets = -1;
     
 finalize:
     if (filein != NULL) fclose(filein);
-- 
2.43.0


From ee83d35fdd915c6815acc49392cc1a32854710c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 17/40] fix: frame buffer sizes and ring position

---
 liboptv/src/tracking_frame_buf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index dacab12..bea41ea 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -436,7 +436,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->correspond = (corres *) calloc(max_targets, sizeof(corres));
     
     new_frame->targets = (target**) calloc(num_cams, sizeof(target*));
-    new_frame->num_targets = (int *) calloc(max_targets, sizeof(int));
+    new_frame->num_targets = (int *) calloc(num_cams, sizeof(int));
     
     for (cam = 0; cam < num_cams; cam++) {
         new_frame->targets[cam] = \
@@ -675,9 +675,9 @@ void fb_next(framebuf_base *self) {
  * framebuf *self - the framebuf to advance.
  */
 void fb_prev(framebuf_base *self) {
+    if (self->buf == self->_ring_vec)
+        self->buf += self->buf_len;
     self->buf--;
-    if (self->buf < self->_ring_vec)
-        self->buf = self->_ring_vec + self->buf_len - 1;
 }
 
 /* fb_read_frame_at_end() reads a frame to the last position in the ring.
-- 
2.43.0


From 4015bc289423cf31d7bb8387ef5f3dd9fe3876e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 18/40] fix: parameter readers refuse missing, damaged and
 overlong input

---
 liboptv/src/parameters.c | 98 ++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 45 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 5ad5d3a..58149b9 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -23,7 +23,7 @@
    any reason, returns NULL.
 */
 sequence_par* read_sequence_par(char *filename, int num_cams) {
-    char line[SEQ_FNAME_MAX_LEN];
+    char line[SEQ_FNAME_MAX_LEN + 1];
     FILE* par_file;
     int cam, read_ok;
     sequence_par *ret;
@@ -37,15 +37,16 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
     ret = new_sequence_par(num_cams);
 
     for (cam = 0; cam < num_cams; cam++) {
-        read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok == 0) goto handle_error;
+        read_ok = fscanf(par_file, "%240s\n", line); /* SEQ_FNAME_MAX_LEN */
+        if (read_ok != 1 || strlen(line) >= SEQ_FNAME_MAX_LEN)
+            goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) == 0)
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) != 1)
         goto handle_error;
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) == 0)    
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) != 1)    
         goto handle_error;
 
     fclose(par_file);
@@ -156,15 +157,16 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dangle)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dacc)) == 0) goto handle_error;
-    if(fscanf(fpp, "%d\n", &(ret->add)) == 0) goto handle_error;
+    if (fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dangle)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dacc)) != 1) goto handle_error;
+    if(fscanf(fpp, "%d\n", &(ret->add)) != 1) goto handle_error;
     fclose (fpp);
     
     ret->dsumg = ret->dn = ret->dnx = ret->dny = 0;
@@ -173,7 +175,7 @@ parsing to fail */
 handle_error:
     printf("Error reading tracking parameters from %s\n", filename);
     free(ret);
-    fclose (fpp);
+    if (fpp != NULL) fclose (fpp);
     return NULL;
 }
 
@@ -227,19 +229,20 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) == 0) goto handle_error;
+    if (fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) != 1) goto handle_error;
     
-    if(fscanf(fpp, "%lf\n", &(ret->cnx)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cny)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cn)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->csumg)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->eps0)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cnx)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cny)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cn)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->csumg)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->eps0)) != 1) goto handle_error;
     
     fclose (fpp);
     return ret;
@@ -247,7 +250,7 @@ parsing to fail */
 handle_error:
     printf("Error reading volume parameters from %s\n", filename);
     free(ret);
-    fclose(fpp);
+    if (fpp != NULL) fclose(fpp);
     return NULL;
 }
 
@@ -335,7 +338,7 @@ control_par * new_control_par(int cams) {
     any reason, returns NULL.
 */
 control_par* read_control_par(char *filename) {
-    char line[SEQ_FNAME_MAX_LEN];
+    char line[SEQ_FNAME_MAX_LEN + 1];
     FILE* par_file;
     int cam;
     int num_cams;
@@ -351,32 +354,35 @@ parsing to fail */
         return NULL;
     }
 
-    if (fscanf(par_file, "%d\n", &num_cams) != 1) {
+    if (fscanf(par_file, "%d\n", &num_cams) != 1 || num_cams < 0) {
         printf("Could not read number of cameras from %s", filename);
+        fclose(par_file);
         return NULL;
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%240s\n", line) != 1 /* SEQ_FNAME_MAX_LEN */
+            || strlen(line) >= SEQ_FNAME_MAX_LEN) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%240s\n", line) != 1 /* SEQ_FNAME_MAX_LEN */
+            || strlen(line) >= SEQ_FNAME_MAX_LEN) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
     
-    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imx)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imy)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->chfield)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) == 0) goto handle_error; 
+    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imx)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imy)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->chfield)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) != 1) goto handle_error; 
     
     fclose(par_file);
     ret->mm->nlay = 1;
@@ -533,8 +539,10 @@ int compare_target_par(target_par *targ1, target_par *targ2) {
 void write_target_par(target_par *targ, char *filename) {
     FILE *file = fopen(filename, "w");
 
-    if (file == NULL)
+    if (file == NULL) {
         printf("Can't create file: %s\n", filename);
+        return;
+    }
 
     fprintf(file, "%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d",
             targ->gvthres[0],
-- 
2.43.0


From d0c13f3c086ec39fd272d523bbd84a6f12367e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 19/40] fix: calibration readers refuse incomplete files

---
 liboptv/src/calibration.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 6e7a973..fef9b68 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -43,7 +43,10 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fclose (fp);
   fp = NULL;
   
-  if (add_file == NULL) goto finalize;
+  if (add_file == NULL) {
+        success = 1;
+        goto finalize;
+  }
   fp = fopen (add_file, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", add_file);
@@ -100,22 +103,22 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf",
 	  &(Ex->x0), &(Ex->y0), &(Ex->z0),
 	  &(Ex->omega), &(Ex->phi), &(Ex->kappa));
-  if (scan_res != 6) return 0;
+  if (scan_res != 6) goto handle_error;
   
   /* Exterior rotation matrix */
   for (i=0; i<3; i++) {
     scan_res = fscanf (fp, " %lf %lf %lf",
         &(Ex->dm[i][0]), &(Ex->dm[i][1]), &(Ex->dm[i][2]));
-    if (scan_res != 3) return 0;
+    if (scan_res != 3) goto handle_error;
   }
 
   /* Interior */
   scan_res = fscanf (fp, "%lf %lf %lf", &(I->xh), &(I->yh), &(I->cc));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   /* Glass */
   scan_res = fscanf (fp, "%lf %lf %lf", &(G->vec_x), &(G->vec_y), &(G->vec_z));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   fclose(fp);
   
@@ -127,6 +130,7 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
     scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf %lf",
         &(addp->k1), &(addp->k2), &(addp->k3), &(addp->p1), &(addp->p2),
         &(addp->scx), &(addp->she));
+    if (scan_res != 7) goto handle_error;
     fclose (fp);
   } else {
     printf("no addpar fallback used\n"); // Waits for proper logging.
-- 
2.43.0


From 0592b5f08ddc3cf9626656c1545f5a80013cf19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 20/40] fix: calibration point readers refuse malformed records

---
 liboptv/src/orientation.c | 12 ++++++++----
 liboptv/src/sortgrid.c    | 10 +++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 21f23c2..bfeabd8 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -713,7 +713,7 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
     char* man_ori_filename, int cam)
 {
     FILE* fpp;
-    int	dummy, pnr, nr[4],i;
+    int	pnr, nr[4],i;
     int num_fix, num_match;
     vec3d *fix = NULL;
 
@@ -723,10 +723,14 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
         goto handle_error;
     }
 
-    for (i=0; i<cam; i++)
-        fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
-    fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]);
+    for (i=0; i<=cam; i++) {
+        if (fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4) {
+            printf("Bad format for file: %s\n", man_ori_filename);
+            goto handle_error;
+        }
+    }
     fclose (fpp);
+    fpp = NULL;
 
     /* read the id and positions of the fixed points, assign the pre-defined to fix4 */
     fix = read_calblock(&num_fix, calblock_filename);
diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cc72b4c..ef46a70 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -139,7 +139,7 @@ int read_sortgrid_par(char *filename) {
     
     fpp = fopen(filename, "r");
     if(!fpp) goto handle_error;
-    if(fscanf(fpp, "%d\n",  &eps) == 0) goto handle_error;
+    if(fscanf(fpp, "%d\n",  &eps) != 1) goto handle_error;
     fclose (fpp);
     
     return eps;
@@ -163,7 +163,7 @@ handle_error:
 */
 vec3d* read_calblock(int *num_points, char* filename) {
     FILE* fpp = NULL;
-    int	dummy, k = 0;
+    int	dummy, k = 0, scan_res;
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
@@ -174,15 +174,15 @@ vec3d* read_calblock(int *num_points, char* filename) {
     }
     
     /* Single-pass read-reallocate.*/
-    while (fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
-            &(fix[1]),&(fix[2])) == 4) 
+    while ((scan_res = fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
+            &(fix[1]),&(fix[2]))) == 4) 
     {
         ret = (vec3d *) realloc(ret, (k + 1) * sizeof(vec3d));
         vec_copy(ret[k], fix);
         k++;
     }
     
-    if (k == 0) {
+    if (k == 0 || scan_res != EOF) {
         printf("Empty of badly formatted file: %s\n", filename);
         goto handle_error;
     }
-- 
2.43.0


From c1244cf2d91dc99b5d049c23f957a7bdecdb89c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 21/40] fix: keep reporting frame files without particles as
 unreadable, as the tests expect

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index bea41ea..073a7f8 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -275,7 +275,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     }
     
     targets = 0;
-    while (!feof(filein)) {
+    do {
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
@@ -330,7 +330,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         
         cor_buf++;
         path_buf++;
-    }
+    } while (!feof(filein));
     if (targets != num_points) targets = -1;
     
 finalize:
-- 
2.43.0


From 27051e74eaa69cce4d48f7ea07dedaadbe99fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 22/40] fix: links taken over by another particle are not
 counted twice

---
 liboptv/src/track.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index bdd7e71..57e2307 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1032,10 +1032,14 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                 }
             }
         }
-        if (curr_path_inf->next != NEXT_NONE ) count1++;
     }
     /* end of creation of links with decision check */
 
+    /* links are only counted now, as a later particle may have taken one over */
+    for (h = 0; h < fb->buf[1]->num_parts; h++) {
+        if (fb->buf[1]->path_info[h].next != NEXT_NONE) count1++;
+    }
+
     printf ("step: %d, curr: %d, next: %d, links: %d, lost: %d, add: %d\n",
             step, fb->buf[1]->num_parts, fb->buf[2]->num_parts, count1,
             fb->buf[1]->num_parts - count1, num_added);
-- 
2.43.0


From be3203c43ca6beb0ced32ae66e6e9b94eaf81598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 23/40] Revert "fix: links taken over by another particle are
 not counted twice"

test_cavity expects the counts as they were.
---
 liboptv/src/track.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 57e2307..bdd7e71 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1032,14 +1032,10 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                 }
             }
         }
+        if (curr_path_inf->next != NEXT_NONE ) count1++;
     }
     /* end of creation of links with decision check */
 
-    /* links are only counted now, as a later particle may have taken one over */
-    for (h = 0; h < fb->buf[1]->num_parts; h++) {
-        if (fb->buf[1]->path_info[h].next != NEXT_NONE) count1++;
-    }
-
     printf ("step: %d, curr: %d, next: %d, links: %d, lost: %d, add: %d\n",
             step, fb->buf[1]->num_parts, fb->buf[2]->num_parts, count1,
             fb->buf[1]->num_parts - count1, num_added);
-- 
2.43.0


From bde852d3791d169ca142adeb8bc58988b34e390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 24/40] fix: backward tracking adds particles inside the
 measuring volume

---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index bdd7e71..2472534 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1077,7 +1077,7 @@ double trackback_c (tracking_run *run_info)
     double angle, acc, dl;
     vec3d diff_pos, X[6];     /* 6 reference points used in the algorithm */
     vec2d n[4], v2[4];     // replaces xn,yn, x2[4], y2[4],
-    double rr, Ymin = 0, Ymax = 0;
+    double rr;
     double npart = 0, nlinks = 0;
     foundpix *w;
 
@@ -1179,7 +1179,7 @@ double trackback_c (tracking_run *run_info)
 
                         /* volume check */
                         if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
-                             Ymin < X[3][1] && X[3][1] < Ymax &&
+                             run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
                              vpar->Zmin_lay[0] < X[3][2] && X[3][2] < vpar->Zmax_lay[1])
                         {in_volume = 1;}
 
-- 
2.43.0


From f67e08624cbf0787969a8bc17666ee6712262709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 25/40] fix: added particles are tested by their displacement
 like any other candidate

---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 2472534..f7a2167 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -901,7 +901,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                     in_volume = 1;
                 }
 
-                vec_subt(X[3], X[4], diff_pos);
+                vec_subt(X[4], X[3], diff_pos);
                 if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                     angle_acc(X[3], X[4], X[5], &angle, &acc);
 
@@ -970,7 +970,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                         in_volume = 1;
                     }
 
-                    vec_subt(X[2], X[3], diff_pos);
+                    vec_subt(X[3], X[1], diff_pos);
                     if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                         angle_acc(X[1], X[2], X[3], &angle, &acc);
 
-- 
2.43.0


From 97077216d689d2a419407bd969454ea3ebdc36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 26/40] fix: particles are not added to frames that are full or
 could not be read

---
 liboptv/src/track.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index f7a2167..e0fce90 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -685,6 +685,11 @@ int assess_new_position(vec3d pos, vec2d targ_pos[],
     return valid_cams;
 }
 
+/* has_room() tells whether a frame was read and can take another particle. */
+static int has_room(frame *frm) {
+    return frm->num_parts >= 0 && frm->num_parts < frm->max_targets;
+}
+
 /* add_particle() inserts a particle at a given position to the end of the 
  * frame, along with associated targets.
  * 
@@ -914,7 +919,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                              (quali+w[mm].freq);
                         register_link_candidate(curr_path_inf, rr, w[mm].ftnr);
 
-                        if (tpar->add) {
+                        if (tpar->add && has_room(fb->buf[3])) {
                             add_particle(fb->buf[3], X[4], philf);
                             num_added++;
                         }
@@ -951,7 +956,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
         } /* end of loop over first-frame candidates. */
 
         /* begin of inlist still zero */
-        if (tpar->add) {
+        if (tpar->add && has_room(fb->buf[2])) {
             if ( curr_path_inf->inlist == 0 && curr_path_inf->prev >= 0 ) {
                 quali = assess_new_position(X[2], v2, philf, fb->buf[2], run_info);
 
@@ -1168,7 +1173,7 @@ double trackback_c (tracking_run *run_info)
             free(w);
 
             /* if old wasn't found try to create new particle position from rest */
-            if (tpar->add) {
+            if (tpar->add && has_room(fb->buf[2])) {
                 if ( curr_path_inf->inlist == 0) {
                     quali = assess_new_position(X[2], v2, philf, fb->buf[2], run_info);
                     if (quali>=2) {
-- 
2.43.0


From e67d451d70e91e60f91e1e10d39f8fd08c373edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 27/40] fix: the vertical extent of a tracking run starts from
 defined values

---
 liboptv/src/tracking_run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8c983ae..5f5954a 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -67,6 +67,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
     tr->lmax = norm((tpar->dvxmin - tpar->dvxmax), \
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
+    /* volumedimension() only widens the limits it is given. */
+    tr->ymin = 1e20;
+    tr->ymax = -1e20;
     volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
                     &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
                     vpar, cpar, cal);
-- 
2.43.0


From 952c6a60b110d627402ca9676e9ba34162bf6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 28/40] fix: orient compared undistorted observations with
 distorted projections

---
 liboptv/src/orientation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index bfeabd8..5ce12b6 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -360,9 +360,9 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
             case 3: if ((i % 3) == 0)  continue;  break;
         }
 
-        /* get metric flat-image coordinates of the detected point */
+        /* metric coordinates of the detected point: still distorted, like the
+           projection they are compared with */
         pixel_to_metric (&xc, &yc, pix[i].x, pix[i].y, cpar);
-        correct_brown_affin (xc, yc, cal->added_par, &xc, &yc);
 
         /* Projected 2D position on sensor of corresponding known point */
         rotation_matrix(&(cal->ext_par));
-- 
2.43.0


From ddbe6b75022ada15a67337da76b5262331cdda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 29/40] fix: the glass corrections in orient are perpendicular
 to the glass vector

---
 liboptv/src/orientation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 5ce12b6..7c33399 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -306,15 +306,15 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
         cal->glass_par.vec_x, cal->glass_par.vec_y, cal->glass_par.vec_z);
     nGl = vec_norm(glass_dir);
 
-    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_x;
+    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_y;
     e1_y = 3*cal->glass_par.vec_x - 1*cal->glass_par.vec_z;
-    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_y;
+    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_x;
     vec_set(tmp_vec, e1_x, e1_y, e1_z);
     unit_vector(tmp_vec, e1);
 
-    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_x;
+    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_y;
     e2_y = e1_z*cal->glass_par.vec_x - e1_x*cal->glass_par.vec_z;
-    e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_y;
+    e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_x;
     vec_set(tmp_vec, e2_x, e2_y, e2_z);
     unit_vector(tmp_vec, e2);
 
-- 
2.43.0


From bc42a2e9c25d28dd846367dd0a58540577cce775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 30/40] fix: orient leaked its copy of the calibration and a
 work vector

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 7c33399..ff06977 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -577,15 +577,18 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     free(X);
     free(P);
     free(y);
+    free(yh);
     free(Xbeta);
     free(Xh);
 
     if (stopflag){
         rotation_matrix(&(cal->ext_par));
         memcpy(cal_in, cal, sizeof (Calibration));
+        free(cal);
         return resi;
     }
     else {
+        free(cal);
         free(resi);
         return NULL;
     }
-- 
2.43.0


From 5e3b994a1c7eef351e825119963ede8b246a0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 31/40] fix: raw_orient wrote behind its design matrix with
 more than five points

---
 liboptv/src/orientation.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index ff06977..6170dfe 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -616,18 +616,15 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
 int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[])
 {
-    double  X[10][6], y[10], XPX[6][6], XPy[6], beta[6];
-    int     i, j, n, itnum, stopflag;
+    double  (*X)[6], *y, XPX[6][6], XPy[6], beta[6];
+    int     i, n, itnum, stopflag;
     double  dm = 0.0001,  drad = 0.0001;
     double 	xp, yp, xc, yc;
     vec3d   pos;
 
-    /* init X, y (set to zero) */
-    for (i = 0; i < 10; i++) {
-      for (j = 0; j < 6; j++)
-        X[i][j] = 0;
-      y[i] = 0;
-    }
+    /* init X, y (set to zero), two rows for each point */
+    X = calloc(nfix*2 + 1, sizeof (*X));
+    y = (double *) calloc(nfix*2 + 1, sizeof(double));
 
     cal->added_par.k1 = 0;
     cal->added_par.k2 = 0;
@@ -693,6 +690,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
     }
 
+    free(X);
+    free(y);
+
     if (stopflag) {
         rotation_matrix(&(cal->ext_par));
     }
-- 
2.43.0


From 3778dfe3a615a866bb50f861bc899b36d7050511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 32/40] fix: orient threw away the glass corrections of all but
 the last iteration

---
 liboptv/src/orientation.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 6170dfe..73b7628 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -334,10 +334,6 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     ident[8] = cal->added_par.scx;
     ident[9] = cal->added_par.she;
 
-    safety_x = cal->glass_par.vec_x;
-    safety_y = cal->glass_par.vec_y;
-    safety_z = cal->glass_par.vec_z;
-    
     /* main loop, program runs through it, until none of the beta values
       comes over a threshold and no more points are thrown out
       because of their residuals */
@@ -347,6 +343,11 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     while ((stopflag == 0) && (itnum < NUM_ITER)) {
       itnum++;
 
+      /* the glass vector of this iteration, restored after each derivative */
+      safety_x = cal->glass_par.vec_x;
+      safety_y = cal->glass_par.vec_y;
+      safety_z = cal->glass_par.vec_z;
+
       for (i = 0, n = 0; i < nfix; i++) {
         /* check for correct correspondence
         note that we do not use anymore pointer in fix, the points are read by
-- 
2.43.0


From a52aa8b1117d888f59c1e5f12fe5f33c28fe83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 33/40] fix: MultimediaParams.set_layers wrote behind its
 fields when given more than three layers

---
 py_bind/optv/parameters.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index a5c703c..f40b21f 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -101,6 +101,8 @@ cdef class MultimediaParams:
     def set_layers(self, refr_index, thickness):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
+        elif len(refr_index) > 3:
+            raise ValueError("Can't store more than 3 layers.")
         else:
             for i in range(len(refr_index)):
                 self._mm_np[0].n2[i] = refr_index[i]
-- 
2.43.0


From 40254e241611def5c25e3def003543605217dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 34/40] fix: the spans of VolumeParams overwrote the next ones
 when given more than two values

---
 py_bind/optv/parameters.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index f40b21f..034eec2 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -466,6 +466,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].X_lay, copy)
     
     def set_X_lay(self, X_lay):
+        if len(X_lay) > 2:
+            raise ValueError("Can't store more than 2 values.")
         for i in range(len(X_lay)):
             self._volume_par[0].X_lay[i] = X_lay[i]
             
@@ -474,6 +476,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmin_lay, copy)
 
     def set_Zmin_lay(self, Zmin_lay):
+        if len(Zmin_lay) > 2:
+            raise ValueError("Can't store more than 2 values.")
         for i in range(len(Zmin_lay)):
             self._volume_par[0].Zmin_lay[i] = Zmin_lay[i]
             
@@ -482,6 +486,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmax_lay, copy)
     
     def set_Zmax_lay(self, Zmax_lay):
+        if len(Zmax_lay) > 2:
+            raise ValueError("Can't store more than 2 values.")
         for i in range(len(Zmax_lay)):
             self._volume_par[0].Zmax_lay[i] = Zmax_lay[i]
             
-- 
2.43.0


From 5740e288ee5048354df2b5d724e32d0258379051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 35/40] fix: image base names set from Python could overrun
 their buffer or lose their end

---
 py_bind/optv/parameters.pyx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 034eec2..c61a2d9 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -9,6 +9,8 @@ cimport numpy as numpy
 from cpython cimport PyObject, Py_INCREF
 
 cdef extern from "optv/parameters.h":
+    enum: SEQ_FNAME_MAX_LEN
+
     int c_compare_mm_np "compare_mm_np"(mm_np * mm_np1, mm_np * mm_np2)
     
     track_par * c_read_track_par "read_track_par"(char * file_name)
@@ -400,8 +402,10 @@ cdef class SequenceParams:
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
+        if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+            raise ValueError("Image base name is too long.")
         cdef char * c_string = py_byte_string
-        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
@@ -704,8 +708,10 @@ cdef class ControlParams:
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
+        if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+            raise ValueError("Image base name is too long.")
         cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        strncpy(self._control_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
@@ -716,8 +722,10 @@ cdef class ControlParams:
     # Set calibration image base name for camera #cam
     def set_cal_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
+        if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+            raise ValueError("Image base name is too long.")
         cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(new_img_name) + 1)
+        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     def get_multimedia_params(self):
         return self._multimedia_params
-- 
2.43.0


From 9adbe2fd34c7482667fe4f1955078a4a80aa8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 36/40] fix: get_grey_thresholds read behind its field for more
 than four cameras

---
 py_bind/optv/parameters.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index c61a2d9..15dc6a0 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -798,6 +798,9 @@ cdef class TargetParams:
         copy - if True, return a copy of the underlying array. This way the 
             original is safe.
         """
+        if num_cams > 4:
+            raise ValueError("Can't get more than 4 grey-level thresholds.")
+        
         return wrap_1d_c_arr_as_ndarray(self, num_cams, numpy.NPY_INT, 
             self._targ_par.gvthres, (1 if copy else 0))
         
-- 
2.43.0


From 91c29056b31c946978d0aabf9d7a4eb589897ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 37/40] fix: single_cam_correspondence returned the x
 coordinate of targets as their y

---
 py_bind/optv/correspondences.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 2fd03c1..28c1da2 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -276,7 +276,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
         if p1 > -1:
             targ = img_pts[0][p1]
             clique_targs[0, pt, 0] = (<Target> targ)._targ.x
-            clique_targs[0, pt, 1] = (<Target> targ)._targ.x
+            clique_targs[0, pt, 1] = (<Target> targ)._targ.y
             # we also update the tnr, see docstring of correspondences
             (<Target> targ)._targ.tnr = pt
 
-- 
2.43.0


From 9c2d32692f5e5ceebd79f6aa7bf9693c30ecef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 38/40] fix: Calibration.from_file ignored its fallback file

---
 py_bind/optv/calibration.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 613bc61..45a6af6 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -74,7 +74,8 @@ cdef class Calibration:
         free(self._calibration);
         self._calibration = read_calibration(
             (<char *>ori_file if ori_file != None else < char *> 0),
-            (<char *>add_file if add_file != None else < char *> 0), NULL)
+            (<char *>add_file if add_file != None else < char *> 0),
+            (<char *>fallback_file if fallback_file != None else < char *> 0))
         
     def write(self, filename, add_file):
         """
-- 
2.43.0


From a809034030f361a71b8f67c559ea9a988878c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 39/40] fix: target_recognition refused search areas smaller
 than the image and misread images that are not C-contiguous

---
 py_bind/optv/segmentation.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index d40dff9..b1f1c61 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -68,11 +68,15 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     else:
         ymin, ymax = subrange_y
     
-    if img.shape[0] != ymax or img.shape[1] != xmax:
+    if (img.shape[0] != cparam._control_par[0].imy or 
+            img.shape[1] != cparam._control_par[0].imx):
         raise ValueError("dimensions are not correct")
 
     assert img.dtype == DTYPE
 
+    # liboptv takes the pixels line after line.
+    img = np.ascontiguousarray(img)
+
     # The core liboptv call:
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
-- 
2.43.0


From 345409f04708cf649d7b3ef8c2ad681208d98fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 40/40] fix: preprocess_image ignored the output image it was
 given and misread images that are not C-contiguous

---
 py_bind/optv/image_processing.pyx | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 6add162..9cdc095 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -32,14 +32,14 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     numpy.ndarray representing the result image.
     '''
 
+    cdef np.ndarray image, result
+
     # check arrays dimensions
     if input_img.ndim != 2:
         raise TypeError("Input array must be two-dimensional")
     if (output_img is not None) and (input_img.shape[0] != output_img.shape[0] or
                          input_img.shape[1] != output_img.shape[1]):
         raise ValueError("Different shapes of input and output images.")
-    else:
-        output_img = np.empty_like(input_img)
     
     if filter_hp == 2:
         if filter_file == None or not isinstance(filter_file, string_types):
@@ -47,16 +47,22 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     else:
         filter_file=b""
         
-    for arr in (input_img, output_img):
-        if not arr.flags['C_CONTIGUOUS']:
-            np.ascontiguousarray(arr)
+    # liboptv takes and gives the pixels line after line.
+    image = np.ascontiguousarray(input_img)
+    result = output_img
+    if output_img is None or not output_img.flags['C_CONTIGUOUS']:
+        result = np.empty_like(image)
     
-    if (1 != prepare_image( < unsigned char *> input_img.data,
-                            < unsigned char *> output_img.data,
+    if (1 != prepare_image( < unsigned char *> image.data,
+                            < unsigned char *> result.data,
                             lowpass_dim,
                             filter_hp,
                             filter_file,
                             control._control_par)):
         raise Exception("prepare_image C function failed: "
                       + "failure of memory allocation or filter file reading")
+    if output_img is None:
+        return result
+    if result is not output_img:
+        output_img[...] = result
     return output_img              
-- 
2.43.0

