From db7962432bd9291044249a221282757cd29122b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 01/50] fix: center the planewave set for odd grid sizes

For an odd number n of grid points the reciprocal vectors ran over
-(n-3)/2..(n+1)/2 instead of -(n-1)/2..(n-1)/2.  The asymmetric set broke
omega(k) = omega(-k) and the mirror symmetries (parity) on odd grids.
---
 src/maxwell/maxwell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 6ef8f05..fe74be5 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -421,7 +421,7 @@ void update_maxwell_data_k(maxwell_data *d, real k[3],
 			   real G1[3], real G2[3], real G3[3])
 {
      int nx = d->nx, ny = d->ny, nz = d->nz;
-     int cx = MAX2(1,d->nx/2), cy = MAX2(1,d->ny/2), cz = MAX2(1,d->nz/2);
+     int cx = (d->nx+1)/2, cy = (d->ny+1)/2, cz = (d->nz+1)/2; /* G is centered around 0 */
      k_data *kpG = d->k_plus_G;
      real *kpGn2 = d->k_plus_G_normsqr;
      int x, y, z;
-- 
2.43.0


From 3201558131e06d7d03dbec4704c2dbec9965e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 02/50] fix: scale C by beta in gemm/herk when the inner
 dimension is zero

---
 src/matrices/blasglue.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/matrices/blasglue.c b/src/matrices/blasglue.c
index 7a41e5e..286a9b1 100644
--- a/src/matrices/blasglue.c
+++ b/src/matrices/blasglue.c
@@ -197,9 +197,13 @@ void blasglue_gemm(char transa, char transb, int m, int n, int k,
 
      if (k == 0) {
 	  int i, j;
-	  for (i = 0; i < m; ++i)
-	       for (j = 0; j < n; ++j)
-		    ASSIGN_ZERO(C[i*fdC + j]);
+	  for (i = 0; i < m; ++i) {
+	       if (b != 0)
+		    blasglue_rscal(n, b, C + i*fdC, 1);
+	       else
+		    for (j = 0; j < n; ++j)
+			 ASSIGN_ZERO(C[i*fdC + j]);
+	  }
 	  return;
      }
 
@@ -221,9 +225,13 @@ void blasglue_herk(char uplo, char trans, int n, int k,
 
      if (k == 0) {
 	  int i, j;
-	  for (i = 0; i < n; ++i)
-	       for (j = 0; j < n; ++j)
-		    ASSIGN_ZERO(C[i*fdC + j]);
+	  for (i = 0; i < n; ++i) {
+	       if (b != 0)
+		    blasglue_rscal(n, b, C + i*fdC, 1);
+	       else
+		    for (j = 0; j < n; ++j)
+			 ASSIGN_ZERO(C[i*fdC + j]);
+	  }
 	  return;
      }
 
-- 
2.43.0


From 7859bb043c60c2faa9bfc3675e1b51b68a2b28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 03/50] fix: do not divide by zero or under-allocate when
 num-bands is 0

---
 mpb/mpb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 6341bd1..50455df 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -426,7 +426,8 @@ void init_params(integer p, boolean reset_fields)
      mpi_one_printf("Working in %d dimensions.\n", dimensions);
      mpi_one_printf("Grid size is %d x %d x %d.\n", nx, ny, nz);
 
-     if (eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
+     if (num_bands > 0 &&
+	 eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
 	  block_size = eigensolver_block_size;
 	  if (block_size < 0) {
 	       /* Guess a block_size near -block_size, chosen so that
@@ -437,7 +438,7 @@ void init_params(integer p, boolean reset_fields)
 	  mpi_one_printf("Solving for %d bands at a time.\n", block_size);
      }
      else
-	  block_size = num_bands;
+	  block_size = num_bands > 0 ? num_bands : 1;
 
      if (mdata) {  /* need to clean up from previous init_params call */
 	  if (nx == mdata->nx && ny == mdata->ny && nz == mdata->nz &&
-- 
2.43.0


From f21ea6403010e98d141ace9d4b11d7159a53c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 04/50] fix: do not multiply uninitialized band sets by zero
 (NaN in preconditioned Davidson)

---
 src/matrices/evectmatrix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index b743432..ad1e97a 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -92,7 +92,12 @@ void evectmatrix_aXpbY(real a, evectmatrix X, real b, evectmatrix Y)
 {
      CHECK(X.n == Y.n && X.p == Y.p, "arrays not conformant");
      
-     if (a != 1.0)
+     if (a == 0.0) {  /* X may be uninitialized: don't multiply it */
+	  int i;
+	  for (i = 0; i < X.n * X.p; ++i)
+	       ASSIGN_ZERO(X.data[i]);
+     }
+     else if (a != 1.0)
 	  blasglue_rscal(X.n * X.p, a, X.data, 1);
 
      blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
-- 
2.43.0


From 7e6b4b69cbc9d1b2be043bd6d9600e5fe28c0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 05/50] fix: randomize fields before each solve rather than
 before the band functions see them

---
 mpb/mpb.scm.in | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 9171c1c..9d3eecb 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -609,9 +609,6 @@
 ; every k point.  These are typically used to output the bands.
 
 (define (run-parity p reset-fields . band-functions)
- (if (and randomize-fields?
-          (not (member randomize-fields band-functions)))
-     (set! band-functions (cons randomize-fields band-functions)))
  (set! total-run-time (+ total-run-time
   (begin-time "total elapsed time for run: "
    (set! all-freqs '())
@@ -630,6 +627,7 @@
 	 (begin
 	   (map (lambda (k)
 		  (set! current-k k)
+		  (if randomize-fields? (randomize-fields))
 		  (begin-time "elapsed time for k point: " (solve-kpoint k))
 		  (set! all-freqs (cons freqs all-freqs))
 		  (set! band-range-data 
-- 
2.43.0


From 241838b7f3b230d00aa4215348b22e9b99b4ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 06/50] fix: normalize parities of states without definite
 mirror symmetry

---
 src/maxwell/maxwell_constraints.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/maxwell/maxwell_constraints.c b/src/maxwell/maxwell_constraints.c
index d31eb0e..c415c43 100644
--- a/src/maxwell/maxwell_constraints.c
+++ b/src/maxwell/maxwell_constraints.c
@@ -169,11 +169,15 @@ double *maxwell_zparity(evectmatrix X, maxwell_data *d)
 			  SCALAR_IM(u) * SCALAR_IM(u2) -
 			  SCALAR_RE(v) * SCALAR_RE(v2) -
 			  SCALAR_IM(v) * SCALAR_IM(v2));
-		    norm_scratch[b] += (ij == ij2 ? 1.0 : 2.0) *
+		    norm_scratch[b] += (ij == ij2 ? 0.5 : 1.0) *
                          (SCALAR_RE(u) * SCALAR_RE(u) +
                           SCALAR_IM(u) * SCALAR_IM(u) +
                           SCALAR_RE(v) * SCALAR_RE(v) +
-                          SCALAR_IM(v) * SCALAR_IM(v));
+                          SCALAR_IM(v) * SCALAR_IM(v) +
+                          SCALAR_RE(u2) * SCALAR_RE(u2) +
+                          SCALAR_IM(u2) * SCALAR_IM(u2) +
+                          SCALAR_RE(v2) * SCALAR_RE(v2) +
+                          SCALAR_IM(v2) * SCALAR_IM(v2));
 	       }
 	  }
 
@@ -289,11 +293,15 @@ double *maxwell_yparity(evectmatrix X, maxwell_data *d)
 			       SCALAR_IM(v) * SCALAR_IM(v2) -
 			       SCALAR_RE(u) * SCALAR_RE(u2) -
 			       SCALAR_IM(u) * SCALAR_IM(u2));
-			 norm_scratch[b] += (ijk == ijk2 ? 1.0 : 2.0) *
+			 norm_scratch[b] += (ijk == ijk2 ? 0.5 : 1.0) *
 			      (SCALAR_RE(v) * SCALAR_RE(v) +
 			       SCALAR_IM(v) * SCALAR_IM(v) +
 			       SCALAR_RE(u) * SCALAR_RE(u) +
-			       SCALAR_IM(u) * SCALAR_IM(u));
+			       SCALAR_IM(u) * SCALAR_IM(u) +
+			       SCALAR_RE(v2) * SCALAR_RE(v2) +
+			       SCALAR_IM(v2) * SCALAR_IM(v2) +
+			       SCALAR_RE(u2) * SCALAR_RE(u2) +
+			       SCALAR_IM(u2) * SCALAR_IM(u2));
 		    }
 	       }
 	  }
-- 
2.43.0


From 18131e9b734a921152c698862a89401de5ca931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 07/50] fix: take mesh sizes below 1 to be 1 when averaging, as
 documented

---
 src/maxwell/maxwell_eps.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell_eps.c b/src/maxwell/maxwell_eps.c
index e7ff93f..276a7be 100644
--- a/src/maxwell/maxwell_eps.c
+++ b/src/maxwell/maxwell_eps.c
@@ -536,12 +536,16 @@ short detect_interface_via_corner_check(real r[3],
    doing a real or complex and serial or parallel FFT. */
 
 void set_maxwell_dielectric(maxwell_data *md,
-			    const int mesh_size[3],
+			    const int mesh_size_[3],
 			    real R[3][3], real G[3][3],
 			    maxwell_dielectric_function epsilon,
 			    maxwell_dielectric_mean_function mepsilon,
 			    void *epsilon_data)
 {
+     /* any mesh sizes < 1 are taken to be 1 */
+     const int mesh_size[3] = { MAX2(mesh_size_[0], 1),
+				MAX2(mesh_size_[1], 1),
+				MAX2(mesh_size_[2], 1) };
      real s1, s2, s3, m1, m2, m3;  /* grid/mesh steps */
      real mesh_center[3];
      real moment_mesh[MAX_MOMENT_MESH][3];
-- 
2.43.0


From 2a9a08161f673180e4a233e660db9e7166b1195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 08/50] fix: compute the divergence of fields correctly

The imaginary part of the result was computed from the overwritten real
part, k_z from the wrong component of the transverse basis, and k+G was
indexed with the padded row length (out of bounds with inversion symmetry).
---
 mpb/fields.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index c154f11..92fcc2d 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -372,8 +372,7 @@ void compute_field_squared(void)
 void compute_field_divergence(void)
 {
      int i, j, N;
-     scalar *field = (scalar *) curfield;
-     scalar *field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+     scalar *field, *field2;
      real scale;
 
      if (!curfield || !strchr("dhbec", curfield_type)) {
@@ -381,6 +380,9 @@ void compute_field_divergence(void)
           return;
      }
 
+     field = (scalar *) curfield;
+     field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+
      /* convert back to Fourier space */
      maxwell_compute_fft(-1, mdata, field, field2, 3, 3, 1);
 
@@ -388,11 +390,11 @@ void compute_field_divergence(void)
      for (i = 0; i < mdata->other_dims; ++i)
           for (j = 0; j < mdata->last_dim; ++j) {
                int ij = i * mdata->last_dim_size + j;
-	       k_data cur_k = mdata->k_plus_G[ij];
+	       k_data cur_k = mdata->k_plus_G[i * mdata->last_dim + j];
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
-	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nz);
+	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nx);
 	       ASSIGN_SCALAR(field2[ij],
 			     SCALAR_RE(field2[3*ij+0]) * kx +
 			     SCALAR_RE(field2[3*ij+1]) * ky +
@@ -410,9 +412,8 @@ void compute_field_divergence(void)
      scale = TWOPI / H.N;
      N = mdata->fft_output_size;
      for (i = 0; i < N; ++i) {
-	  CASSIGN_SCALAR(curfield[i],
-			 -CSCALAR_IM(curfield[i]) * scale,
-			 CSCALAR_RE(curfield[i]) * scale);
+	  real re = CSCALAR_RE(curfield[i]), im = CSCALAR_IM(curfield[i]);
+	  CASSIGN_SCALAR(curfield[i], -im * scale, re * scale);
      }
 
      curfield_type = 'C'; /* complex (Bloch) scalar field */
-- 
2.43.0


From f780128e28ef5026f0f50e3ee48fe3075a60b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 09/50] fix: count mirrored grid points correctly in integrals
 with inversion symmetry

The index of the truncated dimension was read from an uninitialized variable,
and the energy in objects that are not symmetric was doubled instead of
testing the inverted point.
---
 mpb/fields.c        | 56 +++++++++++++++++++++++----------------------
 mpb/material_grid.c | 10 +++-----
 2 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 92fcc2d..17963a9 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1298,13 +1298,23 @@ void output_field_to_file(integer which_component, string filename_prefix)
 
 /**************************************************************************/
 
+static int point_in_object_list(vector3 p, geometric_object_list objects)
+{
+     int n;
+     for (n = objects.num_items - 1; n >= 0; --n)
+	  if (point_in_periodic_fixed_objectp(p, objects.items[n]))
+	       return objects.items[n].material.which_subclass
+		    != MATERIAL_TYPE_SELF; /* treat as a "nothing" object */
+     return 0;
+}
+
 /* For curfield an energy density, compute the fraction of the energy
    that resides inside the given list of geometric objects.   Later
    objects in the list have precedence, just like the ordinary
    geometry list. */
 number compute_energy_in_object_list(geometric_object_list objects)
 {
-     int i, j, k, n1, n2, n3, n_other, n_last, rank, last_dim;
+     int n1, n2, n3, n_other, n_last, rank, last_dim;
 #ifdef HAVE_MPI
      int local_n2, local_y_start, local_n3;
 #endif
@@ -1334,31 +1344,27 @@ number compute_energy_in_object_list(geometric_object_list objects)
 
      LOOP_XYZ(mdata) {
 	       vector3 p;
-	       int n;
 	       p.x = i1 * s1 - c1; p.y = i2 * s2 - c2; p.z = i3 * s3 - c3;
-	       for (n = objects.num_items - 1; n >= 0; --n)
-		    if (point_in_periodic_fixed_objectp(p, objects.items[n])) {
-			 if (objects.items[n].material.which_subclass
-			     == MATERIAL_TYPE_SELF)
-			      break; /* treat as a "nothing" object */
-			 energy_sum += energy[xyz_index];
+	       if (point_in_object_list(p, objects))
+		    energy_sum += energy[xyz_index];
 #ifndef SCALAR_COMPLEX
-			 {
-			      int last_index;
+	       {
+		    /* the energy is the same at the inverted point, but the
+		       objects need not be symmetric */
 #  ifdef HAVE_MPI
-			      if (n3 == 1)
-				   last_index = j + local_y_start;
-			      else
-				   last_index = k;
+		    int last_index = n3 == 1 ? i2 : i3;
 #  else
-			      last_index = j;
+		    int last_index = i2_;
 #  endif
-			      if (last_index != 0 && 2*last_index != last_dim)
-				   energy_sum += energy[xyz_index];
-			 }
-#endif
-			 break;
+		    if (last_index != 0 && 2*last_index != last_dim) {
+			 p.x = (i1 ? n1 - i1 : 0) * s1 - c1;
+			 p.y = (i2 ? n2 - i2 : 0) * s2 - c2;
+			 p.z = (i3 ? n3 - i3 : 0) * s3 - c3;
+			 if (point_in_object_list(p, objects))
+			      energy_sum += energy[xyz_index];
 		    }
+	       }
+#endif
 	}}}
 
      mpi_allreduce_1(&energy_sum, real, SCALAR_MPI_TYPE,
@@ -1372,7 +1378,7 @@ number compute_energy_in_object_list(geometric_object_list objects)
 /* Compute the integral of f(energy/field, epsilon, r) over the cell. */
 cnumber compute_field_integral(function f)
 {
-     int i, j, k, n1, n2, n3, n_other, n_last, rank, last_dim;
+     int n1, n2, n3, n_other, n_last, rank, last_dim;
 #ifdef HAVE_MPI
      int local_n2, local_y_start, local_n3;
 #endif
@@ -1448,14 +1454,10 @@ cnumber compute_field_integral(function f)
 
 #ifndef SCALAR_COMPLEX
 	       {
-		    int last_index;
 #  ifdef HAVE_MPI
-		    if (n3 == 1)
-			 last_index = j + local_y_start;
-		    else
-			 last_index = k;
+		    int last_index = n3 == 1 ? i2 : i3;
 #  else
-		    last_index = j;
+		    int last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 5ad25c2..0a0bab3 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -387,7 +387,7 @@ void material_grids_addgradient(double *v,
 				double scalegrad, int band,
 				const material_grid *grids, int ngrids)
 {
-     int i, j, k, n1, n2, n3, n_other, n_last, rank, last_dim;
+     int n1, n2, n3, n_other, n_last, rank, last_dim;
 #ifdef HAVE_MPI
      int local_n2, local_y_start, local_n3;
 #endif
@@ -426,14 +426,10 @@ void material_grids_addgradient(double *v,
 
 #ifndef SCALAR_COMPLEX
 	       {
-		    int last_index;
 #  ifdef HAVE_MPI
-		    if (n3 == 1)
-			 last_index = j + local_y_start;
-		    else
-			 last_index = k;
+		    int last_index = n3 == 1 ? i2 : i3;
 #  else
-		    last_index = j;
+		    int last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
-- 
2.43.0


From 3834c59e2f79bd6c144ed14b0ddac648c0485b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 10/50] fix: get-hfield returns H = B/mu, not only its
 transverse part

---
 mpb/fields.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 17963a9..81c4823 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -130,10 +130,16 @@ void get_hfield(integer which_band)
      if (mdata->mu_inv == NULL)
          maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1);
      else {
-         evectmatrix_resize(&W[0], 1, 0);
-         maxwell_compute_H_from_B(mdata, H, W[0], curfield, which_band-1,0, 1);
-         maxwell_compute_h_from_H(mdata, W[0], curfield, 0, 1);
-         evectmatrix_resize(&W[0], W[0].alloc_p, 0);
+	  /* H = B / mu at each point (not only its transverse part) */
+	  int i;
+	  maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1);
+	  for (i = 0; i < mdata->fft_output_size; ++i) {
+	       scalar_complex field[3];
+	       assign_symmatrix_vector(field, mdata->mu_inv[i], curfield+3*i);
+	       curfield[3*i] = field[0];
+	       curfield[3*i+1] = field[1];
+	       curfield[3*i+2] = field[2];
+	  }
      }
 
      /* Divide by the cell volume so that the integral of H*B
-- 
2.43.0


From 7ede3e4033e5cc59d64a73d445c38a22f3dc5cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 11/50] fix: Bloch phase of point values off the plane of a
 lower-dimensional cell

---
 mpb/fields.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 81c4823..3367d52 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -732,6 +732,16 @@ cvector3 get_bloch_field_point(vector3 p)
      return cscalar32cvector3(field);
 }
 
+/* phase of the Bloch envelope at p, where dimensions without a size
+   are measured in units of their lattice (basis) vectors */
+static double bloch_phase_phi(vector3 p)
+{
+     return TWOPI *
+	  (cur_kvector.x * (no_size_x ? p.x : p.x/geometry_lattice.size.x) +
+	   cur_kvector.y * (no_size_y ? p.y : p.y/geometry_lattice.size.y) +
+	   cur_kvector.z * (no_size_z ? p.z : p.z/geometry_lattice.size.z));
+}
+
 cvector3 get_field_point(vector3 p)
 {
      scalar_complex field[3], phase;
@@ -740,10 +750,7 @@ cvector3 get_field_point(vector3 p)
      get_bloch_field_point_(field, p);
 
      if (curfield_type != 'v') {
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase_phi(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(field[0], field[0], phase);
 	  CASSIGN_MULT(field[1], field[1], phase);
@@ -773,10 +780,7 @@ cnumber get_cscalar_point(vector3 p)
 
      if (curfield_type == 'C') {
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase_phi(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(s, s, phase);
      }
@@ -822,10 +826,7 @@ cvector3 cvector_field_get_point(SCM fo, vector3 p)
 
      if (f->type_char != 'v') { /* v fields have no kvector */
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase_phi(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(field[0], field[0], phase);
 	  CASSIGN_MULT(field[1], field[1], phase);
@@ -857,10 +858,7 @@ cnumber cscalar_field_get_point(SCM fo, vector3 p)
 
      if (f->type_char == 'C') { /* have kvector */
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase_phi(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(s, s, phase);
      }
-- 
2.43.0


From 3156d9e1594251efeb1e5864fc9fae094dc6f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 12/50] fix: Bloch phase of complex scalar fields in output
 files (stride of one component)

---
 src/matrixio/fieldio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/fieldio.c b/src/matrixio/fieldio.c
index 580ff47..c020701 100644
--- a/src/matrixio/fieldio.c
+++ b/src/matrixio/fieldio.c
@@ -85,14 +85,15 @@ void fieldio_write_complex_field(scalar_complex *field,
 		    py.im = px.re * im + px.im * re;
 		    
 		    for (k = 0; k < local_dims[2]; ++k) {
-			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)*3;
+			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)
+			      * num_components;
 			 real p_re, p_im;
 			 real re = phasez[k].re, im = phasez[k].im;
 			 
 			 p_re = py.re * re - py.im * im;
 			 p_im = py.re * im + py.im * re;
 			 
-			 for (component = 0; component < 3; ++component) {
+			 for (component = 0; component < num_components; ++component) {
 			      int ijkc = ijk + component;
 			      re = field[ijkc].re; im = field[ijkc].im;
 			      field[ijkc].re = re * p_re - im * p_im;
-- 
2.43.0


From 7636aed08bd38d6fdbde67262bde94c1bbb80dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 13/50] fix: divergence of fields at inverted points with
 inversion symmetry

---
 mpb/field-smob.c |  7 +++++--
 mpb/fields.c     | 28 ++++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 2e568f3..839a638 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -596,8 +596,11 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 					    pf[ifield]->f.rs[index]);
 				       break;
 				  case CSCALAR_FIELD_SMOB:
-				       item = cnumber2scm(cscalar2cnumber(
-					    pf[ifield]->f.cs[index]));
+				       /* minus the conjugate at the
+					  inverted point (divergence) */
+				       item = cnumber2scm(make_cnumber(
+					    -pf[ifield]->f.cs[index].re,
+					    pf[ifield]->f.cs[index].im));
 				       break;
 				  case CVECTOR_FIELD_SMOB:
 				       item = cvector32scm(
diff --git a/mpb/fields.c b/mpb/fields.c
index 3367d52..b0c3566 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -658,8 +658,23 @@ static scalar_complex interp_cval(vector3 p,
      return cval;
 }
 
+/* As interp_cval, but for the divergence of a field, i.e. the only complex
+   scalar fields that we have: in the inversion-symmetric case, it is
+   *minus* its conjugate at the inverted point. */
+static scalar_complex interp_divergence(vector3 p,
+					int nx, int ny, int nz,
+					int last_dim_size,
+					real *data, int stride)
+{
+     scalar_complex cval;
+     cval.re = interp_val(p, nx,ny,nz,last_dim_size, data, stride, 1);
+     cval.im = interp_val(p, nx,ny,nz,last_dim_size,data + 1, stride, 0);
+     return cval;
+}
+
 #define f_interp_val(p,f,data,stride,conj) interp_val(p,f->nx,f->ny,f->nz,f->last_dim_size,data,stride,conj)
 #define f_interp_cval(p,f,data,stride) interp_cval(p,f->nx,f->ny,f->nz,f->last_dim_size,data,stride)
+#define f_interp_divergence(p,f,data) interp_divergence(p,f->nx,f->ny,f->nz,f->last_dim_size,data,2)
 
 static symmetric_matrix interp_eps_inv(vector3 p)
 {
@@ -766,7 +781,7 @@ cnumber get_bloch_cscalar_point(vector3 p)
      CHECK(curfield && strchr("C", curfield_type),
 	   "cscalar must be must be loaded before get-*cscalar*-point");
 
-     return cscalar2cnumber(f_interp_cval(p, mdata, &curfield[0].re, 2));
+     return cscalar2cnumber(f_interp_divergence(p, mdata, &curfield[0].re));
 }
 
 cnumber get_cscalar_point(vector3 p)
@@ -776,7 +791,7 @@ cnumber get_cscalar_point(vector3 p)
      CHECK(curfield && strchr("C", curfield_type),
 	   "cscalar must be must be loaded before get-*cscalar*-point");
 
-     s = f_interp_cval(p, mdata, &curfield[0].re, 2);
+     s = f_interp_divergence(p, mdata, &curfield[0].re);
 
      if (curfield_type == 'C') {
 	  scalar_complex phase;
@@ -844,7 +859,7 @@ cnumber cscalar_field_get_point_bloch(SCM fo, vector3 p)
      field_smob *f = assert_field_smob(fo);
      CHECK(f->type == CSCALAR_FIELD_SMOB,
 	   "invalid argument to cscalar-field-get-point-bloch");
-     return cscalar2cnumber(f_interp_cval(p, f, &f->f.cv[0].re, 2));
+     return cscalar2cnumber(f_interp_divergence(p, f, &f->f.cs[0].re));
 }
 
 cnumber cscalar_field_get_point(SCM fo, vector3 p)
@@ -854,7 +869,7 @@ cnumber cscalar_field_get_point(SCM fo, vector3 p)
      CHECK(f->type == CSCALAR_FIELD_SMOB,
 	   "invalid argument to cscalar-field-get-point");
 
-     s = f_interp_cval(p, f, &f->f.cv[0].re, 2);
+     s = f_interp_divergence(p, f, &f->f.cs[0].re);
 
      if (f->type_char == 'C') { /* have kvector */
 	  scalar_complex phase;
@@ -1181,6 +1196,11 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  /* Here's where it gets hairy. */
 	  maxwell_cscalarfield_otherhalf(mdata, curfield,
 					output_k[0], output_k[1], output_k[2]);
+	  /* the divergence is minus its conjugate at the inverted point */
+	  for (i = 0; i < mdata->fft_output_size; ++i) {
+	       curfield[i].re = -curfield[i].re;
+	       curfield[i].im = -curfield[i].im;
+	  }
 	  start[last_dim_index] = last_dim_start;
 	  local_dims[last_dim_index] = last_dim_size;
 	  start[0] = first_dim_start;
-- 
2.43.0


From 48e90bba81bb89c685ebbed35a9d06cff363f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 14/50] fix: treat a loaded mu as a field, like epsilon, in
 field-copy and friends

---
 mpb/field-smob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 839a638..316b049 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -143,7 +143,7 @@ field_smob *update_curfield_smob(void)
 	  curfield_smob.type = CVECTOR_FIELD_SMOB;
 	  curfield_smob.f.cv = curfield;
      }
-     else if (strchr("DHBnR", curfield_type)) { /* real scalar field */
+     else if (strchr("DHBnmR", curfield_type)) { /* real scalar field */
 	  curfield_smob.type = RSCALAR_FIELD_SMOB;
 	  curfield_smob.f.rs = (real *) curfield;
      }
-- 
2.43.0


From 0b16e3c1ee47275185a2defbde51edfbc0f5ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 15/50] fix: group velocities with mu: cross u with all of
 1/mu*B, and don't overwrite the eigenvectors or the FFT scratch

---
 mpb/mpb.c                | 34 +++++++++++-------
 src/maxwell/maxwell_op.c | 74 ++++++++++++++++++++++++++++++----------
 2 files changed, 78 insertions(+), 30 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 50455df..e9ae64b 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -864,6 +864,20 @@ number_list compute_yparities(void)
 
 /**************************************************************************/
 
+/* Compute gv = diag Re <H| curl 1/eps i u x |H> for the bands of X, with
+   Xout (resized to the same number of bands) and scratch (2 * X.p) as
+   workspace.  If there is a mu, X is B: the first H is then (up to its
+   longitudinal part, which doesn't contribute) the Hermitian muinv operator
+   times X, and maxwell_ucross_op already takes care of the second. */
+static void ucross_diag(evectmatrix X, evectmatrix Xout, const real u[3],
+			real *gv, real *scratch)
+{
+     maxwell_ucross_op(X, Xout, mdata, u);
+     if (mdata->mu_inv)
+	  maxwell_muinv_operator(Xout, Xout, (void *) mdata, 0, Xout);
+     evectmatrix_XtY_diag_real(X, Xout, gv, scratch);
+}
+
 /* Compute the group velocity dw/dk in the given direction d (where
    the length of d is ignored).  d is in the reciprocal lattice basis.
    Should only be called after solve_kpoint.  Returns a list of the
@@ -907,12 +921,10 @@ number_list compute_group_velocity_component(vector3 d)
 	       evectmatrix_resize(&W[0], num_bands - ib, 0);
 	       evectmatrix_resize(&Hblock, num_bands - ib, 0);
 	  }
-          maxwell_compute_H_from_B(mdata, H, Hblock,
-                                   (scalar_complex *) mdata->fft_data,
-                                   ib, 0, Hblock.p);
-	  maxwell_ucross_op(Hblock, W[0], mdata, u);
-	  evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
-				    gv_scratch + group_v.num_items);
+	  if (Hblock.data != H.data)
+	       evectmatrix_copy_slice(Hblock, H, 0, ib, Hblock.p);
+	  ucross_diag(Hblock, W[0], u,
+		      gv_scratch, gv_scratch + group_v.num_items);
 	  {
 	       int ip;
 	       for (ip = 0; ip < Hblock.p; ++ip)
@@ -952,7 +964,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 {
      real u[3];
      int ib = b - 1;
-     real group_v, scratch;
+     real group_v = 0, scratch;
 
      curfield_reset();
 
@@ -964,6 +976,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 	  mpi_one_fprintf(stderr, "solve-kpoint must be called first!\n");
 	  return group_v;
      }
+     CHECK(b >= 1 && b <= H.p, "invalid band in compute-1-group-velocity");
 
      /* convert d to unit vector in Cartesian coords: */
      d = unit_vector3(matrix3x3_vector3_mult(Gm, d));
@@ -973,11 +986,8 @@ number compute_1_group_velocity_component(vector3 d, integer b)
      CHECK(nwork_alloc > 1, "eigensolver-nwork is too small");
      evectmatrix_resize(&W[1], 1, 0);
 
-     maxwell_compute_H_from_B(mdata, H, W[1],
-                              (scalar_complex *) mdata->fft_data,
-                              ib, 0, 1);
-     maxwell_ucross_op(W[1], W[0], mdata, u);
-     evectmatrix_XtY_diag_real(W[1], W[0], &group_v, &scratch);
+     evectmatrix_copy_slice(W[1], H, 0, ib, 1);
+     ucross_diag(W[1], W[0], u, &group_v, &scratch);
 
      /* Reset scratch matrix sizes: */
      evectmatrix_resize(&W[1], W[1].alloc_p, 0);
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index bd8bb76..138eef6 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -1281,9 +1281,28 @@ void maxwell_target_operator(evectmatrix Xin, evectmatrix Xout, void *data,
      maxwell_target_operator1(Work, Xout, data, is_current_eigenvector, Work);
 }
 
+/* replace the Cartesian vector v by scale * u x v */
+static void scale_ucross(scalar *v, const real u[3], real scale)
+{
+     real *w = (real *) v;
+     int i;
+
+     for (i = 0; i < SCALAR_NUMVALS; ++i) {
+	  real x = w[i] * scale;
+	  real y = w[i + SCALAR_NUMVALS] * scale;
+	  real z = w[i + 2 * SCALAR_NUMVALS] * scale;
+	  w[i] = u[1] * z - u[2] * y;
+	  w[i + SCALAR_NUMVALS] = u[2] * x - u[0] * z;
+	  w[i + 2 * SCALAR_NUMVALS] = u[0] * y - u[1] * x;
+     }
+}
+
 /* Compute the operation Xout = curl 1/epsilon * i u x Xin, which 
    is useful operation in computing the group velocity (derivative
-   of the maxwell operator).  u is a vector in cartesian coordinates. */
+   of the maxwell operator).  u is a vector in cartesian coordinates.
+
+   If there is a mu, then Xin is B, and u is crossed with the whole field
+   H = 1/mu * B, including its longitudinal part. */
 void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
 		       maxwell_data *d, const real u[3])
 {
@@ -1307,26 +1326,45 @@ void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
           cur_band_start += d->num_fft_bands) {
           int cur_num_bands = MIN2(d->num_fft_bands, Xin.p - cur_band_start);
 	  
-	  /* first, compute fft_data = u x Xin: */
-	  for (i = 0; i < d->other_dims; ++i)
-	       for (j = 0; j < d->last_dim; ++j) {
-		    int ij = i * d->last_dim + j;
-		    int ij2 = i * d->last_dim_size + j;
-		    k_data cur_k = d->k_plus_G[ij];
-		    
-		    for (b = 0; b < cur_num_bands; ++b)
-			 assign_ucross_t2c(&fft_data_in[3 * (ij2*cur_num_bands
-							  + b)], 
-					   u, cur_k, 
-					   &Xin.data[ij * 2 * Xin.p + 
-						    b + cur_band_start],
-					   Xin.p);
-	       }
-	  
+	  if (d->mu_inv) {
+	       /* first, compute fft_data = u x (1/mu * Xin): */
+	       maxwell_compute_h_from_H(d, Xin, cdata,
+					cur_band_start, cur_num_bands);
+	       maxwell_compute_e_from_d_(d, cdata, cur_num_bands, d->mu_inv);
+	       maxwell_compute_fft(-1, d, fft_data, fft_data_in,
+				   cur_num_bands*3, cur_num_bands*3, 1);
+	       for (i = 0; i < d->other_dims; ++i)
+		    for (j = 0; j < d->last_dim; ++j) {
+			 int ij2 = i * d->last_dim_size + j;
+
+			 for (b = 0; b < cur_num_bands; ++b)
+			      scale_ucross(&fft_data_in[3 * (ij2*cur_num_bands
+							     + b)],
+					   u, 1.0 / Xout.N);
+		    }
+	  }
+	  else {
+	       /* first, compute fft_data = u x Xin: */
+	       for (i = 0; i < d->other_dims; ++i)
+		    for (j = 0; j < d->last_dim; ++j) {
+			 int ij = i * d->last_dim + j;
+			 int ij2 = i * d->last_dim_size + j;
+			 k_data cur_k = d->k_plus_G[ij];
+
+			 for (b = 0; b < cur_num_bands; ++b)
+			      assign_ucross_t2c(&fft_data_in[3 * (ij2*cur_num_bands
+							       + b)], 
+						u, cur_k, 
+						&Xin.data[ij * 2 * Xin.p + 
+							 b + cur_band_start],
+						Xin.p);
+		    }
+	  }
+
 	  /* now, convert to position space via FFT: */
 	  maxwell_compute_fft(+1, d, fft_data_in, fft_data,
 			      cur_num_bands*3, cur_num_bands*3, 1);
-	  
+
           maxwell_compute_e_from_d(d, cdata, cur_num_bands);
           maxwell_compute_H_from_e(d, Xout, cdata,
                                    cur_band_start, cur_num_bands, scale);
-- 
2.43.0


From 6184d6706c43691fea751f953f934a5a678d73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 16/50] fix: reallocate the work matrices when a permeability
 appears or disappears between runs

---
 mpb/mpb.c | 38 ++++++++++++++++++++++++++------------
 mpb/mpb.h |  2 +-
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index e9ae64b..f42e250 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -240,7 +240,7 @@ int nwork_alloc = 0;
 
 maxwell_data *mdata = NULL;
 maxwell_target_data *mtdata = NULL;
-evectmatrix H, W[MAX_NWORK], Hblock, muinvH;
+evectmatrix H, W[MAX_NWORK + 1], Hblock, muinvH;
 
 vector3 cur_kvector;
 scalar_complex *curfield = NULL;
@@ -370,6 +370,20 @@ void set_parity(integer p)
 
 /**************************************************************************/
 
+/* deallocate the fields and work matrices allocated by init_params */
+static void destroy_fields(void)
+{
+     int i;
+
+     destroy_evectmatrix(H);
+     for (i = 0; i < nwork_alloc; ++i)
+	  destroy_evectmatrix(W[i]);
+     if (Hblock.data != H.data)
+	  destroy_evectmatrix(Hblock);
+     if (muinvH.data != H.data)
+	  destroy_evectmatrix(muinvH);
+}
+
 /* Guile-callable function: init-params, which initializes any data
    that we need for the eigenvalue calculation.  When this function
    is called, the input variables (the geometry, etcetera) have already
@@ -386,7 +400,7 @@ void init_params(integer p, boolean reset_fields)
 {
      int i, local_N, N_start, alloc_N;
      int nx, ny, nz;
-     int have_old_fields = 0;
+     int have_old_fields = 0, old_mup = 0;
      int block_size;
      int max_kpoints_print = (mpb_verbosity >= 2 ?
                               k_points.num_items :
@@ -441,19 +455,13 @@ void init_params(integer p, boolean reset_fields)
 	  block_size = num_bands > 0 ? num_bands : 1;
 
      if (mdata) {  /* need to clean up from previous init_params call */
+	  old_mup = using_mup();
 	  if (nx == mdata->nx && ny == mdata->ny && nz == mdata->nz &&
 	      block_size == Hblock.alloc_p && num_bands == H.p &&
-	      eigensolver_nwork + (mdata->mu_inv!=NULL) == nwork_alloc)
+	      eigensolver_nwork + old_mup == nwork_alloc)
 	       have_old_fields = 1; /* don't need to reallocate */
-	  else {
-	       destroy_evectmatrix(H);
-	       for (i = 0; i < nwork_alloc; ++i)
-		    destroy_evectmatrix(W[i]);
-	       if (Hblock.data != H.data)
-		    destroy_evectmatrix(Hblock);
-               if (muinvH.data != H.data)
-                   destroy_evectmatrix(muinvH);
-	  }
+	  else
+	       destroy_fields();
 	  destroy_maxwell_target_data(mtdata); mtdata = NULL;
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
@@ -481,6 +489,12 @@ void init_params(integer p, boolean reset_fields)
 
      init_epsilon();
 
+     if (have_old_fields && old_mup != using_mup()) {
+	  /* the work matrices depend upon whether there is a mu */
+	  destroy_fields();
+	  have_old_fields = 0;
+     }
+
      if (!have_old_fields) {
 	  mpi_one_printf("Allocating fields...\n");
 	  H = create_evectmatrix(nx * ny * nz, 2, num_bands,
diff --git a/mpb/mpb.h b/mpb/mpb.h
index 2e2187c..06ebcbb 100644
--- a/mpb/mpb.h
+++ b/mpb/mpb.h
@@ -53,7 +53,7 @@ extern int nwork_alloc;
 
 extern maxwell_data *mdata;
 extern maxwell_target_data *mtdata;
-extern evectmatrix H, W[MAX_NWORK], Hblock;
+extern evectmatrix H, W[MAX_NWORK + 1 /* for mu */], Hblock;
 
 extern vector3 cur_kvector;
 extern scalar_complex *curfield;
-- 
2.43.0


From 7048a3922bf10b2736a8c27a016d97572e103744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 17/50] fix: mpbi-mpi: processes without grid planes wrote
 their (absent) other half

With more processes than planes, output_field_to_file computed negative
sizes for the conjugated half of a process that has no part of the
field (aborting in malloc), and maxwell_*field_otherhalf divided by its
zero number of rows.
---
 mpb/fields.c             | 4 ++--
 src/maxwell/maxwell_op.c | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index b0c3566..292d959 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1053,7 +1053,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  first_dim_size = local_dims[0];
 	  first_dim_start = dims[0] - (start[0] + local_dims[0] - 1);
 
-	  if (start[0] == 0)
+	  if (start[0] == 0 && local_dims[0] > 0)
 	       --first_dim_size; /* DC frequency is not in other half */
 	  if (start[0] + local_dims[0] == mdata->last_dim_size / 2 &&
 	      dims[0] % 2 == 0) {
@@ -1067,7 +1067,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
      else {
 	  last_dim_index = 2;
 	  local_dims[last_dim_index] = mdata->last_dim_size / 2;
-	  if (start[0] == 0) {
+	  if (start[0] == 0 && local_dims[0] > 0) {
 	       first_dim_size = local_dims[0] - 1;
 	       first_dim_start = dims[0] - first_dim_size;
 	       write_start0_special = 1;
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index 138eef6..01e9899 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -655,6 +655,8 @@ void maxwell_vectorfield_otherhalf(maxwell_data *d, scalar_complex *field,
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* no part of the field is stored in this process */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
@@ -859,6 +861,8 @@ void maxwell_cscalarfield_otherhalf(maxwell_data *d, scalar_complex *field,
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* no part of the field is stored in this process */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
@@ -1058,6 +1062,8 @@ void maxwell_scalarfield_otherhalf(maxwell_data *d, real *field)
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* no part of the field is stored in this process */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
-- 
2.43.0


From 5864bc6cefc46cf19f5cf25cdb816cdede5d79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 18/50] fix: get-dominant-planewave in MPI read k+G of a
 process without planewaves

---
 src/maxwell/maxwell.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index fe74be5..3c1f096 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -326,15 +326,18 @@ void maxwell_dominant_planewave(maxwell_data *d, evectmatrix H, int band, double
         }
     }
 
-    k_data cur_k = d->k_plus_G[max_i];
-
-    /* set kdom to cur_k.kmag * (cross product of cur_k.m and cur_k.n) */
-    compute_cross(&kdom[0], &kdom[1], &kdom[2],
-                  cur_k.mx, cur_k.my, cur_k.mz,
-                  cur_k.nx, cur_k.ny, cur_k.nz);
-    kdom[0] *= cur_k.kmag;
-    kdom[1] *= cur_k.kmag;
-    kdom[2] *= cur_k.kmag;
+    kdom[0] = kdom[1] = kdom[2] = 0;
+    if (H.localN > 0) { /* (a process may have no planewaves in MPI) */
+        k_data cur_k = d->k_plus_G[max_i];
+
+        /* set kdom to cur_k.kmag * (cross product of cur_k.m and cur_k.n) */
+        compute_cross(&kdom[0], &kdom[1], &kdom[2],
+                      cur_k.mx, cur_k.my, cur_k.mz,
+                      cur_k.nx, cur_k.ny, cur_k.nz);
+        kdom[0] *= cur_k.kmag;
+        kdom[1] *= cur_k.kmag;
+        kdom[2] *= cur_k.kmag;
+    }
 
 #ifdef HAVE_MPI
     struct {
-- 
2.43.0


From 44c18e3ffa1fb547c316e6161234f506ede2d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 19/50] fix: fix-field-phase in MPI: global index of the point
 that decides the sign

The offset of a process's part of the field lacked the factor of three
components (and took the full z dimension for mpbi), so that indices of
different processes overlapped and the sign was not that of the last
large point of the whole field.
---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 292d959..e6ec988 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -519,7 +519,7 @@ void fix_field_phase(void)
 	  }
      }
      if (i >= 0)  /* convert index to global index in distributed array: */
-	  maxabs_index += mdata->local_y_start * mdata->nx * mdata->nz;
+	  maxabs_index += mdata->local_y_start * (N / mdata->local_ny);
      {
 	  /* compute maximum index and corresponding sign over all the
 	     processors, using the MPI_MAXLOC reduction operation: */
-- 
2.43.0


From d8c1c6db849a002c910b3756a31743cf5410c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 20/50] fix: seed the initial fields differently on each
 process

All processes of mpb-mpi normally start within the same second, so
srand(time(NULL)) gave every one the same sequence: the initial fields
repeated over the processes' shares of the planewaves, and bands of a
symmetry that such fields lack were missed for good.
---
 mpb/mpb.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index f42e250..0d9979d 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -466,8 +466,14 @@ void init_params(integer p, boolean reset_fields)
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
      }
-     else
-	  srand(time(NULL)); /* init random seed for field initialization */
+     else {
+	  /* init random seed for field initialization; it must differ
+	     between processes, or the initial fields repeat themselves
+	     (and may lack the symmetry of some of the bands): */
+	  int rank;
+	  MPI_Comm_rank(mpb_comm, &rank);
+	  srand(time(NULL) + 314159 * rank);
+     }
 
      if (deterministicp) {  /* check input variable "deterministic?" */
 	  /* seed should be the same for each run, although
-- 
2.43.0


From 965d3607ddbf0a3d8c967c0208bfcee84b6734a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 21/50] fix: mpb-data: refuse empty datasets and output sizes
 that overflow

A dataset with a zero dimension was read out of bounds by map_data, and the
product of the output dimensions (or a dimension itself, for a non-finite
option) overflowed int.
---
 utils/mpb-data.c | 60 +++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 9031de4..d5aca9b 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -20,6 +20,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <math.h>
+#include <limits.h>
 
 #include <ctlgeom.h>
 
@@ -246,6 +247,35 @@ void map_data(real *d_in_re, real *d_in_im, int n_in[3],
      }
 }
 
+/* Compute the dimensions of the output array, returning their product.
+   (Sizes that cannot be represented are refused, as is an empty input.) */
+static int get_out_dims(int out_dims[3], const int in_dims[3], int rank,
+			matrix3x3 Rout, double resolution,
+			const real multiply_size[3])
+{
+     double d[3], N = 1;
+     int i;
+
+     if (resolution > 0) {
+	  d[0] = vector3_norm(Rout.c0) * resolution + 0.5;
+	  d[1] = vector3_norm(Rout.c1) * resolution + 0.5;
+	  d[2] = vector3_norm(Rout.c2) * resolution + 0.5;
+     }
+     else {
+	  for (i = 0; i < 3; ++i)
+	       d[i] = in_dims[i] * multiply_size[i];
+     }
+     for (i = 0; i < 3; ++i) {
+	  CHECK(in_dims[i] > 0, "input dataset is empty");
+	  if (i >= rank || d[i] < 1)
+	       d[i] = 1;
+	  N *= floor(d[i]);
+	  CHECK(N <= INT_MAX, "output dataset is too large");
+	  out_dims[i] = d[i];
+     }
+     return N;
+}
+
 void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 		    const char *name_re, const char *name_im,
 		    matrix3x3 Rout, matrix3x3 coord_map,
@@ -291,19 +321,8 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 	  printf("Input data is rank %d, size %dx%dx%d.\n",
 		 rank, in_dims[0], in_dims[1], in_dims[2]);
 
-     if (resolution > 0) {
-	  out_dims[0] = vector3_norm(Rout.c0) * resolution + 0.5;
-	  out_dims[1] = vector3_norm(Rout.c1) * resolution + 0.5;
-	  out_dims[2] = vector3_norm(Rout.c2) * resolution + 0.5;
-     }
-     else {
-	  for (i = 0; i < 3; ++i)
-	       out_dims[i] = in_dims[i] * multiply_size[i];
-     }
-     for (i = rank; i < 3; ++i)
-	  out_dims[i] = 1;
-     for (N = 1, i = 0; i < 3; ++i)
-	  N *= (out_dims[i] = MAX2(out_dims[i], 1));
+     N = get_out_dims(out_dims, in_dims, rank, Rout, resolution,
+		      multiply_size);
 
      if (transpose) {
 	  out_dims2[0] = out_dims[1];
@@ -436,19 +455,8 @@ void handle_cvector_dataset(matrixio_id in_file, matrixio_id out_file,
 	       d_in[2][ri][i] = v.z;
 	  }
 
-     if (resolution > 0) {
-	  out_dims[0] = vector3_norm(Rout.c0) * resolution + 0.5;
-	  out_dims[1] = vector3_norm(Rout.c1) * resolution + 0.5;
-	  out_dims[2] = vector3_norm(Rout.c2) * resolution + 0.5;
-     }
-     else {
-	  for (i = 0; i < 3; ++i)
-	       out_dims[i] = in_dims[i] * multiply_size[i];
-     }
-     for (i = rank; i < 3; ++i)
-	  out_dims[i] = 1;
-     for (N = 1, i = 0; i < 3; ++i)
-	  N *= (out_dims[i] = MAX2(out_dims[i], 1));
+     N = get_out_dims(out_dims, in_dims, rank, Rout, resolution,
+		      multiply_size);
 
      if (transpose) {
 	  out_dims2[0] = out_dims[1];
-- 
2.43.0


From 04c45a08ec706e9803d8b95311deee55b5b5c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 22/50] fix: mpb-data: refuse a non-finite output cell

For a singular input lattice, or an -e axis parallel to the plane through the
ends of the lattice vectors, the coordinates were NaN or infinite and the
indices computed from them were outside of the input array.
---
 utils/mpb-data.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index d5aca9b..3758c7e 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -684,6 +684,12 @@ void handle_file(const char *fname, const char *out_fname,
 		 Rout.c2.x, Rout.c2.y, Rout.c2.z);
 
      coord_map = matrix3x3_mult(matrix3x3_inverse(Rin), Rout);
+     {
+	  vector3 v = vector3_plus(vector3_plus(coord_map.c0, coord_map.c1),
+				   coord_map.c2);
+	  CHECK(v.x - v.x == 0 && v.y - v.y == 0 && v.z - v.z == 0,
+		"the output cell is not finite");
+     }
 
      if (out_fname) {
 	  if (verbose)
-- 
2.43.0


From 2198b0d7b584a1561c1c7d05ad087ea578c76e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 23/50] fix: mpb-data: buffer overflow for a long dataset name

---
 utils/mpb-data.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 3758c7e..6106394 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -288,7 +288,7 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      int i, N;
      int start[3] = {0,0,0};
      matrixio_id data_id;
-     char out_name[1000];
+     char *out_name = NULL;
 
      d_in_re = matrixio_read_real_data(in_file, name_re, &rank, in_dims,
 				       0, 0, 0, NULL);
@@ -357,6 +357,8 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 	  }
      }
 
+     CHK_MALLOC(out_name, char, MAX2(strlen(name_re),
+				     name_im ? strlen(name_im) : 0) + 5);
      strcpy(out_name, name_re);
      if (out_file.id == in_file.id)
 	  strcat(out_name, "-new");
@@ -386,6 +388,7 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      free(d_in_im);
      free(d_out_re);
      free(d_out_im);
+     free(out_name);
 }
 
 void handle_cvector_dataset(matrixio_id in_file, matrixio_id out_file,
@@ -704,11 +707,14 @@ void handle_file(const char *fname, const char *out_fname,
 
      for (i = 0; i < NUM_DATANAMES; ++i) {
 	  const char *dname = datanames[i];
-	  char name_re[300], name_im[300];
+	  char *name_re, *name_im;
 
 	  if (data_name)
 	       dname = data_name;
 
+	  CHK_MALLOC(name_re, char, strlen(dname) + 3);
+	  CHK_MALLOC(name_im, char, strlen(dname) + 3);
+
 	  strcpy(name_re, dname);
 	  handle_dataset(in_file, out_file, name_re, NULL,
 			 Rout, coord_map, kvector, resolution,
@@ -720,6 +726,9 @@ void handle_file(const char *fname, const char *out_fname,
 			 Rout, coord_map, kvector, resolution,
 			 scaleby, multiply_size, pick_nearest, transpose);
 
+	  free(name_re);
+	  free(name_im);
+
 	  if (data_name)
 	       break;
      }
-- 
2.43.0


From 1c8e2b99199837b153d566f933dab4faf41e1703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 24/50] fix: mpb-data: -d also processed the vector fields of
 the file

As documented, with -d name (or file:name) only that dataset is used.
---
 utils/mpb-data.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 6106394..75d68e2 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -734,9 +734,11 @@ void handle_file(const char *fname, const char *out_fname,
      }
 
      /* handle complex vector fields x.{ri}, y.{ri}, z.{ri} */
-     handle_cvector_dataset(in_file, out_file,
-			    Rout, coord_map, cart_map, kvector, resolution,
-			    scaleby, multiply_size, pick_nearest, transpose);
+     if (!data_name)
+	  handle_cvector_dataset(in_file, out_file,
+				 Rout, coord_map, cart_map, kvector,
+				 resolution, scaleby, multiply_size,
+				 pick_nearest, transpose);
 
      free(kvector);
 
-- 
2.43.0


From cba0e4f5871f59042ce6a128356a958b3b67b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 25/50] fix: mpb-data: null dereference for a file with no
 Bloch wavevector

The rank and dims could be those of an unusual lattice-vectors attribute, or
uninitialized.
---
 utils/mpb-data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 75d68e2..c7edb72 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -591,7 +591,7 @@ void handle_file(const char *fname, const char *out_fname,
 
      kvector = matrixio_read_data_attr(in_file, "Bloch wavevector",
 				       &rank, 1, dims);
-     if (rank != 1 || dims[0] != 3) {
+     if (!kvector || rank != 1 || dims[0] != 3) {
 	  free(kvector);
 	  kvector = NULL;
      }
-- 
2.43.0


From edcff74a057a0d44ef72a0a3781f1312e61a6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 26/50] fix: mpb-data: -T exchanged the x and y components
 without -r

The files of mpb-mpi have their first two dimensions exchanged, but the
components of the vectors in them are the usual Cartesian ones, so undoing the
transposition (the documented purpose of -T) must leave those alone.  Only
with -r are the components along the axes of the output.
---
 utils/mpb-data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index c7edb72..2b5e108 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -667,7 +667,7 @@ void handle_file(const char *fname, const char *out_fname,
 	  cart_map = matrix3x3_inverse(cart_map);
      }
 
-     if (transpose) { /* swap first two rows of cart_map */
+     if (rectify && transpose) { /* swap first two rows of cart_map */
 	  vector3 v;
 	  cart_map = matrix3x3_transpose(cart_map);
 	  v = cart_map.c0;
-- 
2.43.0


From 9c2a7492bc8064997092728e6d962f2458adbfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 27/50] fix: reading the first dataset of a file that has none

H5Giterate returns zero if find_dataset found nothing, and dname was then
used and freed uninitialized.
---
 src/matrixio/matrixio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index fb3e298..2c1b5d4 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -788,7 +788,7 @@ real *matrixio_read_real_data(matrixio_id id,
 #if defined(HAVE_HDF5)
      hid_t space_id, type_id, data_id, mem_space_id;
      hsize_t *dims_copy, *maxdims;
-     char *dname;
+     char *dname = NULL;
      int i;
 
      CHECK(*rank > 0, "non-positive rank");
@@ -801,7 +801,7 @@ real *matrixio_read_real_data(matrixio_id id,
 	  strcpy(dname, name);
      }
      else {
-	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) < 0)
+	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) <= 0)
 	       return NULL;
      }
      SUPPRESS_HDF5_ERRORS(data_id = H5Dopen(id.id, dname));
-- 
2.43.0


From 63f8841e10a2f746b2251e4f8947247f0b5320da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 28/50] fix: HDF5 files could not be opened in a directory
 whose name contains .h5

The suffix was added again unless the first occurrence of .h5 in the name was
at its end.
---
 src/matrixio/matrixio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index 2c1b5d4..54b9f9b 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -320,7 +320,7 @@ static char *add_fname_suffix(const char *fname)
      strcpy(new_fname, fname);
 
      /* only add suffix if it is not already there: */
-     if (strstr(new_fname, FNAME_SUFFIX) != new_fname + oldlen - suflen)
+     if (oldlen < suflen || strcmp(new_fname + oldlen - suflen, FNAME_SUFFIX))
 	  strcat(new_fname, FNAME_SUFFIX);
 
      return new_fname;
-- 
2.43.0


From a2256cb0af3b47f3bc3e17cdd9b0e556dd9a7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 29/50] fix: out-of-bounds read for a dielectric file with an
 empty dataset

---
 mpb/epsilon_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 5774780..1c1e2f3 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -154,6 +154,8 @@ void get_epsilon_file_func(const char *fname,
 	  d->nx = rank >= 1 ? dims[0] : 1;
 	  d->ny = rank >= 2 ? dims[1] : 1;
 	  d->nz = rank >= 3 ? dims[2] : 1;
+	  CHECK(d->nx > 0 && d->ny > 0 && d->nz > 0,
+		"the dataset in the dielectric file is empty");
 
 	  mpi_one_printf("    ...read %dx%dx%d dielectric function\n",
 			 d->nx, d->ny, d->nz);
-- 
2.43.0


From cda4e63f9af69c19efc655c08a7919590cbb43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 30/50] fix: mpb-split ran, and printed, the first chunk of k
 points twice

The first chunk goes to standard output; the rest start from index 1.
---
 mpb/mpb-split-preinstall.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb-split-preinstall.in b/mpb/mpb-split-preinstall.in
index 21b9717..a39a4e7 100755
--- a/mpb/mpb-split-preinstall.in
+++ b/mpb/mpb-split-preinstall.in
@@ -15,7 +15,7 @@ trap 'echo "killing subprocesses: $subprocesses"; kill -9 $subprocesses; rm -f $
 # to be output later.
 ./mpb interactive?=false k-split-index=0 k-split-num=$* &
 subprocesses="$subprocesses $!"
-i=0
+i=1
 while test `expr $i \< $1` = 1; do
     ./mpb interactive?=false k-split-index=$i k-split-num=$* > $tmpname.$i &
     subprocesses="$subprocesses $!"
@@ -24,7 +24,7 @@ done
 
 # After all mpb processes have finished, concatenate their outputs in order.
 wait
-i=0
+i=1
 while test `expr $i \< $1` = 1; do
     cat $tmpname.$i
     rm -f $tmpname.$i
-- 
2.43.0


From 7837d89323e1dec6d988d09a09a0aaa0969121c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 31/50] fix: find-k refused korig and kdir given as a list, as
 documented

---
 mpb/mpb.scm.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 9d3eecb..3520dfe 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -849,7 +849,11 @@
 		tol kmag-guess kmag-min kmag-max . band-funcs)
   (define (ncdr n lst) (if (> n 0) (ncdr (- n 1) (cdr lst)) lst))
   (define korig (if (pair? korig-and-kdir) (car korig-and-kdir) (vector3 0)))
-  (define kdir (if (pair? korig-and-kdir) (cdr korig-and-kdir) korig-and-kdir))
+  (define kdir (if (pair? korig-and-kdir) 
+		   (if (pair? (cdr korig-and-kdir)) ; (list korig kdir)
+		       (cadr korig-and-kdir) 
+		       (cdr korig-and-kdir))
+		   korig-and-kdir))
   (let ((num-bands-save num-bands) (k-points-save k-points)
 	(nb (- band-max band-min -1)) 
 	(kdir1 (cartesian->reciprocal (unit-vector3 (reciprocal->cartesian kdir))))
-- 
2.43.0


From 2cbed242016a671724715a6dcc4952679858a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 32/50] fix: first-brillouin-zone changed k components along
 no-size (uniform) directions

---
 mpb/mpb.scm.in | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 3520dfe..5a1dbfe 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -407,6 +407,11 @@
 ; first Brillouin zone (not necessarily the irreducible Brillouin zone):
 (define (first-brillouin-zone k)
   (define (n k) (vector3-norm (reciprocal->cartesian k)))
+  ; in a no-size direction the structure is uniform, not periodic, so that
+  ; different values of that component of k are never equivalent
+  (define (periodic v)
+    (vector-map (lambda (x size) (if (= size no-size) 0 x))
+		v (object-property-value geometry-lattice 'size)))
   (define (try+ k v)
     (if (< (n (vector3+ k v)) (n k)) (try+ (vector3+ k v) v) k))
   (define (try k v) (try+ (try+ k v) (vector3- (vector3 0) v)))
@@ -418,12 +423,12 @@
     #(-1 1 1) #(1 -1 1) #(1 1 -1)
   ))
   (define (try-all k)
-    (fold-left try k trylist)
+    (fold-left try k (map periodic trylist))
   )
   (define (try-all&repeat k)
     (let ((knew (try-all k)))
       (if (< (n knew) (n k)) (try-all&repeat knew) k)))
-  (let ((k0 (vector3- k (vector-map round k))))
+  (let ((k0 (vector3- k (periodic (vector-map round k)))))
     (if (< (n k0) (n k)) (try-all&repeat k0) (try-all&repeat k))))
 
 ; ****************************************************************
-- 
2.43.0


From 7cd78f4b6e0fd32e8faa7df1dabcfd50b0db2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 33/50] fix: mpb-split broke arguments with spaces into several

---
 mpb/mpb-split-preinstall.in | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpb/mpb-split-preinstall.in b/mpb/mpb-split-preinstall.in
index a39a4e7..a198125 100755
--- a/mpb/mpb-split-preinstall.in
+++ b/mpb/mpb-split-preinstall.in
@@ -13,11 +13,13 @@ trap 'echo "killing subprocesses: $subprocesses"; kill -9 $subprocesses; rm -f $
 # Run num-split instances of mpb, each with a chunk of k-points, with
 # the first chunk going to stdout and the rest going to temporary files
 # to be output later.
-./mpb interactive?=false k-split-index=0 k-split-num=$* &
+num=$1
+shift
+./mpb interactive?=false k-split-index=0 k-split-num=$num "$@" &
 subprocesses="$subprocesses $!"
 i=1
-while test `expr $i \< $1` = 1; do
-    ./mpb interactive?=false k-split-index=$i k-split-num=$* > $tmpname.$i &
+while test `expr $i \< $num` = 1; do
+    ./mpb interactive?=false k-split-index=$i k-split-num=$num "$@" > $tmpname.$i &
     subprocesses="$subprocesses $!"
     i=`expr $i + 1`
 done
@@ -25,7 +27,7 @@ done
 # After all mpb processes have finished, concatenate their outputs in order.
 wait
 i=1
-while test `expr $i \< $1` = 1; do
+while test `expr $i \< $num` = 1; do
     cat $tmpname.$i
     rm -f $tmpname.$i
     i=`expr $i + 1`
-- 
2.43.0


From f7168f37c697033256c2d8a2022476e12a44e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 34/50] fix: first-brillouin-zone missed the shortest vector
 for skewed lattices

---
 mpb/mpb.scm.in | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 5a1dbfe..b0aaf17 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -422,8 +422,28 @@
     #(1 1 1)
     #(-1 1 1) #(1 -1 1) #(1 1 -1)
   ))
+  ; For arbitrarily skewed lattices, the faces of the Brillouin zone need not
+  ; be in trylist.  They are among the sums of two or fewer of four vectors 
+  ; a+b+c+d=0 that span the reciprocal lattice and are at mutually non-acute
+  ; angles, which we find by Selling's algorithm.
+  (define (dot k1 k2)
+    (vector3-dot (reciprocal->cartesian k1) (reciprocal->cartesian k2)))
+  (define (acute? a b)
+    (> (dot a b) (* 1e-8 (sqrt (* (dot a a) (dot b b))))))
+  (define (selling a b c d)
+    (define (flip a b c d) 
+      (selling (vector3- (vector3 0) a) b (vector3+ c a) (vector3+ d a)))
+    (cond ((acute? a b) (flip a b c d)) ((acute? a c) (flip a c b d))
+	  ((acute? a d) (flip a d b c)) ((acute? b c) (flip b c a d))
+	  ((acute? b d) (flip b d a c)) ((acute? c d) (flip c d a b))
+	  (else (list a b c d (vector3+ a b) (vector3+ a c) (vector3+ a d)))))
+  (define faces
+    (append (map periodic trylist)
+	    (apply selling
+		   (map periodic (list #(1 0 0) #(0 1 0) #(0 0 1) 
+				       #(-1 -1 -1))))))
   (define (try-all k)
-    (fold-left try k (map periodic trylist))
+    (fold-left try k faces)
   )
   (define (try-all&repeat k)
     (let ((knew (try-all k)))
-- 
2.43.0


From 1edbb3fb6dcbfb4686da3122db43277247efc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 35/50] fix: with no k points, every job of mpb-split wrote the
 same epsilon file at once

---
 mpb/mpb.scm.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index b0aaf17..1b52024 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -644,7 +644,7 @@
 	       (if (string? reset-fields) (load-eigenvectors reset-fields)))
    (let ((k-split (list-split k-points k-split-num k-split-index)))
      (set-kpoint-index (car k-split))
-     (if (zero? (car k-split))
+     (if (zero? k-split-index)
 	 (begin 
            (output-epsilon) ; output epsilon immediately for 1st k block
            (if (using-mu?) (output-mu)))) ; and mu too, if we have it
-- 
2.43.0


From 2145c3eb3284118bdcc23f13097c88166b0b0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 36/50] fix: reflect coordinates beyond the edge of a grid back
 into it

---
 mpb/epsilon_file.c  | 18 ++++++++++++------
 mpb/material_grid.c |  8 ++++----
 mpb/mpb.h           |  1 +
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 1c1e2f3..a58215b 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -45,19 +45,25 @@ typedef struct {
      real *data;
 } epsilon_file_data;
 
+/* mirror-reflect the coordinate r into [0,1] */
+real mirror_coord(real r)
+{
+     r = fmod(fabs(r), 2.0);
+     return r > 1.0 ? 2.0 - r : r;
+}
+
 /* Linearly interpolate a given point in a 3d grid of data.  The point
-   coordinates should be in the range [0,1], or at the very least [-1,2]
-   ... anything outside [0,1] is *mirror* reflected into [0,1] */
+   coordinates should be in the range [0,1] ... anything outside [0,1] is *mirror* reflected into [0,1] */
 real linear_interpolate(real rx, real ry, real rz,
 			real *data, int nx, int ny, int nz, int stride)
 {
      int x, y, z, x2, y2, z2;
      real dx, dy, dz;
 
-     /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     /* mirror boundary conditions for r beyond the boundary */
+     rx = mirror_coord(rx);
+     ry = mirror_coord(ry);
+     rz = mirror_coord(rz);
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 0a0bab3..3e2532c 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -256,10 +256,10 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
      int x, y, z, x2, y2, z2;
      real dx, dy, dz, u;
 
-     /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     /* mirror boundary conditions for r beyond the boundary */
+     rx = mirror_coord(rx);
+     ry = mirror_coord(ry);
+     rz = mirror_coord(rz);
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
diff --git a/mpb/mpb.h b/mpb/mpb.h
index 06ebcbb..2ad8978 100644
--- a/mpb/mpb.h
+++ b/mpb/mpb.h
@@ -38,6 +38,7 @@ extern void get_epsilon_file_func(const char *fname,
 				  void **func_data);
 extern void destroy_epsilon_file_func_data(void *func_data);
 
+extern real mirror_coord(real r);
 extern real linear_interpolate(real rx, real ry, real rz,
 			       real *data, int nx, int ny, int nz, int stride);
 
-- 
2.43.0


From 6324c2ae3800f8220cac1516b135fd3e9b0351d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 37/50] fix: a default-material grid spans the whole unit cell

---
 mpb/material_grid.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 3e2532c..e6505d4 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -115,9 +115,9 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
      }
      if (!tp && compatible_matgrids(mg, &default_material)) {
-	  p.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  p.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  p.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  p.x = 0.5 + (no_size_x ? 0 : p.x / geometry_lattice.size.x);
+	  p.y = 0.5 + (no_size_y ? 0 : p.y / geometry_lattice.size.y);
+	  p.z = 0.5 + (no_size_z ? 0 : p.z / geometry_lattice.size.z);
 	  u = material_grid_val(p,
 				default_material.subclass.material_grid_data);
 	  if (u < umin) umin = u;
@@ -372,9 +372,9 @@ static void material_grids_addgradient_point(double *v,
 				   * grids[i].size.z);
 	  }
 	  CHECK(i < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = 0.5 + (no_size_x ? 0 : p.x / geometry_lattice.size.x);
+	  pb.y = 0.5 + (no_size_y ? 0 : p.y / geometry_lattice.size.y);
+	  pb.z = 0.5 + (no_size_z ? 0 : p.z / geometry_lattice.size.z);
 	  ucur = material_grid_array(grids+i);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
@@ -593,9 +593,9 @@ void print_material_grids_deps_du(void)
 				   * grids[ig].size.z);
 	  }
 	  CHECK(ig < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = 0.5 + (no_size_x ? 0 : p.x / geometry_lattice.size.x);
+	  pb.y = 0.5 + (no_size_y ? 0 : p.y / geometry_lattice.size.y);
+	  pb.z = 0.5 + (no_size_z ? 0 : p.z / geometry_lattice.size.z);
 	  ucur = material_grid_array(grids+ig);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
-- 
2.43.0


From 95b5dbbcbd55581e730408199fd71bad924ee6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 38/50] fix: randomize-material-grid! reflects values above 1
 at 1

---
 mpb/material_grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index e6505d4..16c285e 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -699,7 +699,7 @@ void randomize_material_gridB(material_grid g, number noise)
 	  for (i = 0; i < n; ++i) {
 	       double u = grid[i] + noise * (-1 + rand() * 2.0/RAND_MAX);
 	       while (u < 0 || u > 1) { /* mirror boundary conditions */
-		    if (u > 1) u = 1 - u;
+		    if (u > 1) u = 2 - u;
 		    if (u < 0) u = -u;
 	       }
 	       grid[i] = u;
-- 
2.43.0


From 56ac697c9dab8111a26c78b4b76be7610d3166a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 39/50] fix: sum printed material-grid gradients over processes

---
 mpb/material_grid.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 16c285e..b8de4ce 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -461,8 +461,12 @@ void print_material_grids_gradient(integer band)
      double *grad = (double *) malloc(sizeof(double) * ntot);
      for (i = 0; i < ntot; ++i) grad[i] = 0;
      material_grids_addgradient(grad, 1.0, band, grids, ngrids);
-     for (i = 0; i < ntot; ++i)
+     for (i = 0; i < ntot; ++i) { /* sum over processes */
+	  double g = grad[i];
+	  mpi_allreduce(&g, &grad[i], 1, double, MPI_DOUBLE,
+			MPI_SUM, mpb_comm);
 	  mpi_one_printf(", %g", grad[i]);
+     }
      free(grad);
      free(grids);
 }
@@ -479,7 +483,7 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
      material_grids_addgradient(u, 1.0, band, grids, ngrids);
-     dfdu = u[iu];
+     mpi_allreduce(&u[iu], &dfdu, 1, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
      material_grids_get(u, grids, ngrids);
      u[iu] += du;
      material_grids_set(u, grids, ngrids);
-- 
2.43.0


From 75e81332b584f8e691eae893a9ed132ee2625f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 40/50] fix: print-material-grids-deps-du with mpbi and MPI
 read the wrong points

---
 mpb/material_grid.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index b8de4ce..b2b7d79 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -499,6 +499,36 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      return (f1 - f0) / du;
 }
 
+/* mean epsilon at the point (i,j,k) of the full grid, for all processes */
+static double mean_medium_at(int i, int j, int k)
+{
+     int nx = mdata->nx, ny = mdata->ny, nz = mdata->nz;
+     double val = 0, sum;
+#ifndef SCALAR_COMPLEX
+     {
+	  /* only half of the last dimension is stored */
+	  int nlast = mdata->last_dim_size / 2;
+	  if ((nz > 1 ? k : (ny > 1 ? j : i)) >= nlast) {
+	       i = i ? nx - i : i;
+	       j = j ? ny - j : j;
+	       k = k ? nz - k : k;
+	  }
+	  if (nz > 1) nz = nlast; else if (ny > 1) ny = nlast;
+     }
+#endif
+#ifdef HAVE_MPI
+     /* first two dimensions are transposed in MPI output: */
+     j -= mdata->local_y_start;
+     if (j >= 0 && j < mdata->local_ny)
+	  val = mean_medium_from_matrix(mdata->eps_inv
+					+ (j * nx + i) * nz + k);
+#else
+     val = mean_medium_from_matrix(mdata->eps_inv + (i * ny + j) * nz + k);
+#endif
+     mpi_allreduce(&val, &sum, 1, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
+     return sum;
+}
+
 void print_material_grids_deps_du(void)
 {
      int i, j, k, n1, n2, n3;
@@ -608,8 +638,10 @@ void print_material_grids_deps_du(void)
      }
 
 	  gotmyv:
-     mpi_one_printf("depsdu:, %g, %d",
-		    mean_medium_from_matrix(mdata->eps_inv + index), index);
+     {
+	  double ep = mean_medium_at(i, j, k);
+	  mpi_one_printf("depsdu:, %g, %d", ep, index);
+     }
      for (ig = 0; ig < ntot; ++ig)
 	  mpi_one_printf(", %g", v[ig]);
      mpi_one_printf("\n");
@@ -644,7 +676,7 @@ void print_material_grids_deps_du_numeric(double du)
 	       for (k = 0; k < n3; ++k)
      {
 	  int index = ((i * n2 + j) * n3 + k);
-	  ep[index] = mean_medium_from_matrix(mdata->eps_inv + index);
+	  ep[index] = mean_medium_at(i, j, k);
      }
 
      for (iu = 0; iu < ntot; ++iu) {
@@ -657,8 +689,7 @@ void print_material_grids_deps_du_numeric(double du)
 		    for (k = 0; k < n3; ++k)
 		    {
 			 int index = ((i * n2 + j) * n3 + k);
-			 double epn =
-			      mean_medium_from_matrix(mdata->eps_inv + index);
+			 double epn = mean_medium_at(i, j, k);
 			 v[index*ntot + iu] = (epn - ep[index]) / du;
 		    }
 	  u[iu] -= du;
-- 
2.43.0


From 438955cadc05d34a6ca14199b73c130686115d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 41/50] fix: material-grid functions leaked their list of grids

---
 mpb/material_grid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index b2b7d79..857e528 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -651,6 +651,7 @@ void print_material_grids_deps_du(void)
      }
 
      free(v);
+     free(grids);
 }
 
 void print_material_grids_deps_du_numeric(double du)
@@ -712,6 +713,7 @@ void print_material_grids_deps_du_numeric(double du)
      free(ep);
      free(v);
      free(u);
+     free(grids);
 }
 
 /**************************************************************************/
@@ -1070,6 +1072,7 @@ void material_grids_match_epsilon_fileB(string filename, number eps_tol)
 
      free(u);
      free(d.eps);
+     free(d.grids);
 }
 
 /**************************************************************************/
-- 
2.43.0


From 819a7c177350d7294e10eddaf87ecb5f2ed1d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 42/50] fix: mpbi match-epsilon-file gradient used the error of
 the mirror point

---
 mpb/material_grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 857e528..2f5f03e 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -990,6 +990,7 @@ static double match_eps_func(int n, const double *u, double *grad, void *data)
 						   (i3c + 0.5) / n3, eps,
 						   eps_nx, eps_ny, eps_nz, 1);
 			 val += (epsilon - eps0) * (epsilon - eps0);
+			 scalegrad = 2.0 * scaleby * (epsilon - eps0);
 
 			 if (grad) {
 			      p.x = i1c * s1 - c1;
-- 
2.43.0


From e63d225ec2f7a90c0c24d16ea7e01d7c8daa0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 43/50] fix: material-grids-min-tetm-gap left the last two
 derivatives unset

---
 mpb/material_grid_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index 1d8fcd0..0613073 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -56,7 +56,7 @@ static double mindiff_func(int n, const double *u, double *grad, void *data)
     d->iter++;
     material_grids_set(u, d->grids, d->ngrids);
     reset_epsilon();
-    if (grad) memset(work, 0, sizeof(double) * (n-2));
+    if (grad) memset(work, 0, sizeof(double) * n);
 
     set_maxwell_data_parity(mdata, EVEN_Z_PARITY);
     randomize_fields();
-- 
2.43.0


From d60688b5679987982f6d24d789b29ba9dbe379b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 44/50] fix: mpbi match-epsilon-file gradient must keep
 inversion symmetry

---
 mpb/material_grid.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 2f5f03e..803672c 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -990,9 +990,16 @@ static double match_eps_func(int n, const double *u, double *grad, void *data)
 						   (i3c + 0.5) / n3, eps,
 						   eps_nx, eps_ny, eps_nz, 1);
 			 val += (epsilon - eps0) * (epsilon - eps0);
-			 scalegrad = 2.0 * scaleby * (epsilon - eps0);
 
 			 if (grad) {
+			      /* both points share one epsilon, and
+				 hence the mean of their errors */
+			      double mean = 0.5 * scalegrad
+				   + scaleby * (epsilon - eps0);
+			      material_grids_addgradient_point(
+				   work, p, mean - scalegrad, grids, ngrids);
+			      scalegrad = mean;
+
 			      p.x = i1c * s1 - c1;
 			      p.y = i2c * s2 - c2;
 			      p.z = i3c * s3 - c3;
-- 
2.43.0


From f1b183375a3846ce4e51595af3b3db95e090309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 45/50] fix: transformed-overlap phase in directions without a
 size

---
 mpb/transform.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpb/transform.c b/mpb/transform.c
index a84f605..ab9210b 100644
--- a/mpb/transform.c
+++ b/mpb/transform.c
@@ -110,9 +110,9 @@ cnumber transformed_overlap(matrix3x3 W, vector3 w)
                         matrix3x3_inverse(geometry_lattice.basis));
 
     /* hoist rescalings outside the loop (maybe licm takes care of it, but do it anyway) */
-    kvector.x *= TWOPI/geometry_lattice.size.x;
-    kvector.y *= TWOPI/geometry_lattice.size.y;
-    kvector.z *= TWOPI/geometry_lattice.size.z;
+    kvector.x *= no_size_x ? TWOPI : TWOPI/geometry_lattice.size.x;
+    kvector.y *= no_size_y ? TWOPI : TWOPI/geometry_lattice.size.y;
+    kvector.z *= no_size_z ? TWOPI : TWOPI/geometry_lattice.size.z;
 
     /* loop over coordinates (introduces int vars `i1`, `i2`, `i3`, `xyz_index`) */
     LOOP_XYZ(mdata) { /* implies two opening braces `{{` */
-- 
2.43.0


From 2b188c7c8a771b1c772e2ef546340e16f1a72ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 46/50] fix: dot-eigenvectors with mu overwrote the loaded
 field

---
 mpb/matrix-smob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index da83721..70a43dd 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -306,6 +306,8 @@ SCM dot_eigenvectors(SCM mo, integer b_start)
          sqmatrix S1 = create_sqmatrix(m->p);
          sqmatrix S2 = create_sqmatrix(m->p);
 
+         curfield_reset(); /* we use mdata->fft_data below */
+
          for (ib = b_start-1; ib < final_band; ib += W[0].alloc_p) {
              if (ib + W[0].alloc_p > final_band) {
                  maxwell_set_num_bands(mdata, final_band - ib);
-- 
2.43.0


From ebdbecd086e067e9c93dd308d4530b03f1d16a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 47/50] fix: calls before init-params, or with invalid bands
 and indices, stop with a message

---
 mpb/field-smob.c          |  1 +
 mpb/fields.c              | 21 ++++++++++++++++++---
 mpb/material_grid.c       | 33 +++++++++++++++++++++++++--------
 mpb/material_grid_opt.c   |  5 ++++-
 mpb/matrix-smob.c         | 12 +++++++++---
 mpb/mpb.c                 |  5 ++++-
 src/maxwell/maxwell_eps.c |  2 ++
 7 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 316b049..18a6673 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -428,6 +428,7 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 	  last_dim = pf[0]->last_dim;
      }
      else {
+	  CHECK(mdata, "init-params must be called before integrate-fields");
 	  n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
 	  n_other = mdata->other_dims;
 	  n_last = mdata->last_dim_size
diff --git a/mpb/fields.c b/mpb/fields.c
index e6ec988..a9b1851 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -37,6 +37,14 @@
 
 extern void get_epsilon_tensor(int c1, int c2, int imag, int inv); /* in epsilon.c */
 
+/* frequency of the band of curfield, or 0 if curfield (e.g. from field-load)
+   does not belong to a band whose frequency is known */
+static number curfield_freq(void)
+{
+     return curfield_band >= 1 && curfield_band <= freqs.num_items
+	  ? freqs.items[curfield_band - 1] : 0;
+}
+
 /**************************************************************************/
 
 /* The following routines take the eigenvectors computed by solve-kpoint
@@ -67,6 +75,9 @@ void get_dfield(int which_band)
 	  return;
      }
 
+     CHECK(which_band <= freqs.num_items,
+	   "solve-kpoint must be called before get-dfield");
+
      curfield = (scalar_complex *) mdata->fft_data;
      curfield_band = which_band;
      curfield_type = 'd';
@@ -363,6 +374,7 @@ void compute_field_squared(void)
 
      if (!curfield || !strchr("dhbecv", curfield_type)) {
           mpi_one_fprintf(stderr, "A vector field must be loaded first.\n");
+	  return;
      }
 
      curfield_type = 'c';  /* force it to just square the field */
@@ -545,6 +557,8 @@ void fix_field_phase(void)
 	  curfield[i].re = a*SCALAR_RE(phase) - b*SCALAR_IM(phase);
 	  curfield[i].im = a*SCALAR_IM(phase) + b*SCALAR_RE(phase);
      }
+     if (curfield_band < 1 || curfield_band > H.p)
+	  return; /* a loaded field that does not belong to any band of H */
      for (i = 0; i < H.n; ++i) {
           ASSIGN_MULT(H.data[i*H.p + curfield_band - 1],
 		      H.data[i*H.p + curfield_band - 1], phase);
@@ -681,6 +695,7 @@ static symmetric_matrix interp_eps_inv(vector3 p)
      int stride = sizeof(symmetric_matrix) / sizeof(real);
      symmetric_matrix eps_inv;
 
+     CHECK(mdata, "init-params must be called before get-epsilon-point");
      eps_inv.m00 = f_interp_val(p, mdata, &mdata->eps_inv->m00, stride, 0);
      eps_inv.m11 = f_interp_val(p, mdata, &mdata->eps_inv->m11, stride, 0);
      eps_inv.m22 = f_interp_val(p, mdata, &mdata->eps_inv->m22, stride, 0);
@@ -1130,7 +1145,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  }
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting fields to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1183,7 +1198,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 		  curfield_type, kpoint_index, curfield_band);
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting complex scalar field to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1248,7 +1263,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	       sprintf(description,
 		       "%c field energy density, kpoint %d, band %d, freq=%g",
 		       curfield_type, kpoint_index, curfield_band,
-		       freqs.items[curfield_band - 1]);
+		       curfield_freq());
 	  }
 	  fname2 = fix_fname(fname, filename_prefix, mdata,
 			     /* no parity suffix for epsilon: */
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 803672c..19d7f26 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -394,11 +394,15 @@ void material_grids_addgradient(double *v,
      real s1, s2, s3, c1, c2, c3;
      real *Esqr;
 
-     CHECK(band <= num_bands, "addgradient called for uncomputed band");
+     CHECK(mdata, "init-params must be called before material-grid gradients");
+     CHECK(band >= 0 && band <= H.p && band <= freqs.num_items,
+	   "addgradient called for uncomputed band");
      if (band) {
 	  scalegrad *= -freqs.items[band - 1]/2;
 	  get_efield(band);
      }
+     CHECK(curfield && strchr("dhbecv", curfield_type),
+	   "no field for material-grid gradients");
      compute_field_squared();
      Esqr = (real *) curfield;
      scalegrad *= Vol / H.N;
@@ -479,6 +483,10 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      int i, ntot = material_grids_ntot(grids, ngrids);
      double *u = (double *) malloc(sizeof(double) * ntot);
      double f0, f1, dfdu;
+     CHECK(mdata, "init-params must be called before material-grid gradients");
+     CHECK(iu >= 0 && iu < ntot, "invalid index in material-grids-approx-gradient");
+     CHECK(band >= 1 && band <= num_bands,
+	   "invalid band number in material-grids-approx-gradient");
      solve_kpoint(kpoint);
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
@@ -538,6 +546,8 @@ void print_material_grids_deps_du(void)
      int ntot = material_grids_ntot(grids, ngrids);
      double *v = (double *) malloc(sizeof(double) * ntot);
 
+     CHECK(mdata, "init-params must be called before material-grid gradients");
+
      n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
 
      s1 = geometry_lattice.size.x / n1;
@@ -657,16 +667,21 @@ void print_material_grids_deps_du(void)
 void print_material_grids_deps_du_numeric(double du)
 {
      int i, j, k;
-     int n1 = mdata->nx, n2 = mdata->ny, n3 = mdata->nz;
+     int n1, n2, n3;
      int ngrids;
-     material_grid *grids = get_material_grids(geometry, &ngrids);
-     int ntot = material_grids_ntot(grids, ngrids);
-     double *u = (double *) malloc(sizeof(double) * ntot);
-     double *v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
-     double *ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
-     double *foo;
+     material_grid *grids;
+     int ntot;
+     double *u, *v, *ep;
      int iu;
 
+     CHECK(mdata, "init-params must be called before material-grid gradients");
+     n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
+     grids = get_material_grids(geometry, &ngrids);
+     ntot = material_grids_ntot(grids, ngrids);
+     u = (double *) malloc(sizeof(double) * ntot);
+     v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
+     ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
+
      material_grids_get(u, grids, ngrids);
      reset_epsilon();
 
@@ -1033,6 +1048,8 @@ void material_grids_match_epsilon_fileB(string filename, number eps_tol)
      int i, n, have_uprod;
      double *u, *lb, *ub, *u_tol, func_min = 0;
 
+     CHECK(mdata, "init-params must be called before match-epsilon-file");
+
      file_id = matrixio_open_serial(filename, 1);
      d.eps = matrixio_read_real_data(file_id, NULL, &rank,dims, 0,0,0,0);
      CHECK(d.eps, "couldn't find dataset in epsilon file");
diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index 0613073..9e443a5 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -95,7 +95,9 @@ number material_grids_min_tetm_gap(vector3 kpoint, integer band,
      double *u, *lb, *ub, *u_tol, func_min;
      int have_uprod;
 
-     CHECK(band <= num_bands, "invalid band number in material-grid-min-tetm-gap");
+     CHECK(mdata, "init-params must be called before material-grid-min-tetm-gap");
+     CHECK(band > 0 && band <= num_bands,
+	   "invalid band number in material-grid-min-tetm-gap");
      d.k = kpoint;
      d.b = band;
      d.grids = get_material_grids(geometry, &d.ngrids);
@@ -264,6 +266,7 @@ static number material_grids_maxmin_gap(boolean do_min,
      band_constraint_data *cdata;
      int have_uprod;
 
+     CHECK(mdata, "init-params must be called before material-grid-maxgap");
      CHECK(band1>0 && band1 <= num_bands && band2>0 && band2 <= num_bands,
 	   "invalid band numbers in material-grid-maxgap");
      d.ks = kpoints;
diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index 70a43dd..f5ab1ce 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -136,7 +136,7 @@ SCM evectmatrix_slice2scm(evectmatrix m, int p_start, int p)
 {
      SCM obj;
      evectmatrix *mp;
-     CHECK(p_start >= 0 && p_start + p <= m.p && p >= 0,
+     CHECK(p_start >= 0 && p >= 0 && p <= m.p && p_start <= m.p - p,
 	   "invalid arguments in evectmatrix_slice2scm");
      CHK_MALLOC(mp, evectmatrix, 1);
      *mp = create_evectmatrix(m.N, m.c, p, m.localN, m.Nstart, m.allocN);
@@ -269,6 +269,7 @@ cnumber_list sqmatrix_eigvals(SCM Ao)
 SCM get_eigenvectors(integer b_start, integer num_bands)
 {
      CHECK(mdata, "init-params must be called before get-eigenvectors");
+     CHECK(b_start > 0, "invalid band number in get-eigenvectors");
 
      return evectmatrix_slice2scm(H, b_start - 1, num_bands);
 }
@@ -277,6 +278,8 @@ void set_eigenvectors(SCM mo, integer b_start)
 {
      evectmatrix *m = assert_evectmatrix_smob(mo);
      CHECK(mdata, "init-params must be called before set-eigenvectors");
+     CHECK(b_start > 0 && m->p <= H.p && b_start <= H.p - m->p + 1,
+	   "invalid band number in set-eigenvectors");
 
      evectmatrix_copy_slice(H, *m, b_start - 1, 0, m->p);
      curfield_reset();
@@ -288,10 +291,13 @@ SCM dot_eigenvectors(SCM mo, integer b_start)
      evectmatrix *m = assert_evectmatrix_smob(mo);
      sqmatrix U;
      SCM obj;
-     int final_band = b_start-1 + m->p;
+     int final_band;
 
      CHECK(mdata, "init-params must be called before dot-eigenvectors");
-     CHECK(final_band <= num_bands, "not enough bands in dot-eigenvectors");
+     CHECK(b_start > 0, "invalid band number in dot-eigenvectors");
+     CHECK(m->p <= H.p && b_start <= H.p - m->p + 1,
+	   "not enough bands in dot-eigenvectors");
+     final_band = b_start-1 + m->p;
 
      U = create_sqmatrix(m->p);
      if (mdata->mu_inv == NULL) {
diff --git a/mpb/mpb.c b/mpb/mpb.c
index 0d9979d..e19dc84 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -921,6 +921,8 @@ number_list compute_group_velocity_component(vector3 d)
 	  mpi_one_fprintf(stderr, "solve-kpoint must be called first!\n");
 	  return group_v;
      }
+     CHECK(num_bands <= freqs.num_items,
+	   "solve-kpoint must be called before compute-group-velocities");
 
      /* convert d to unit vector in Cartesian coords: */
      d = unit_vector3(matrix3x3_vector3_mult(Gm, d));
@@ -996,7 +998,8 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 	  mpi_one_fprintf(stderr, "solve-kpoint must be called first!\n");
 	  return group_v;
      }
-     CHECK(b >= 1 && b <= H.p, "invalid band in compute-1-group-velocity");
+     CHECK(b >= 1 && b <= H.p && b <= freqs.num_items,
+	   "invalid band in compute-1-group-velocity");
 
      /* convert d to unit vector in Cartesian coords: */
      d = unit_vector3(matrix3x3_vector3_mult(Gm, d));
diff --git a/src/maxwell/maxwell_eps.c b/src/maxwell/maxwell_eps.c
index 276a7be..85e6642 100644
--- a/src/maxwell/maxwell_eps.c
+++ b/src/maxwell/maxwell_eps.c
@@ -18,6 +18,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <math.h>
+#include <limits.h>
 
 #include "config.h"
 #include <check.h>
@@ -317,6 +318,7 @@ static void get_mesh(const int mesh_size[3], real mesh_center[3], int *mesh_prod
      for (i = 0; i < 3; ++i) {
 	    int ms = MAX2(mesh_size[i], 1);
 	    mesh_center[i] = (ms - 1) * 0.5;
+	    CHECK(ms <= INT_MAX / *mesh_prod, "mesh size is too large");
 	    *mesh_prod *= ms;
      }
 }
-- 
2.43.0


From d9b5d36012b46ef226ba13747b61c0fbbf416e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 48/50] fix: inverse and eigenvalues of empty matrices

---
 src/matrices/sqmatrix.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/matrices/sqmatrix.c b/src/matrices/sqmatrix.c
index 49b9531..2442511 100644
--- a/src/matrices/sqmatrix.c
+++ b/src/matrices/sqmatrix.c
@@ -203,6 +203,7 @@ int sqmatrix_invert(sqmatrix U, short positive_definite,
 {
      int i, j;
 
+     if (U.p < 1) return 1; /* LAPACK rejects empty matrices */
      sqmatrix_assert_hermitian(U);
      if (positive_definite) {
 	  /* factorize U: */
@@ -226,10 +227,15 @@ int sqmatrix_invert(sqmatrix U, short positive_definite,
 
 	  /* factorize U: */
 	  if (!lapackglue_hetrf('U', U.p, U.data, U.p,
-				ipiv, Work.data, Work.p * Work.p)) return 0;
+				ipiv, Work.data, Work.p * Work.p)) {
+	       free(ipiv);
+	       return 0;
+	  }
 	  /* Compute 1/U (upper half only) */
-	  if (!lapackglue_hetri('U', U.p, U.data, U.p, ipiv, Work.data))
+	  if (!lapackglue_hetri('U', U.p, U.data, U.p, ipiv, Work.data)) {
+	       free(ipiv);
 	       return 0;
+	  }
 	  
 	  free(ipiv);
      }
@@ -258,6 +264,7 @@ void sqmatrix_gen_eigensolve(sqmatrix U, sqmatrix B, real *eigenvals, sqmatrix W
      scalar *morework;
      int nwork;
 
+     if (U.p < 1) return; /* LAPACK rejects empty matrices */
      sqmatrix_assert_hermitian(U);
      CHK_MALLOC(work, real, 3*U.p - 2);
      if (W.p * W.p >= 3 * U.p - 1) {
@@ -298,6 +305,7 @@ void sqmatrix_eigenvalues(sqmatrix A, scalar_complex *eigvals)
     scalar *work, work1;
     real *rwork;
     int lwork;
+    if (A.p < 1) return; /* LAPACK rejects empty matrices */
     B = create_sqmatrix(A.p);
     sqmatrix_copy(B, A);
     CHK_MALLOC(rwork, real, 2*A.p);
-- 
2.43.0


From 11321947b4185f54afc59ccfbed7c819ac296860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:00 +0000
Subject: [PATCH 49/50] fix: scale-eigenvector in mpbi accepted imaginary
 factors and zeroed the band

---
 mpb/matrix-smob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index f5ab1ce..49e9547 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -348,7 +348,7 @@ void scale_eigenvector(integer b, cnumber scale)
      CHECK(b > 0 && b <= H.p, "invalid band number in scale-eigenvector");
 
 #ifndef SCALAR_COMPLEX
-     CHECK(fabs(cnumber_im(scale) * cnumber_re(scale)) < 1e-14,
+     CHECK(fabs(cnumber_im(scale)) <= 1e-14 * fabs(cnumber_re(scale)),
 	   "scale-eigenvector must be called with real argument in mpbi");
 #endif
      ASSIGN_SCALAR(s, cnumber_re(scale), cnumber_im(scale));
-- 
2.43.0


From ef68f04970b75da29fd0f908ed21b27f800f30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:05 +0000
Subject: [PATCH 50/50] fix: field points with NaN coordinates and out-of-range
 field components stop with a message instead of indexing outside the arrays

---
 mpb/fields.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index a9b1851..401f86d 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -629,6 +629,9 @@ static real interp_val(vector3 p, int nx, int ny, int nz, int last_dim_size,
      ry = modf(p.y/geometry_lattice.size.y + 0.5, &ipart); if (ry < 0) ry += 1;
      rz = modf(p.z/geometry_lattice.size.z + 0.5, &ipart); if (rz < 0) rz += 1;
 
+     /* (fails for NaN coordinates, which correspond to no grid point) */
+     CHECK(rx >= 0 && ry >= 0 && rz >= 0, "invalid field point");
+
      /* get the point corresponding to r in the grid: */
      x = rx * nx;
      y = ry * ny;
@@ -1136,6 +1139,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  matrixio_id data_id[6] = {{-1,1},{-1,1},{-1,1},{-1,1},{-1,1},{-1,1}};
 	  int i;
 
+	  CHECK(which_component < 3, "invalid component in output-field-to-file");
 	  sprintf(fname, "%c.k%02d.b%02d",
 		  curfield_type, kpoint_index, curfield_band);
 	  if (which_component >= 0) {
-- 
2.43.0

