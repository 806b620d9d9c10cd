From 1cb1a117c0fb00743811dbeb5a26aeb7d4773759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 01/26] fix: use alias-nearest-zero reciprocal vectors for odd
 grid sizes

For an axis with an odd number of points n, update_maxwell_data_k used the
indices -(n+1)/2 .. (n-3)/2 instead of the symmetric set -(n-1)/2 .. (n-1)/2,
so the plane-wave basis was not closed under G -> -G.
---
 src/maxwell/maxwell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 6ef8f05..89441a6 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -421,7 +421,7 @@ void update_maxwell_data_k(maxwell_data *d, real k[3],
 			   real G1[3], real G2[3], real G3[3])
 {
      int nx = d->nx, ny = d->ny, nz = d->nz;
-     int cx = MAX2(1,d->nx/2), cy = MAX2(1,d->ny/2), cz = MAX2(1,d->nz/2);
+     int cx = (d->nx+1)/2, cy = (d->ny+1)/2, cz = (d->nz+1)/2;
      k_data *kpG = d->k_plus_G;
      real *kpGn2 = d->k_plus_G_normsqr;
      int x, y, z;
-- 
2.43.0


From 0386374310c9f8988f3694bfc466730d83447aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 02/26] fix: normalise parity expectation values by the whole
 state

maxwell_zparity/yparity summed twice the norm of one member of each mirror pair
instead of the norms of both, so the parity of a state that is not a parity
eigenstate was wrong and could lie outside [-1,1].
---
 src/maxwell/maxwell_constraints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/maxwell/maxwell_constraints.c b/src/maxwell/maxwell_constraints.c
index d31eb0e..cfe8a40 100644
--- a/src/maxwell/maxwell_constraints.c
+++ b/src/maxwell/maxwell_constraints.c
@@ -169,11 +169,9 @@ double *maxwell_zparity(evectmatrix X, maxwell_data *d)
 			  SCALAR_IM(u) * SCALAR_IM(u2) -
 			  SCALAR_RE(v) * SCALAR_RE(v2) -
 			  SCALAR_IM(v) * SCALAR_IM(v2));
-		    norm_scratch[b] += (ij == ij2 ? 1.0 : 2.0) *
-                         (SCALAR_RE(u) * SCALAR_RE(u) +
-                          SCALAR_IM(u) * SCALAR_IM(u) +
-                          SCALAR_RE(v) * SCALAR_RE(v) +
-                          SCALAR_IM(v) * SCALAR_IM(v));
+		    norm_scratch[b] += (ij == ij2 ? 0.5 : 1.0) *
+                         (SCALAR_NORMSQR(u) + SCALAR_NORMSQR(u2) +
+                          SCALAR_NORMSQR(v) + SCALAR_NORMSQR(v2));
 	       }
 	  }
 
@@ -289,11 +287,9 @@ double *maxwell_yparity(evectmatrix X, maxwell_data *d)
 			       SCALAR_IM(v) * SCALAR_IM(v2) -
 			       SCALAR_RE(u) * SCALAR_RE(u2) -
 			       SCALAR_IM(u) * SCALAR_IM(u2));
-			 norm_scratch[b] += (ijk == ijk2 ? 1.0 : 2.0) *
-			      (SCALAR_RE(v) * SCALAR_RE(v) +
-			       SCALAR_IM(v) * SCALAR_IM(v) +
-			       SCALAR_RE(u) * SCALAR_RE(u) +
-			       SCALAR_IM(u) * SCALAR_IM(u));
+			 norm_scratch[b] += (ijk == ijk2 ? 0.5 : 1.0) *
+			      (SCALAR_NORMSQR(u) + SCALAR_NORMSQR(u2) +
+			       SCALAR_NORMSQR(v) + SCALAR_NORMSQR(v2));
 		    }
 	       }
 	  }
-- 
2.43.0


From 64058202f56eca703236fecd43d7d3d4fc74fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 03/26] fix: aA+bB with A and B the same matrix no longer
 scales B before adding it

The block-vector and square-matrix updates X = aX + bY document that X and Y
may be equal, but scaled X in place before adding b*Y, giving a(1+b)X.
---
 src/matrices/evectmatrix.c | 10 +++++++---
 src/matrices/sqmatrix.c    |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index b743432..5a2c570 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -92,10 +92,14 @@ void evectmatrix_aXpbY(real a, evectmatrix X, real b, evectmatrix Y)
 {
      CHECK(X.n == Y.n && X.p == Y.p, "arrays not conformant");
      
-     if (a != 1.0)
-	  blasglue_rscal(X.n * X.p, a, X.data, 1);
+     if (X.data == Y.data) /* don't scale Y before it is added */
+	  blasglue_rscal(X.n * X.p, a + b, X.data, 1);
+     else {
+	  if (a != 1.0)
+	       blasglue_rscal(X.n * X.p, a, X.data, 1);
 
-     blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
+	  blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
+     }
      evectmatrix_flops += X.N * X.c * X.p * 3;
 }
 
diff --git a/src/matrices/sqmatrix.c b/src/matrices/sqmatrix.c
index 49b9531..7409b2b 100644
--- a/src/matrices/sqmatrix.c
+++ b/src/matrices/sqmatrix.c
@@ -189,6 +189,11 @@ void sqmatrix_aApbB(real a, sqmatrix A, real b, sqmatrix B)
 {
      CHECK(A.p == B.p, "arrays not conformant");
 
+     if (A.data == B.data) { /* do not scale B before it is added */
+	  blasglue_rscal(A.p * A.p, a + b, A.data, 1);
+	  return;
+     }
+
      if (a != 1.0)
           blasglue_rscal(A.p * A.p, a, A.data, 1);
 
-- 
2.43.0


From 24e458a41938c1a0aedd75af092bfca7892ea086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 04/26] fix: group velocity with magnetic materials (mu != 1)

compute_group_velocity_component called maxwell_compute_H_from_B with
Hblock as its output; when Hblock is H itself this replaced the
eigenvectors by 1/mu times them, and with more than maxwell_data's FFT
bands it also ran past the end of the FFT buffer.  In addition, only the
transverse projection of H = 1/mu B entered u x H, while the derivative of
the operator involves all of H.  Now the velocities with mu and epsilon
interchanged agree.
---
 mpb/mpb.c                | 27 +++++++++++++++++++--------
 src/maxwell/maxwell_op.c | 25 +++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 6341bd1..607e26f 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -906,12 +906,20 @@ number_list compute_group_velocity_component(vector3 d)
 	       evectmatrix_resize(&W[0], num_bands - ib, 0);
 	       evectmatrix_resize(&Hblock, num_bands - ib, 0);
 	  }
-          maxwell_compute_H_from_B(mdata, H, Hblock,
-                                   (scalar_complex *) mdata->fft_data,
-                                   ib, 0, Hblock.p);
+	  if (Hblock.data != H.data)
+	       evectmatrix_copy_slice(Hblock, H, 0, ib, Hblock.p);
 	  maxwell_ucross_op(Hblock, W[0], mdata, u);
-	  evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
-				    gv_scratch + group_v.num_items);
+	  if (mdata->mu_inv) { /* don't overwrite Hblock, which may be H */
+	       CHECK(nwork_alloc > 1, "eigensolver-nwork is too small");
+	       evectmatrix_resize(&W[1], Hblock.p, 0);
+	       maxwell_muinv_operator(Hblock, W[1], (void *) mdata,
+				      1, W[1]);
+	       evectmatrix_XtY_diag_real(W[1], W[0], gv_scratch,
+					 gv_scratch + group_v.num_items);
+	  }
+	  else
+	       evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
+					 gv_scratch + group_v.num_items);
 	  {
 	       int ip;
 	       for (ip = 0; ip < Hblock.p; ++ip)
@@ -924,6 +932,8 @@ number_list compute_group_velocity_component(vector3 d)
      /* Reset scratch matrix sizes: */
      evectmatrix_resize(&Hblock, Hblock.alloc_p, 0);
      evectmatrix_resize(&W[0], W[0].alloc_p, 0);
+     if (mdata->mu_inv)
+	  evectmatrix_resize(&W[1], W[1].alloc_p, 0);
      maxwell_set_num_bands(mdata, Hblock.alloc_p);
 
      /* The group velocity is given by:
@@ -972,10 +982,11 @@ number compute_1_group_velocity_component(vector3 d, integer b)
      CHECK(nwork_alloc > 1, "eigensolver-nwork is too small");
      evectmatrix_resize(&W[1], 1, 0);
 
-     maxwell_compute_H_from_B(mdata, H, W[1],
-                              (scalar_complex *) mdata->fft_data,
-                              ib, 0, 1);
+     evectmatrix_copy_slice(W[1], H, 0, ib, 1);
      maxwell_ucross_op(W[1], W[0], mdata, u);
+     maxwell_compute_H_from_B(mdata, W[1], W[1],
+                              (scalar_complex *) mdata->fft_data,
+                              0, 0, 1);
      evectmatrix_XtY_diag_real(W[1], W[0], &group_v, &scratch);
 
      /* Reset scratch matrix sizes: */
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index bd8bb76..0067e63 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -1283,7 +1283,11 @@ void maxwell_target_operator(evectmatrix Xin, evectmatrix Xout, void *data,
 
 /* Compute the operation Xout = curl 1/epsilon * i u x Xin, which 
    is useful operation in computing the group velocity (derivative
-   of the maxwell operator).  u is a vector in cartesian coordinates. */
+   of the maxwell operator).  u is a vector in cartesian coordinates.
+
+   If there is a magnetic permeability, then Xin is B, and the operation
+   is Xout = curl 1/epsilon * i u x (1/mu * Xin).  (Note that u x needs
+   all of H = 1/mu * B here, not just its transverse projection.) */
 void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
 		       maxwell_data *d, const real u[3])
 {
@@ -1307,6 +1311,22 @@ void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
           cur_band_start += d->num_fft_bands) {
           int cur_num_bands = MIN2(d->num_fft_bands, Xin.p - cur_band_start);
 	  
+	  if (d->mu_inv) { /* compute u x (1/mu * Xin) in position space */
+	       maxwell_compute_h_from_H(d, Xin, cdata,
+					cur_band_start, cur_num_bands);
+	       maxwell_compute_e_from_d_(d, cdata, cur_num_bands, d->mu_inv);
+	       for (i = 0; i < d->fft_output_size * cur_num_bands; ++i) {
+		    scalar_complex h[3];
+		    h[0] = cdata[3*i]; h[1] = cdata[3*i+1]; h[2] = cdata[3*i+2];
+		    for (j = 0; j < 3; ++j) {
+			 int j1 = (j + 1) % 3, j2 = (j + 2) % 3;
+			 CASSIGN_SCALAR(cdata[3*i+j],
+				u[j1] * CSCALAR_RE(h[j2]) - u[j2] * CSCALAR_RE(h[j1]),
+				u[j1] * CSCALAR_IM(h[j2]) - u[j2] * CSCALAR_IM(h[j1]));
+		    }
+	       }
+	  }
+	  else {
 	  /* first, compute fft_data = u x Xin: */
 	  for (i = 0; i < d->other_dims; ++i)
 	       for (j = 0; j < d->last_dim; ++j) {
@@ -1326,7 +1346,8 @@ void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
 	  /* now, convert to position space via FFT: */
 	  maxwell_compute_fft(+1, d, fft_data_in, fft_data,
 			      cur_num_bands*3, cur_num_bands*3, 1);
-	  
+	  }
+
           maxwell_compute_e_from_d(d, cdata, cur_num_bands);
           maxwell_compute_H_from_e(d, Xout, cdata,
                                    cur_band_start, cur_num_bands, scale);
-- 
2.43.0


From 068872a846670d31f6fa422f3045619744478791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 05/26] fix: get-hfield with mu returns 1/mu times B, not its
 transverse projection

D/E and B/H are related by the local material tensors, but get-hfield
projected 1/mu B onto transverse fields, losing the longitudinal part of H.
---
 mpb/fields.c          | 11 +++--------
 src/maxwell/maxwell.h |  4 ++++
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index c154f11..45def48 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -127,14 +127,9 @@ void get_hfield(integer which_band)
      curfield = (scalar_complex *) mdata->fft_data;
      curfield_band = which_band;
      curfield_type = 'h';
-     if (mdata->mu_inv == NULL)
-         maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1);
-     else {
-         evectmatrix_resize(&W[0], 1, 0);
-         maxwell_compute_H_from_B(mdata, H, W[0], curfield, which_band-1,0, 1);
-         maxwell_compute_h_from_H(mdata, W[0], curfield, 0, 1);
-         evectmatrix_resize(&W[0], W[0].alloc_p, 0);
-     }
+     maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1);
+     if (mdata->mu_inv != NULL) /* H = 1/mu * B (not only transverse) */
+         maxwell_compute_e_from_d_(mdata, curfield, 1, mdata->mu_inv);
 
      /* Divide by the cell volume so that the integral of H*B
         or of D*E is unity.  (From the eigensolver + FFT, they are
diff --git a/src/maxwell/maxwell.h b/src/maxwell/maxwell.h
index 7e42f2b..b97a891 100644
--- a/src/maxwell/maxwell.h
+++ b/src/maxwell/maxwell.h
@@ -183,6 +183,10 @@ extern void maxwell_compute_H_from_B(maxwell_data *d, evectmatrix Bin,
                                      evectmatrix Hout, scalar_complex *hfield,
                                      int Bin_band_start, int Hout_band_start,
                                      int cur_num_bands);
+extern void maxwell_compute_e_from_d_(maxwell_data *d,
+				      scalar_complex *dfield,
+				      int cur_num_bands,
+				      symmetric_matrix *eps_inv);
 extern void maxwell_compute_e_from_d(maxwell_data *d,
 				     scalar_complex *dfield,
 				     int cur_num_bands);
-- 
2.43.0


From 8c56eefc105c58dcda1c6bdee0f182fe1d33d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 06/26] fix: init-params again after switching between mu = 1
 and mu != 1 sets up the eigensolver workspace anew

---
 mpb/mpb.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 607e26f..a306774 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -370,6 +370,19 @@ void set_parity(integer p)
 
 /**************************************************************************/
 
+/* free the fields and work matrices allocated by init_params */
+static void destroy_fields(void)
+{
+     int i;
+     destroy_evectmatrix(H);
+     for (i = 0; i < nwork_alloc; ++i)
+	  destroy_evectmatrix(W[i]);
+     if (Hblock.data != H.data)
+	  destroy_evectmatrix(Hblock);
+     if (muinvH.data != H.data)
+	  destroy_evectmatrix(muinvH);
+}
+
 /* Guile-callable function: init-params, which initializes any data
    that we need for the eigenvalue calculation.  When this function
    is called, the input variables (the geometry, etcetera) have already
@@ -386,7 +399,7 @@ void init_params(integer p, boolean reset_fields)
 {
      int i, local_N, N_start, alloc_N;
      int nx, ny, nz;
-     int have_old_fields = 0;
+     int have_old_fields = 0, old_fields_mu = 0;
      int block_size;
      int max_kpoints_print = (mpb_verbosity >= 2 ?
                               k_points.num_items :
@@ -442,17 +455,12 @@ void init_params(integer p, boolean reset_fields)
      if (mdata) {  /* need to clean up from previous init_params call */
 	  if (nx == mdata->nx && ny == mdata->ny && nz == mdata->nz &&
 	      block_size == Hblock.alloc_p && num_bands == H.p &&
-	      eigensolver_nwork + (mdata->mu_inv!=NULL) == nwork_alloc)
+	      eigensolver_nwork + (mdata->mu_inv!=NULL) == nwork_alloc) {
 	       have_old_fields = 1; /* don't need to reallocate */
-	  else {
-	       destroy_evectmatrix(H);
-	       for (i = 0; i < nwork_alloc; ++i)
-		    destroy_evectmatrix(W[i]);
-	       if (Hblock.data != H.data)
-		    destroy_evectmatrix(Hblock);
-               if (muinvH.data != H.data)
-                   destroy_evectmatrix(muinvH);
+	       old_fields_mu = mdata->mu_inv != NULL;
 	  }
+	  else
+	       destroy_fields();
 	  destroy_maxwell_target_data(mtdata); mtdata = NULL;
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
@@ -480,6 +488,12 @@ void init_params(integer p, boolean reset_fields)
 
      init_epsilon();
 
+     /* the workspace also depends on whether the new structure has mu */
+     if (have_old_fields && old_fields_mu != (mdata->mu_inv != NULL)) {
+	  destroy_fields();
+	  have_old_fields = 0;
+     }
+
      if (!have_old_fields) {
 	  mpi_one_printf("Allocating fields...\n");
 	  H = create_evectmatrix(nx * ny * nz, 2, num_bands,
-- 
2.43.0


From b84981a13b1a8cf6db0bc0c2cee9e7d33391653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 07/26] fix: at k = 0 the zero-frequency constraint is applied
 before the deflation

---
 mpb/mpb.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index a306774..918bbbf 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -696,11 +696,6 @@ void solve_kpoint(vector3 kvector)
 					     maxwell_parity_constraint,
 					     (void *) mdata);
 
-	  if (mdata->zero_k)
-	       constraints = evect_add_constraint(constraints,
-						  maxwell_zero_k_constraint,
-						  (void *) mdata);
-
 	  if (Hblock.data != H.data) {  /* initialize fields of block from H */
 	       int in, ip;
 	       for (in = 0; in < Hblock.n; ++in)
@@ -720,6 +715,13 @@ void solve_kpoint(vector3 kvector)
                }
 	  }
 
+	  /* (Applied before the deflation, since the last constraint added
+	     is applied first: BY can have a constant component.) */
+	  if (mdata->zero_k)
+	       constraints = evect_add_constraint(constraints,
+						  maxwell_zero_k_constraint,
+						  (void *) mdata);
+
 	  if (mtdata) {  /* solving for bands near a target frequency */
                CHECK(mdata->mu_inv==NULL, "targeted solver doesn't handle mu");
                if (eigensolver_davidsonp)
-- 
2.43.0


From e85857603a6b63b2802f33cbef5da3ad703565bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 08/26] fix: field divergence uses all of k+G's components, the
 unpadded plane-wave index and the original real part

---
 mpb/fields.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 45def48..1bd2355 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -382,19 +382,20 @@ void compute_field_divergence(void)
      /* compute (k+G) dot field */
      for (i = 0; i < mdata->other_dims; ++i)
           for (j = 0; j < mdata->last_dim; ++j) {
-               int ij = i * mdata->last_dim_size + j;
+               int ij = i * mdata->last_dim + j;
+               int ij2 = i * mdata->last_dim_size + j;
 	       k_data cur_k = mdata->k_plus_G[ij];
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
-	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nz);
-	       ASSIGN_SCALAR(field2[ij],
-			     SCALAR_RE(field2[3*ij+0]) * kx +
-			     SCALAR_RE(field2[3*ij+1]) * ky +
-			     SCALAR_RE(field2[3*ij+2]) * kz,
-			     SCALAR_IM(field2[3*ij+0]) * kx +
-			     SCALAR_IM(field2[3*ij+1]) * ky +
-			     SCALAR_IM(field2[3*ij+2]) * kz);
+	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nx);
+	       ASSIGN_SCALAR(field2[ij2],
+			     SCALAR_RE(field2[3*ij2+0]) * kx +
+			     SCALAR_RE(field2[3*ij2+1]) * ky +
+			     SCALAR_RE(field2[3*ij2+2]) * kz,
+			     SCALAR_IM(field2[3*ij2+0]) * kx +
+			     SCALAR_IM(field2[3*ij2+1]) * ky +
+			     SCALAR_IM(field2[3*ij2+2]) * kz);
 	  }
 
      /* convert scalar field back to position space */
@@ -405,9 +406,8 @@ void compute_field_divergence(void)
      scale = TWOPI / H.N;
      N = mdata->fft_output_size;
      for (i = 0; i < N; ++i) {
-	  CASSIGN_SCALAR(curfield[i],
-			 -CSCALAR_IM(curfield[i]) * scale,
-			 CSCALAR_RE(curfield[i]) * scale);
+	  real re = CSCALAR_RE(curfield[i]), im = CSCALAR_IM(curfield[i]);
+	  CASSIGN_SCALAR(curfield[i], -im * scale, re * scale);
      }
 
      curfield_type = 'C'; /* complex (Bloch) scalar field */
-- 
2.43.0


From 169208f4e3ca77001f74c8b6dcf27a89144373d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 09/26] fix: inversion-symmetric integrals weight grid points
 by their index along the halved dimension

---
 mpb/fields.c        | 12 ++++++------
 mpb/material_grid.c |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 1bd2355..dc4a5d0 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1341,11 +1341,11 @@ number compute_energy_in_object_list(geometric_object_list objects)
 			      int last_index;
 #  ifdef HAVE_MPI
 			      if (n3 == 1)
-				   last_index = j + local_y_start;
+				   last_index = i2;
 			      else
-				   last_index = k;
+				   last_index = i3;
 #  else
-			      last_index = j;
+			      last_index = i2_;
 #  endif
 			      if (last_index != 0 && 2*last_index != last_dim)
 				   energy_sum += energy[xyz_index];
@@ -1445,11 +1445,11 @@ cnumber compute_field_integral(function f)
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 5ad25c2..c0e2de4 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -429,11 +429,11 @@ void material_grids_addgradient(double *v,
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
-- 
2.43.0


From 45eb85588d626d9f514da7c041be5262515dfc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 10/26] fix: compute-field-squared without a vector field stops
 after reporting the error

---
 mpb/fields.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index dc4a5d0..27b7ced 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -352,6 +352,7 @@ void compute_field_squared(void)
 
      if (!curfield || !strchr("dhbecv", curfield_type)) {
           mpi_one_fprintf(stderr, "A vector field must be loaded first.\n");
+          return;
      }
 
      curfield_type = 'c';  /* force it to just square the field */
-- 
2.43.0


From cdfcf73f8977d18078618ba1900431060132e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 11/26] fix: energy in objects counts inversion partners by
 their own position

---
 mpb/fields.c | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 27b7ced..9707f13 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1293,6 +1293,17 @@ void output_field_to_file(integer which_component, string filename_prefix)
 
 /**************************************************************************/
 
+/* whether the topmost of the objects containing p, if any, is not "nothing" */
+static int point_in_object_list(vector3 p, geometric_object_list objects)
+{
+     int n;
+     for (n = objects.num_items - 1; n >= 0; --n)
+	  if (point_in_periodic_fixed_objectp(p, objects.items[n]))
+	       return objects.items[n].material.which_subclass
+		    != MATERIAL_TYPE_SELF;
+     return 0;
+}
+
 /* For curfield an energy density, compute the fraction of the energy
    that resides inside the given list of geometric objects.   Later
    objects in the list have precedence, just like the ordinary
@@ -1329,31 +1340,30 @@ number compute_energy_in_object_list(geometric_object_list objects)
 
      LOOP_XYZ(mdata) {
 	       vector3 p;
-	       int n;
 	       p.x = i1 * s1 - c1; p.y = i2 * s2 - c2; p.z = i3 * s3 - c3;
-	       for (n = objects.num_items - 1; n >= 0; --n)
-		    if (point_in_periodic_fixed_objectp(p, objects.items[n])) {
-			 if (objects.items[n].material.which_subclass
-			     == MATERIAL_TYPE_SELF)
-			      break; /* treat as a "nothing" object */
-			 energy_sum += energy[xyz_index];
+	       if (point_in_object_list(p, objects))
+		    energy_sum += energy[xyz_index];
 #ifndef SCALAR_COMPLEX
-			 {
-			      int last_index;
+	       {
+		    int last_index;
 #  ifdef HAVE_MPI
-			      if (n3 == 1)
-				   last_index = i2;
-			      else
-				   last_index = i3;
+		    if (n3 == 1)
+			 last_index = i2;
+		    else
+			 last_index = i3;
 #  else
-			      last_index = i2_;
+		    last_index = i2_;
 #  endif
-			      if (last_index != 0 && 2*last_index != last_dim)
-				   energy_sum += energy[xyz_index];
-			 }
-#endif
-			 break;
+		    if (last_index != 0 && 2*last_index != last_dim) {
+			 /* the objects need not be inversion-symmetric */
+			 p.x = (i1 ? n1 - i1 : 0) * s1 - c1;
+			 p.y = (i2 ? n2 - i2 : 0) * s2 - c2;
+			 p.z = (i3 ? n3 - i3 : 0) * s3 - c3;
+			 if (point_in_object_list(p, objects))
+			      energy_sum += energy[xyz_index];
 		    }
+	       }
+#endif
 	}}}
 
      mpi_allreduce_1(&energy_sum, real, SCALAR_MPI_TYPE,
-- 
2.43.0


From 05c666ba58363c771b3906a60a4c2d99168b7b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:59 +0000
Subject: [PATCH 12/26] fix: integrate-fields conjugates complex scalar fields
 at inversion partners

---
 mpb/field-smob.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 2e568f3..b89fd20 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -596,8 +596,9 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 					    pf[ifield]->f.rs[index]);
 				       break;
 				  case CSCALAR_FIELD_SMOB:
-				       item = cnumber2scm(cscalar2cnumber(
-					    pf[ifield]->f.cs[index]));
+				       item = cnumber2scm(
+					    cnumber_conj(cscalar2cnumber(
+						 pf[ifield]->f.cs[index])));
 				       break;
 				  case CVECTOR_FIELD_SMOB:
 				       item = cvector32scm(
-- 
2.43.0


From 1d6ddd9299379d1c761cd2fcbd16971d9d6ab790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:59 +0000
Subject: [PATCH 13/26] fix: the field loaded by get-mu can be used as
 cur-field

---
 mpb/field-smob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index b89fd20..dfd365c 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -143,7 +143,7 @@ field_smob *update_curfield_smob(void)
 	  curfield_smob.type = CVECTOR_FIELD_SMOB;
 	  curfield_smob.f.cv = curfield;
      }
-     else if (strchr("DHBnR", curfield_type)) { /* real scalar field */
+     else if (strchr("DHBnmR", curfield_type)) { /* real scalar field */
 	  curfield_smob.type = RSCALAR_FIELD_SMOB;
 	  curfield_smob.f.rs = (real *) curfield;
      }
-- 
2.43.0


From c65b288ada85b088ab1a09c6b9e0d9897cd297e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 14/26] fix: fix-field-phase orders field components, not grid
 points, across processes

---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 9707f13..46be2c6 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -508,7 +508,7 @@ void fix_field_phase(void)
 	  }
      }
      if (i >= 0)  /* convert index to global index in distributed array: */
-	  maxabs_index += mdata->local_y_start * mdata->nx * mdata->nz;
+	  maxabs_index += 3 * mdata->local_y_start * mdata->nx * mdata->nz;
      {
 	  /* compute maximum index and corresponding sign over all the
 	     processors, using the MPI_MAXLOC reduction operation: */
-- 
2.43.0


From b21ad52d2d249eef100a2fa0181349bde74dcc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 15/26] fix: mirrored coordinates of grids reflect about the
 boundary

---
 mpb/epsilon_file.c  | 6 +++---
 mpb/material_grid.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 5774780..8ab2889 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -55,9 +55,9 @@ real linear_interpolate(real rx, real ry, real rz,
      real dx, dy, dz;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index c0e2de4..7648ac7 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -257,9 +257,9 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
      real dx, dy, dz, u;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
-- 
2.43.0


From 5cc3ee10ba5db9e1a70c35fa42bc140bb94c8b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 16/26] fix: randomized material grids stay between 0 and 1

---
 mpb/material_grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 7648ac7..6070551 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -703,7 +703,7 @@ void randomize_material_gridB(material_grid g, number noise)
 	  for (i = 0; i < n; ++i) {
 	       double u = grid[i] + noise * (-1 + rand() * 2.0/RAND_MAX);
 	       while (u < 0 || u > 1) { /* mirror boundary conditions */
-		    if (u > 1) u = 1 - u;
+		    if (u > 1) u = 2 - u;
 		    if (u < 0) u = -u;
 	       }
 	       grid[i] = u;
-- 
2.43.0


From adf651cb393220e0e9ffea4455e3764fc506cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 17/26] fix: a material grid used as default material spans the
 unit cell

---
 mpb/material_grid.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 6070551..fc61cb0 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -115,9 +115,9 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
      }
      if (!tp && compatible_matgrids(mg, &default_material)) {
-	  p.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  p.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  p.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  p.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  p.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  p.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  u = material_grid_val(p,
 				default_material.subclass.material_grid_data);
 	  if (u < umin) umin = u;
@@ -372,9 +372,9 @@ static void material_grids_addgradient_point(double *v,
 				   * grids[i].size.z);
 	  }
 	  CHECK(i < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  pb.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  pb.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  ucur = material_grid_array(grids+i);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
@@ -597,9 +597,9 @@ void print_material_grids_deps_du(void)
 				   * grids[ig].size.z);
 	  }
 	  CHECK(ig < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  pb.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  pb.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  ucur = material_grid_array(grids+ig);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
-- 
2.43.0


From d27196bdf6f54d637a0dadba623be99c85ddf4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 18/26] fix: match-epsilon-file! gradient uses the deviation at
 the inversion partner

---
 mpb/material_grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index fc61cb0..e914742 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -957,6 +957,7 @@ static double match_eps_func(int n, const double *u, double *grad, void *data)
 						   (i3c + 0.5) / n3, eps,
 						   eps_nx, eps_ny, eps_nz, 1);
 			 val += (epsilon - eps0) * (epsilon - eps0);
+			 scalegrad = 2.0 * scaleby * (epsilon - eps0);
 
 			 if (grad) {
 			      p.x = i1c * s1 - c1;
-- 
2.43.0


From 7bead016e37e2b51ed3919255eb597f3919d3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 19/26] fix: clear the whole gradient accumulator in
 material-grids-min-tetm-gap!

---
 mpb/material_grid_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index 1d8fcd0..0613073 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -56,7 +56,7 @@ static double mindiff_func(int n, const double *u, double *grad, void *data)
     d->iter++;
     material_grids_set(u, d->grids, d->ngrids);
     reset_epsilon();
-    if (grad) memset(work, 0, sizeof(double) * (n-2));
+    if (grad) memset(work, 0, sizeof(double) * n);
 
     set_maxwell_data_parity(mdata, EVEN_Z_PARITY);
     randomize_fields();
-- 
2.43.0


From a868ef7886f264987355ac6a4997e39b338c4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 20/26] fix: material function returning a material grid: use
 the grid, not the function object

matgrid_val read the data of the object found at the point as a material grid
even when that object's material is a material function whose value is a
material grid.
---
 mpb/material_grid.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index e914742..00cae93 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -102,11 +102,15 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
      matgrid_val_count = 0;
      CHECK(sizeof(real) == sizeof(double), "material grids require double precision");
      if (tp) {
+	  /* the first object's material may be a material function that
+	     returned mg, so only use the materials of the objects below it */
+	  const material_grid *mg_oi = mg;
 	  do {
+	       if (matgrid_val_count > 0)
+		    mg_oi = tp->objects[oi].o->material
+			 .subclass.material_grid_data;
 	       u = material_grid_val(
-		    to_geom_box_coords(p, &tp->objects[oi]),
-		    tp->objects[oi].o->material
-		    .subclass.material_grid_data);
+		    to_geom_box_coords(p, &tp->objects[oi]), mg_oi);
 	       if (u < umin) umin = u;
 	       uprod *= u;
 	       usum += u; ++matgrid_val_count;
@@ -114,11 +118,12 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 	  } while (tp &&
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
      }
-     if (!tp && compatible_matgrids(mg, &default_material)) {
+     if (matgrid_val_count == 0 ||
+	 (!tp && compatible_matgrids(mg, &default_material))) {
 	  p.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
 	  p.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
 	  p.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
-	  u = material_grid_val(p,
+	  u = material_grid_val(p, matgrid_val_count == 0 ? mg :
 				default_material.subclass.material_grid_data);
 	  if (u < umin) umin = u;
 	  uprod *= u;
-- 
2.43.0


From 572259bf48542ee6f4175a0c9040f601266b6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 21/26] fix: mean_epsilon_func: do not ignore a third nearby
 region lying above the surface used

A third material among the nearby grid neighbours was skipped whenever its
object index differed, even if that object takes precedence over the object
whose surface normal and fill fraction are used, so that the result depended
on the order in which neighbours are visited.
---
 mpb/epsilon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/epsilon.c b/mpb/epsilon.c
index 98282e9..a7688ff 100644
--- a/mpb/epsilon.c
+++ b/mpb/epsilon.c
@@ -256,9 +256,9 @@ static int mean_epsilon_func(symmetric_matrix *meps,
 	       id2 = id;
 	       mat2 = mat;
 	  }
-	  else if (!(id1 < id2 && 
+	  else if (!(id1 < id2 && id < id2 &&
 		     (id1 == id || material_type_equal(&mat1,&mat))) &&
-		   !(id2 < id1 &&
+		   !(id2 < id1 && id < id1 &&
 		     (id2 == id || material_type_equal(&mat2,&mat))))
 	       return 0; /* too many nearby objects for analysis */
      }
-- 
2.43.0


From cef125edff823d28e0e5a94d9c405d8358483eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 22/26] fix: matrixio_read_real_data: a file without datasets
 left the dataset name uninitialised

Reading the first dataset (name == NULL) of a file that contains none used and
freed an uninitialised pointer instead of returning NULL.
---
 src/matrixio/matrixio.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index fb3e298..46cba4d 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -788,7 +788,7 @@ real *matrixio_read_real_data(matrixio_id id,
 #if defined(HAVE_HDF5)
      hid_t space_id, type_id, data_id, mem_space_id;
      hsize_t *dims_copy, *maxdims;
-     char *dname;
+     char *dname = NULL;
      int i;
 
      CHECK(*rank > 0, "non-positive rank");
@@ -801,8 +801,9 @@ real *matrixio_read_real_data(matrixio_id id,
 	  strcpy(dname, name);
      }
      else {
-	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) < 0)
-	       return NULL;
+	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) < 0
+	      || !dname)
+	       return NULL; /* error, or no dataset found */
      }
      SUPPRESS_HDF5_ERRORS(data_id = H5Dopen(id.id, dname));
      free(dname);
-- 
2.43.0


From 4ab27f6e88b627dfa1f1951c18daaabd39b09214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:00 +0000
Subject: [PATCH 23/26] fix: add_fname_suffix: look for the suffix only at the
 end of the file name

A name such as dir.h5files/eps.h5, where .h5 also occurs earlier, got a second
.h5 appended, so that the existing file was not found.
---
 src/matrixio/matrixio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index 46cba4d..a20d162 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -320,7 +320,7 @@ static char *add_fname_suffix(const char *fname)
      strcpy(new_fname, fname);
 
      /* only add suffix if it is not already there: */
-     if (strstr(new_fname, FNAME_SUFFIX) != new_fname + oldlen - suflen)
+     if (oldlen < suflen || strcmp(new_fname + oldlen - suflen, FNAME_SUFFIX))
 	  strcat(new_fname, FNAME_SUFFIX);
 
      return new_fname;
-- 
2.43.0


From 05c518e9fc7a4cbe83fd96ef4bbbfb6c035b8c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:23 +0000
Subject: [PATCH 24/26] fix: complex scalar fields were output with the Bloch
 phase of a 3-component field

---
 src/matrixio/fieldio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/fieldio.c b/src/matrixio/fieldio.c
index 580ff47..6175c11 100644
--- a/src/matrixio/fieldio.c
+++ b/src/matrixio/fieldio.c
@@ -85,14 +85,16 @@ void fieldio_write_complex_field(scalar_complex *field,
 		    py.im = px.re * im + px.im * re;
 		    
 		    for (k = 0; k < local_dims[2]; ++k) {
-			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)*3;
+			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)
+			      * num_components;
 			 real p_re, p_im;
 			 real re = phasez[k].re, im = phasez[k].im;
 			 
 			 p_re = py.re * re - py.im * im;
 			 p_im = py.re * im + py.im * re;
 			 
-			 for (component = 0; component < 3; ++component) {
+			 for (component = 0; component < num_components;
+			      ++component) {
 			      int ijkc = ijk + component;
 			      re = field[ijkc].re; im = field[ijkc].im;
 			      field[ijkc].re = re * p_re - im * p_im;
-- 
2.43.0


From 5fbbc9c727a94e0ca7bad6982c84b631696cc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 25/26] fix: writing a field that belongs to no computed band
 read the frequencies out of bounds

---
 mpb/fields.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 46be2c6..778ea78 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -989,6 +989,14 @@ static void output_scalarfield(real *vals,
 	  matrixio_close_dataset(data_id);
 }
 
+/* frequency of the band of the current field; zero if the field does not
+   belong to a band that has been computed (e.g. user-defined fields) */
+static real curfield_freq(void)
+{
+     return curfield_band >= 1 && curfield_band <= freqs.num_items
+	  ? freqs.items[curfield_band - 1] : 0.0;
+}
+
 /* given the field in curfield, store it to HDF (or whatever) using
    the matrixio (fieldio) routines.  Allow the component to be specified
    (which_component 0/1/2 = x/y/z, -1 = all) for vector fields.
@@ -1106,7 +1114,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  }
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting fields to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1159,7 +1167,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 		  curfield_type, kpoint_index, curfield_band);
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting complex scalar field to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1219,7 +1227,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	       sprintf(description,
 		       "%c field energy density, kpoint %d, band %d, freq=%g",
 		       curfield_type, kpoint_index, curfield_band,
-		       freqs.items[curfield_band - 1]);
+		       curfield_freq());
 	  }
 	  fname2 = fix_fname(fname, filename_prefix, mdata,
 			     /* no parity suffix for epsilon: */
-- 
2.43.0


From 0a6a4a34a5830d46ae715b80fb34cc7b361bc763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:19 +0000
Subject: [PATCH 26/26] fix: mpb-data -e divided by zero for directions
 parallel to the plane through the tips of the lattice vectors

---
 utils/mpb-data.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 9031de4..5c3be5c 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -614,7 +614,9 @@ void handle_file(const char *fname, const char *out_fname,
      Rout = Rin;
 
      if (rectify) {
-	  double V;
+	  double V, tips;
+	  vector3 e; /* ve in the basis of the lattice vectors */
+	  int flips = 0;
 
 	  /* Orthogonalize the output lattice vectors.  If have_ve
 	     is true, then the first new lattice vector should be in
@@ -630,6 +632,26 @@ void handle_file(const char *fname, const char *out_fname,
 	  else
 	       ve = unit_vector3(Rout.c0);
 
+	  /* The interpolation below is singular if ve is parallel to the
+	     plane through the tips of the lattice vectors.  In that case,
+	     reverse some lattice vectors (which gives the same lattice). */
+	  e = matrix3x3_vector3_mult(matrix3x3_inverse(Rout), ve);
+	  tips = e.x + e.y + e.z;
+	  if (tips * tips < 1e-12 * vector3_dot(e, e)) {
+	       if (e.x < 0) {
+		    Rout.c0 = vector3_scale(-1, Rout.c0);
+		    ++flips;
+	       }
+	       if (e.y < 0) {
+		    Rout.c1 = vector3_scale(-1, Rout.c1);
+		    ++flips;
+	       }
+	       if (e.z < 0) {
+		    Rout.c2 = vector3_scale(-1, Rout.c2);
+		    ++flips;
+	       }
+	  }
+
 	  /* First, compute c0 in the direction of ve by smoothly
 	     interpolating the old c0/c1/c2 (formula is slightly tricky): */
 	  V = vector3_dot(vector3_cross(Rout.c0, Rout.c1), Rout.c2);
@@ -649,6 +671,8 @@ void handle_file(const char *fname, const char *out_fname,
 				vector3_scale(vector3_dot(Rout.c1, Rout.c2) /
 					      vector3_dot(Rout.c1, Rout.c1),
 					      Rout.c1));
+	  if (flips % 2) /* keep the handedness of the cell */
+	       Rout.c1 = vector3_scale(-1, Rout.c1);
 
 	  cart_map.c0 = unit_vector3(Rout.c0);
 	  cart_map.c1 = unit_vector3(Rout.c1);
-- 
2.43.0

