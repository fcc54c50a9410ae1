From 4e305e75218c5225e489399774f41eaca6294be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 01/60] fix: fnft_nsev no longer modifies the options passed by
 the user or the default options

---
 src/fnft_nsev.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..1a7f11b 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -186,6 +186,11 @@ INT fnft_nsev(
     if (opts == NULL)
         opts = &default_opts;
 
+    // Work on a copy because some options are changed temporarily below. Neither
+    // the options of the user nor the (shared) default options must be changed.
+    fnft_nsev_opts_t opts_copy = *opts;
+    opts = &opts_copy;
+
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case nse_discretization_2SPLIT2_MODAL:
-- 
2.43.0


From 6fbb7e65d68f2a8367e65b4f19561a750ac745cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 02/60] fix: fnft_nsev with Richardson extrapolation no longer
 overruns or misses outputs when residues are requested or outputs are omitted

---
 src/fnft_nsev.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 1a7f11b..830fed9 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -264,7 +264,8 @@ INT fnft_nsev(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == nsev_dstype_RESIDUES){
+        if (ds_type_opt == nsev_dstype_RESIDUES && kappa == +1
+                && bound_states != NULL && normconsts_or_residues != NULL){
             opts->discspec_type = nsev_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -322,7 +323,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -412,8 +413,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -440,7 +441,7 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -451,11 +452,10 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // If only the residues have been requested, copy them to the user
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From c1bfffb883f3203b3a19db06cba3a7d5f5970e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 03/60] fix: fnft_nsev returns finite values for a frequency
 grid with a single point

---
 src/fnft_nsev.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 830fed9..bdcaa73 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -815,7 +815,7 @@ static inline INT nsev_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 3531a1d88dd82d4bf94dc3b29b425fcadbd5c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 04/60] fix: fnft_nsev releases its buffers when it fails while
 computing the spectrum

---
 src/fnft_nsev.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index bdcaa73..f36b00d 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -829,7 +829,7 @@ static inline INT nsev_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     H21_vals = H11_vals + M;
 
@@ -895,7 +895,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1007,13 +1007,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 61a8a8f54c6c22c60c3c0c71b9d1d32aab3e365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 05/60] fix: fnft_nsev carries out the requested number of
 Newton iterations

---
 src/fnft_nsev.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index f36b00d..2d8ff9f 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -1095,7 +1095,6 @@ static inline INT nsev_refine_bound_states_newton(
             // We don't have to scale a and a' by 2^W because that factor cancels.
             error = a_val / aprime_val;
             bound_states[i] -= error;
-            iter++;
             if (CIMAG(bound_states[i]) > bounding_box[3]
                     || CREAL(bound_states[i]) > bounding_box[1]
                     || CREAL(bound_states[i]) < bounding_box[0]
-- 
2.43.0


From 9c0a380943682c4d7d6c2594e2362e3f392bfe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 06/60] fix: fnft_kdvv no longer modifies the options passed by
 the user or the default options

---
 src/fnft_kdvv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..207b736 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -171,6 +171,11 @@ INT fnft_kdvv(
     if (opts == NULL)
         opts = &default_opts;
 
+    // Work on a copy because some options are changed temporarily below. Neither
+    // the options of the user nor the (shared) default options must be changed.
+    fnft_kdvv_opts_t opts_copy = *opts;
+    opts = &opts_copy;
+
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
             return E_INVALID_ARGUMENT(K_ptr);
-- 
2.43.0


From 83429d2346dc3efaf88ab4be42a285f7f32aa304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 07/60] fix: fnft_kdvv with Richardson extrapolation no longer
 overruns or misses outputs when residues are requested or outputs are omitted

---
 src/fnft_kdvv.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 207b736..1c1a651 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -220,7 +220,8 @@ INT fnft_kdvv(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == kdvv_dstype_RESIDUES){
+        if (ds_type_opt == kdvv_dstype_RESIDUES
+                && bound_states != NULL && normconsts_or_residues != NULL){
             opts->discspec_type = kdvv_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -243,7 +244,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -328,8 +329,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -356,7 +357,7 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -367,11 +368,10 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // If only the residues have been requested, copy them to the user
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 1219c873091c088ac3773e8c8a645092c6915f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 08/60] fix: fnft_kdvv accepts a missing frequency window
 without continuous spectrum and grids with a single point

---
 src/fnft_kdvv.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 1c1a651..b174321 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -163,9 +163,11 @@ INT fnft_kdvv(
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
     }
-    for (i=0; i<M; i++){
-        if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
-            return E_INVALID_ARGUMENT(XI);
+    if (contspec != NULL) {
+        for (i=0; i<M; i++){
+            if (XI[0]+(i>0 ? i*(XI[1]-XI[0])/(M-1) : 0.0) == 0)
+                return E_INVALID_ARGUMENT(XI);
+        }
     }
 
     if (opts == NULL)
@@ -735,7 +737,7 @@ static inline INT kdvv_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 3e0e16b1ef68bbcd257f2e9d6bcadd20308099e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 09/60] fix: fnft_kdvv releases its buffers when it fails while
 computing the spectrum

---
 src/fnft_kdvv.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index b174321..7c89083 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -690,7 +690,8 @@ static inline INT kdvv_compute_boundstates(
 
         default:
 
-            return E_INVALID_ARGUMENT(opts->bound_state_localization);
+            ret_code = E_INVALID_ARGUMENT(opts->bound_state_localization);
+            goto leave_fun;
     }
 
     // Update number of bound states
@@ -751,7 +752,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -856,7 +857,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -960,13 +961,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 69d1f7c0d7ee5ed16827dbeeb66590c54d41b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 10/60] fix: fnft_kdvv warns and truncates as documented when
 more bound states are found than fit

---
 src/fnft_kdvv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 7c89083..59f5879 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -635,15 +635,15 @@ static inline INT kdvv_compute_boundstates(
             for (i = 0; i < M; i++) {
                 if (scatter_coeffs[4*i]==0) {
                     if (K>=*K_ptr) { // Lucky us: Exact bound state found
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("More than *K_ptr initial guesses for bound states found. Returning as many as possible.");
+                        break;
                     }
                     bound_states[K]=xi[i];
                     K++;
                 } else if ( i>0 && CREAL(scatter_coeffs[4*i])*CREAL(scatter_coeffs[4*(i-1)])<0) {
                     if (K>=*K_ptr) { // Bound state between this sample and the previous
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("More than *K_ptr initial guesses for bound states found. Returning as many as possible.");
+                        break;
                     }
                     
                     // Zero crossing estimate with regula falsi:
-- 
2.43.0


From 421d20a3edab0c13bcba4335f0f5e69357b61977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 11/60] fix: fnft_kdvv grid search interpolates with the exact
 scaling when normalization is enabled

---
 src/fnft_kdvv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 59f5879..dd2ee80 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -667,7 +667,7 @@ static inline INT kdvv_compute_boundstates(
                         // However, this can quickly lead to overflow problems. By multiplying both
                         // the numerator and denominator in Eq 1 with the factor 2^-(l[i]-l[i-1])/2,
                         // we instead arrive at the following scaling factors.
-                        const REAL s = (log_scaling_factors[i]-log_scaling_factors[i-1])/2;
+                        const REAL s = (log_scaling_factors[i]-log_scaling_factors[i-1])/2.0;
                         scl1 = POW(2, s);
                         scl2 = POW(2, -s);
                     }
-- 
2.43.0


From 2f05e8662749af8543751c8a1c34d9d538189709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 12/60] fix: fnft_manakovv no longer modifies the options
 passed by the user or the default options

---
 src/fnft_manakovv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..bf64b9a 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -159,6 +159,11 @@ INT fnft_manakovv(
 	if (opts == NULL)
 		opts = &default_opts;
 
+	// Work on a copy because some options are changed temporarily below. Neither
+	// the options of the user nor the (shared) default options must be changed.
+	fnft_manakovv_opts_t opts_copy = *opts;
+	opts = &opts_copy;
+
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case manakov_discretization_2SPLIT3A:
-- 
2.43.0


From 69756fce05c6d4cc9b4a978296f6fb470cfd5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 13/60] fix: fnft_manakovv with Richardson extrapolation no
 longer crashes when optional arguments are omitted

---
 src/fnft_manakovv.c | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bf64b9a..7435a0b 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -131,9 +131,7 @@ INT fnft_manakovv(
 	UINT first_last_index[2] = { 0 };
 	UINT K_sub;
 	COMPLEX* contspec_sub = NULL;
-	COMPLEX* normconsts_or_residues_reserve = NULL;
 	fnft_manakovv_bsloc_t bs_loc_opt = 0;
-	fnft_manakovv_dstype_t ds_type_opt = 0;
 	INT ret_code = SUCCESS;
 	UINT i, j, upsampling_factor;
 
@@ -204,18 +202,6 @@ INT fnft_manakovv(
 	// Determine step size
 	const REAL eps_t = (T[1] - T[0]) / (D - 1);
 
-	if (opts->richardson_extrapolation_flag == 1) {
-		ds_type_opt = opts->discspec_type;
-		if (ds_type_opt == manakovv_dstype_RESIDUES) {
-			opts->discspec_type = manakovv_dstype_BOTH;
-			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
-			if (normconsts_or_residues_reserve == NULL) {
-				ret_code = E_NOMEM;
-				goto leave_fun;
-			}
-		}
-	}
-
 	// Some higher-order discretizations require samples on a non-equidistant grid
 	// while others require derivatives. The preprocessing function computes
 	// the required non-equidistant samples using bandlimited interpolation and
@@ -295,10 +281,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        free(q2sub_preprocessed);
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -314,13 +300,12 @@ INT fnft_manakovv(
 			NULL, kappa, opts);	// bound_states already calculated. Passing NULL for boundstates to avoid recalculating
 		CHECK_RETCODE(ret_code, leave_fun);
 		opts->bound_state_localization = bs_loc_opt;
-		opts->discspec_type = ds_type_opt;
 
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 		if (contspec != NULL && M > 0) {
+			REAL const dxi = (M > 1) ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -336,8 +321,6 @@ leave_fun:
     free(q1sub_preprocessed);
 	free(q2sub_preprocessed);
 	free(contspec_sub);
-	if (normconsts_or_residues_reserve != normconsts_or_residues)
-		free(normconsts_or_residues_reserve);
 	return ret_code;
 }
 
-- 
2.43.0


From e1a756220724731574aecbe2c265ddd112dcfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 14/60] fix: fnft_manakovv bound states use the window of the
 subsampled signal and do not depend on contspec

---
 src/fnft_manakovv.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 7435a0b..0a11a2b 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -215,10 +215,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -238,9 +234,15 @@ INT fnft_manakovv(
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
 
-		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
+		// The subsampled signal usually ends before T[1]
+		Tsub[0] = T[0] + first_last_index[0] * eps_t;
+		Tsub[1] = T[0] + first_last_index[1] * eps_t;
+
+		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0;
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
-- 
2.43.0


From db52104d64918bc294807ae5c3d7b571b646ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 15/60] fix: fnft_manakovv accepts a frequency grid with a
 single point and releases its buffers on failure

---
 src/fnft_manakovv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 0a11a2b..91491f8 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -531,7 +531,7 @@ static inline INT manakovv_compute_contspec(
 	}
 	D_given = D / upsampling_factor;
 	const REAL eps_t = (T[1] - T[0]) / (D_given - 1);
-	const REAL eps_xi = (XI[1] - XI[0]) / (M - 1);
+	const REAL eps_xi = (M > 1) ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 
 
 	// Build xi-grid which is required for applying boundary conditions
@@ -546,7 +546,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -613,7 +613,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From 547e3e4fec44814f3c338be3aca84b8ef2c9ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 16/60] fix: fnft_manakovv refuses bound states with slow
 discretizations instead of crashing

---
 src/fnft_manakovv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 91491f8..a864388 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -182,6 +182,8 @@ INT fnft_manakovv(
                 ret_code = E_INVALID_ARGUMENT(opts->bound_state_localization);
                 goto leave_fun;
             }
+            if (kappa == +1 && bound_states != NULL)
+                return E_NOT_YET_IMPLEMENTED(bound_state_localization, Only fast discretizations can localize bound states);
             break;
         default: // Unknown discretization
             return E_INVALID_ARGUMENT(opts->discretization);
-- 
2.43.0


From a1eba4830b115789b866cf87cd1e2d2cf0aaaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 17/60] fix: manakov signal preprocessing checks all
 allocations and releases its buffers on failure

---
 src/private/fnft__manakov_discretization.c | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..787a433 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -119,6 +119,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     COMPLEX *q2_c2 = NULL;
     COMPLEX *q1_sub = NULL;
     COMPLEX *q2_sub = NULL;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -156,15 +158,16 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL || q1_c1 == NULL || q2_c1 == NULL
+            || q1_c2 == NULL || q2_c2 == NULL || q1_sub == NULL || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -200,10 +203,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -232,6 +239,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         free(q2_c2);
         free(q1_sub);
         free(q2_sub);
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         return ret_code;
 }
 
-- 
2.43.0


From a7b155d70655f417f619bd6309ce2bb23ce52545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 18/60] fix: fnft_manakovv Richardson extrapolation works with
 the slow discretizations

---
 src/private/fnft__manakov_discretization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index 787a433..6eec6fe 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -91,10 +91,12 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_2SPLIT4B:
         case manakov_discretization_2SPLIT4A:
         case manakov_discretization_2SPLIT6B:
+        case manakov_discretization_BO:
             return 2;
         case manakov_discretization_4SPLIT4A:
         case manakov_discretization_4SPLIT4B:
         case manakov_discretization_4SPLIT6B:
+        case manakov_discretization_CF4_2:
         case manakov_discretization_FTES4_4A:
         case manakov_discretization_FTES4_4B:
 		case manakov_discretization_FTES4_suzuki:
-- 
2.43.0


From fcb4d9e9a026f3a3c7276efce9fcdaa9535a732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 19/60] fix: fnft_nsep no longer modifies the options passed by
 the user or the default options

---
 src/fnft_nsep.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..aa3a230 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -124,6 +124,12 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
     if (opts_ptr == NULL)
         opts_ptr = &default_opts;
+
+    // Work on a copy because some options are changed below. Neither the
+    // options of the user nor the (shared) default options must be changed.
+    fnft_nsep_opts_t opts_copy = *opts_ptr;
+    opts_ptr = &opts_copy;
+
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -225,11 +231,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         aux_spec[i] += Lam_shift;
     }
 
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From 9d22c90b2e20331b71815a05ac78cde5e523572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 20/60] fix: fnft_nsep grid search reports zero main spectrum
 points if main_spec is NULL

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index aa3a230..d512f35 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -253,7 +253,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From e84b16d8a6ccfda26a68b4c07a40d27af4249183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 21/60] fix: fnft_nsep releases its buffers on failure and
 reports failures of the root finder

---
 src/fnft_nsep.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index d512f35..f8d909e 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -178,8 +178,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -220,7 +222,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -302,8 +305,10 @@ static inline INT gridsearch(const UINT D,
 
     // Will be required later for coordinate transforms
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step /* NaN */) {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
@@ -521,10 +526,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
@@ -562,8 +569,10 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step /* NaN */) {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
@@ -669,7 +678,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
@@ -787,8 +796,10 @@ static inline INT newton(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step /* NaN */) {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[1] - opts_ptr->bounding_box[0];
-- 
2.43.0


From 3de5ae8b64c82dd716f6a7b5ce4d8855304c3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 22/60] fix: fnft_nsep Newton localization takes the phase
 shift of the signal into account for initial guesses

---
 src/fnft_nsep.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index f8d909e..9e72c8b 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -208,6 +208,17 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         case fnft_nsep_loc_NEWTON:
 
+            // The initial guesses of the user are for the signal with the
+            // phase rotation
+            if (main_spec != NULL) {
+                for (i=0; i < *K_ptr*opts_ptr->points_per_spine; i++)
+                    main_spec[i] -= Lam_shift;
+            }
+            if (aux_spec != NULL) {
+                for (i=0; i < *M_ptr; i++)
+                    aux_spec[i] -= Lam_shift;
+            }
+
             ret_code = newton(D, q_preprocessed, T, K_ptr, main_spec, M_ptr, aux_spec,
                               sheet_indices, kappa, opts_ptr);
             CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From a7ef5c5879c15f6f1ce367e13818c86eab55bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 23/60] fix: fnft_nsep grid search works with bounding boxes
 that exceed the unit circle

---
 src/fnft_nsep.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 9e72c8b..3b11fa8 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -329,6 +329,12 @@ static inline INT gridsearch(const UINT D,
         PHI[0] = PHI[1];
         PHI[1] = tmp;
     }
+    // The grid covers the unit circle at most once, also if the bounding box is
+    // larger (or infinite)
+    if (PHI[0] < -PI)
+        PHI[0] = -PI;
+    if (PHI[1] > PI)
+        PHI[1] = PI;
 
     roots = malloc(oversampling_factor*deg*sizeof(COMPLEX));
     if (roots == NULL) {
-- 
2.43.0


From b3de515f5507969d6a64ebd17024b541ddde9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 24/60] fix: fnft_nsep mixed localization keeps non-real points
 if the bounding box is unbounded

---
 src/fnft_nsep.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 3b11fa8..48c0342 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -593,6 +593,8 @@ static inline INT subsample_and_refine(const UINT D,
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
+    if (tol_im == INFINITY) // use the height of the automatic bounding box
+        tol_im = -2.0*LOG(0.1) / (FABS(map_coeff) * eps_t_sub);
     tol_im /= oversampling_factor*(D - 1);
 
     // Use unused part of transfer matrix as buffer for the roots
-- 
2.43.0


From a5ffbf56863046cff180f824af7d196d11c94e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 25/60] fix: AKNS signal preprocessing releases its output
 buffers on failure

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..ec89ea5 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -434,6 +434,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     COMPLEX *q_1 = NULL;
     COMPLEX *q_2 = NULL;
     COMPLEX *q_3 = NULL;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
 
     COMPLEX *qr_weights = NULL;
     COMPLEX *eps_t_weights = NULL;
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -666,6 +668,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         free(q_1);
         free(q_2);
         free(q_3);
-- 
2.43.0


From c73cd6bfe60cd9298b1139f26c00222f1573ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 26/60] fix: fast polynomial multiplication handles a single
 factor

---
 src/private/fnft__poly_fmult.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index 830a8ee..5553b7a 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -147,7 +147,7 @@ INT fnft__poly_fmult(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Pad with z^deg if n is not a power of two
     const UINT n_excess = misc_nextpowerof2(n) - n;
@@ -613,7 +613,7 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -678,6 +678,10 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // A single factor already is the product
+    if (n == 1)
+        memcpy(result, p, 4*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
@@ -783,7 +787,7 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -889,6 +893,10 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // A single factor already is the product
+    if (n == 1)
+        memcpy(result, p, 9*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
-- 
2.43.0


From ce7aa6e125bfe90e8fd47c524965aa7bdfeeb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 27/60] fix: AKNS bound state scattering checks the right
 buffer after allocation

---
 src/private/fnft__akns_scatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..ee0e49f 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -496,7 +496,7 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From 17f1d2d0afccfcded316f29cbbc341e22f6ae808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 28/60] fix: spectral factorization uses the correct
 frequencies for the Hilbert transform

---
 src/private/fnft__poly_specfact.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/private/fnft__poly_specfact.c b/src/private/fnft__poly_specfact.c
index 7e3fcf7..7bd2faf 100644
--- a/src/private/fnft__poly_specfact.c
+++ b/src/private/fnft__poly_specfact.c
@@ -116,10 +116,11 @@ INT poly_specfact(const UINT deg,
     CHECK_RETCODE(ret_code, leave_fun);
 
     buf_in[0] = 0.0;
-    for (i=1; i<M/2-1; i++)
+    for (i=1; i<(M+1)/2; i++) // positive frequencies
         buf_in[i] *= -I/M;
-    buf_in[M/2-1] = 0.0;
-    for (i=M/2; i<M; i++)
+    if (M%2 == 0) // Nyquist frequency
+        buf_in[M/2] = 0.0;
+    for (i=M/2+1; i<M; i++) // negative frequencies
         buf_in[i] *= I/M;
 
     ret_code = fft_wrapper_execute_plan(plan_inv, buf_in, buf_out);
-- 
2.43.0


From 797ba1901513ddc910dca49600644f400dbad367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 29/60] fix: fnft_nsev_inverse releases its buffers if the
 inversion method is invalid

---
 src/fnft_nsev_inverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..1e900f2 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -902,7 +902,7 @@ static INT add_discrete_spectrum(
         }
     }
     else
-        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
 
     leave_fun:
         free(t);
-- 
2.43.0


From dd108e35b9c848b786d028c04c14a77ddba05eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 30/60] fix: AKNS transfer matrix derivatives are finite when
 the matrix exponent is nilpotent

---
 src/private/fnft__akns_scatter.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index ee0e49f..a173dee 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -47,14 +47,16 @@ static inline void akns_scatter_U_BO(COMPLEX const qn,
         U[5] = ch + u1;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX const chi = ch/ks;
-        COMPLEX const ud1 = eps_t*ln2*chi*I;
-        COMPLEX const ud2 = misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
+        // g = (eps_t*ch - sh)/ks, which has a finite limit for ks -> 0
+        COMPLEX const g = (ks == 0.0) ? eps_t*eps_t*eps_t/3.0
+            : misc_CSINC_derivative(I*eps_t*k)*I*eps_t*eps_t/k;
+        COMPLEX const ud1 = ln2*g*I;
+        COMPLEX const ud2 = ln*g;
 
-        U[8]  = ud1 - ( ln*eps_t + I + (ln2*I)/ks )*sh;
+        U[8]  = ud1 - ( ln*eps_t + I )*sh;
         U[9]  = -qn*ud2;
         U[12] = -rn*ud2;
-        U[13] = -ud1 - ( ln*eps_t - I - (ln2*I)/ks )*sh;
+        U[13] = -ud1 - ( ln*eps_t - I )*sh;
     } else {
         U[2] = rn*sh;
         U[3] = ch + u1;
@@ -78,10 +80,9 @@ static inline void akns_scatter_U_ES4(COMPLEX const a1,
         U[5] = c - s*a3;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
+        COMPLEX const w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
         COMPLEX const c_d = -misc_CSINC(w)*w_d;
-        w_d /= w;
-        COMPLEX const s_d = w_d * misc_CSINC_derivative(w);
+        COMPLEX const s_d = (w == 0.0) ? -w_d/3.0 : w_d/w * misc_CSINC_derivative(w);
         U[8] = c_d+s_d*a3+s*tmp2[2];
         U[9] = s_d*a1+s*tmp2[0]-I*s_d*a2-I*s*tmp2[1];
         U[12] = s_d*a1+s*tmp2[0]+I*s_d*a2+I*s*tmp2[1];
-- 
2.43.0


From c88d6b01ba94601129fa4b18144020a9007aa1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 31/60] fix: norming constants are defined when the signal is
 only non-zero at one end of the window

---
 src/private/fnft__akns_scatter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index a173dee..6a5d68c 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -498,6 +498,8 @@ INT akns_scatter_bound_states(UINT const D,
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        WPHI[0] = 0;
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
@@ -853,6 +855,10 @@ INT akns_scatter_bound_states(UINT const D,
                         error_metric = tmp;
                     }
                 }
+                // Fall back to the end of the window, where psi_S=[0; *], if
+                // the metric was not finite for any of the points
+                if (n == D_given && error_metric == INFINITY)
+                    b_vals[neig] = b_temp[1];
             }
         }
     }
-- 
2.43.0


From 431cd9fee59835bdba5487899cf7e98eb24bf385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 32/60] fix: fnft_nsev_inverse detects all repeated bound
 states

---
 src/fnft_nsev_inverse.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 1e900f2..4a9fb36 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -752,10 +752,12 @@ static INT add_discrete_spectrum(
         }
     }
     //Checking for multiplicity of bound_states.
-    for (i = 0; i < K-1; i++){
-        if (bnd_states[i+1] == bnd_states[i]){
-            ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
-            goto leave_fun;
+    for (i = 0; i < K; i++){
+        for (j = i + 1; j < K; j++){
+            if (bnd_states[j] == bnd_states[i]){
+                ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
+                goto leave_fun;
+            }
         }
     }
 
-- 
2.43.0


From 21ad196b4f62412458ad7314e91fbf3e6ef6dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 33/60] fix: fnft_nsev_inverse propagates eigenfunctions over
 samples with |q| equal to the bound state amplitude

---
 src/fnft_nsev_inverse.c | 52 ++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 4a9fb36..ff1445f 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -949,30 +949,22 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[0])*CABS(q[0]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0.0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = 1; n < D; n++){
             //First half-step
-            if (ks != 0){
-                phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
-                phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
-            }
-            else{
-                phi1_ptr[n] = phi1_ptr[n-1];
-                phi2_ptr[n] = phi2_ptr[n-1];
-            }
+            phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
+            phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
             //Second half-step
             ks = (-(CABS(q[n])*CABS(q[n]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0.0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
-                tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
-                phi1_ptr[n] = tmp1;
-                phi2_ptr[n] = tmp2;
-            }
+            tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
+            tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
+            phi1_ptr[n] = tmp1;
+            phi2_ptr[n] = tmp2;
         }
     }
     // computing-psi
@@ -988,32 +980,24 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[D-1])*CABS(q[D-1]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0.0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = D-1; n > 0; n--){
             //First half-step
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
-                psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
-                psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
-            }
-            else{
-                psi1_ptr[n-1] = psi1_ptr[n];
-                psi2_ptr[n-1] = psi2_ptr[n];
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
+            psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
+            psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
             //Second half-step
             ks = (-(CABS(q[n-1])*CABS(q[n-1]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0.0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
-                tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
-                tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
-                psi1_ptr[n-1] = tmp1;
-                psi2_ptr[n-1] = tmp2;
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
+            tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
+            tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
+            psi1_ptr[n-1] = tmp1;
+            psi2_ptr[n-1] = tmp2;
         }
     }
     return ret_code;
-- 
2.43.0


From 522389b158bc6bceaa1a5fc01511d2131605e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 34/60] fix: misc_resample assigns the right frequencies when
 the number of samples is odd

---
 src/private/fnft__misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 43d24dc..9a6e42c 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -350,9 +350,9 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
     
     const REAL scl_factor = (REAL)D*eps_t;
     // Applying phase shift
-    for (i = 0; i <D/2; i++)
+    for (i = 0; i < (D+1)/2; i++)
         freq[i] = i/scl_factor;
-    for (i = D/2; i < D; i++)
+    for (i = (D+1)/2; i < D; i++)
         freq[i] = ((REAL)i - (REAL)D)/scl_factor;
 
     for (i = 0; i < D; i++) {
-- 
2.43.0


From ad8e48bf194dc4d6cc5587cc0d68c3a8c7d52775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 35/60] fix: fnft_nsev_max_K and fnft_manakovv_max_K account
 for discretizations with two transfer matrices per sample

---
 src/fnft_manakovv.c | 9 +++++----
 src/fnft_nsev.c     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index a864388..19c7cdb 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -52,10 +52,11 @@ fnft_manakovv_opts_t fnft_manakovv_default_opts()
  */
 UINT fnft_manakovv_max_K(const UINT D, fnft_manakovv_opts_t const* const opts)
 {
-	if (opts != NULL)
-		return manakov_discretization_degree(opts->discretization) * D;
-	else
-		return manakov_discretization_degree(default_opts.discretization) * D;
+	manakov_discretization_t const discretization
+		= (opts != NULL) ? opts->discretization : default_opts.discretization;
+	// The transfer matrix is built from upsampling_factor*D samples
+	return manakov_discretization_degree(discretization)
+		* manakov_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2d8ff9f..f5a7f1b 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -54,10 +54,11 @@ fnft_nsev_opts_t fnft_nsev_default_opts()
  */
 UINT fnft_nsev_max_K(const UINT D, fnft_nsev_opts_t const * const opts)
 {
-    if (opts != NULL)
-        return nse_discretization_degree(opts->discretization) * D;
-    else
-        return nse_discretization_degree(default_opts.discretization) * D;
+    nse_discretization_t const discretization
+        = (opts != NULL) ? opts->discretization : default_opts.discretization;
+    // The transfer matrix is built from upsampling_factor*D samples
+    return nse_discretization_degree(discretization)
+        * nse_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
-- 
2.43.0


From 479776de9a80b09093a24e52749288ede1fc3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 36/60] fix: poly_roots_fasteigen handles polynomials of degree
 zero and one and roots at zero

---
 src/private/fnft__poly_roots_fasteigen.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 9aa2683..ad69afc 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -37,8 +37,22 @@ INT poly_roots_fasteigen(const UINT deg,
   if (roots == NULL)
     return E_INVALID_ARGUMENT(roots);
 
+    // The Fortran routine requires a degree of at least two and a non-zero last
+    // coefficient
+    UINT n = deg;
+    while (n > 0 && p[n] == 0.0)
+        roots[--n] = 0.0;
+    if (n == 0)
+        return SUCCESS;
+    if (n == 1) {
+        if (p[0] == 0.0)
+            return E_DIV_BY_ZERO;
+        roots[0] = -p[1]/p[0];
+        return SUCCESS;
+    }
+
     // Call Fortran root finding routine
-    int_deg = (int)deg;
+    int_deg = (int)n;
     z_poly_roots_modified_(&int_deg, p, roots, &info);
 
     if (info == 0)
-- 
2.43.0


From 814b7848247dda96d6a20b766f669bf7572c88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 37/60] fix: fnft_nsep computes the auxiliary spectrum if outer
 coefficients of the transfer matrix are zero

---
 src/fnft_nsep.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 48c0342..7542eaa 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -695,12 +695,22 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Compute aux spectrum if desired
     if (aux_spec != NULL) {
-        ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
-                roots);
-        CHECK_RETCODE(ret_code, release_mem);
+        // The leading and trailing coefficients can be exactly zero. The
+        // corresponding roots are at (discrete-time) infinity and zero, and
+        // thus no points of the aux spectrum
+        M = deg;
+        i = 0;
+        while (i < M && transfer_matrix[(deg + 1) + i] == 0.0)
+            i++;
+        while (M > i && transfer_matrix[(deg + 1) + M] == 0.0)
+            M--;
 
         // Set number of points in the aux spectrum
-        M = deg;
+        M -= i;
+
+        ret_code = poly_roots_fasteigen(M, transfer_matrix + (deg + 1) + i,
+                roots);
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Coordinate transform (from discrete-time to continuous-time domain)
         ret_code = nse_discretization_z_to_lambda(M, eps_t_sub, roots, opts_ptr->discretization);
-- 
2.43.0


From c326eb4c023c4aceb1e621049a36355c70d2aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 38/60] fix: fnft_nsev computes bound states if outer
 coefficients of the transfer matrix are zero

---
 src/fnft_nsev.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index f5a7f1b..780f1b7 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -742,7 +742,16 @@ static inline INT nsev_compute_boundstates(
                 buffer = transfer_matrix + (deg+1);
             }
 
-            ret_code = poly_roots_fasteigen(deg, transfer_matrix, buffer);
+            // The leading and trailing coefficients can be exactly zero. The
+            // corresponding roots are at (discrete-time) infinity and zero, and
+            // thus no bound states
+            i = 0;
+            while (i < K && transfer_matrix[i] == 0.0)
+                i++;
+            while (K > i && transfer_matrix[K] == 0.0)
+                K--;
+            K -= i;
+            ret_code = poly_roots_fasteigen(K, transfer_matrix + i, buffer);
             CHECK_RETCODE(ret_code, leave_fun);
             // Roots are returned in discrete-time domain -> coordinate
             // transform (from discrete-time to continuous-time domain).
-- 
2.43.0


From 25d857ef0ad30ac60bba791818fe30f1c9675955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 39/60] fix: KdV grid search finds bound states in the first
 grid interval and obeys grid_spacing

The first grid point was so close to the pole of a(xi) at zero that a(xi)
overflowed: sign changes in the first interval were missed or led to NaN
bound states. The grid also had intervals longer than grid_spacing, and no
bound states were reported at all if grid_spacing exceeded the range.
---
 include/fnft_kdvv.h |  3 ++-
 src/fnft_kdvv.c     | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/fnft_kdvv.h b/include/fnft_kdvv.h
index a9aa2b3..d60a959 100644
--- a/include/fnft_kdvv.h
+++ b/include/fnft_kdvv.h
@@ -53,7 +53,8 @@
  *  initial guesses for the bound states are available. The complexity is
  *  \f$ O(niter (*K\_ptr) D) \f$. \n \n
  *  fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE: The algorithm evaluates \f$ a(\xi) \f$ on the grid
- *  \f$ \xi = \{j nexttoward(0,1), jh,2jh,3jh,\ldots,(M-3)jh\,(M-2)jh,j nexttoward((M-1)h,0)\}\f$,
+ *  \f$ \xi = \{j\varepsilon, jh,2jh,3jh,\ldots,(M-3)jh\,(M-2)jh,j nexttoward((M-1)h,0)\}\f$, where
+ *  \f$ \varepsilon>0 \f$ is close to zero (\f$ a(\xi) \f$ has a pole at zero),
  *  where \f$ h:= \sqrt{c \max_t q(t)} / (M-1)\f$, where \f$ c=1\f$ for all second order discretizations,
  *  `fnft_kdv_discretization_4SPLIT4A'/'B'('_VANILLA'), and `fnft_kdv_discretization_CF4_2`(`_VANILLA`);
  *  \f$ c \f$ is approximately 2 for other discretizations. The constant \f$ M \f$ is chosen
diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index dd2ee80..7273462 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -591,11 +591,8 @@ static inline INT kdvv_compute_boundstates(
             }
             UINT M = 0;
             if (opts->grid_spacing > 0) {
-                M = CEIL(dist/opts->grid_spacing);
-                if (M<2) {
-                    *K_ptr = 0;
-                    goto leave_fun;
-                }   
+                // M points have M-1 intervals, none longer than grid_spacing
+                M = CEIL(dist/opts->grid_spacing) + 1;
             } else {
                 ret_code = E_INVALID_ARGUMENT(opts->grid_spacing);
                 goto leave_fun;
@@ -607,7 +604,9 @@ static inline INT kdvv_compute_boundstates(
                 goto leave_fun;
             }
 
-            xi[0] = I*nexttoward(bounding_box[2],bounding_box[3]);
+            // a(xi) has a pole at zero. The first point is close to it, but not
+            // so close that a(xi) overflows.
+            xi[0] = I*(bounding_box[2] + EPSILON*dist);
             for (i = 1; i < M-1; i++)
                 xi[i] = I * CIMAG(eps_xi*i);
             xi[M-1] = I*nexttoward(bounding_box[3],bounding_box[2]);
@@ -671,6 +670,9 @@ static inline INT kdvv_compute_boundstates(
                         scl1 = POW(2, s);
                         scl2 = POW(2, -s);
                     }
+                    // The interpolation is applied to xi*a(xi), which has no pole at zero.
+                    scl1 *= CIMAG(xi[i]);
+                    scl2 *= CIMAG(xi[i-1]);
                     bound_states[K] = (xi[i-1] * scl1*CREAL(scatter_coeffs[4*i]) - xi[i] * scl2*CREAL(scatter_coeffs[4*(i-1)])) / CREAL( scl1*scatter_coeffs[4*i] - scl2*scatter_coeffs[4*(i-1)]);
                     K++;
                 }
-- 
2.43.0


From 035e5d32baa3b423580a65193210b5966fe12044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 40/60] fix: fnft_manakovv computes bound states if outer
 coefficients of the transfer matrix are zero

---
 src/fnft_manakovv.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 19c7cdb..4d021f2 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -467,7 +467,16 @@ static inline INT manakovv_compute_boundstates(
 				buffer = transfer_matrix + (deg+1);
 			}
 
-			ret_code = poly_roots_fasteigen(deg, transfer_matrix, buffer);
+			// The leading and trailing coefficients can be exactly zero. The
+			// corresponding roots are at (discrete-time) infinity and zero, and
+			// thus no bound states
+			UINT first = 0;
+			while (first < K && transfer_matrix[first] == 0.0)
+				first++;
+			while (K > first && transfer_matrix[K] == 0.0)
+				K--;
+			K -= first;
+			ret_code = poly_roots_fasteigen(K, transfer_matrix + first, buffer);
 			CHECK_RETCODE(ret_code, leave_fun);
 			// Roots are returned in discrete-time domain -> coordinate
 			// transform (from discrete-time to continuous-time domain).
-- 
2.43.0


From ea410f92969298d2a2278ec8091f55b8aa14dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 41/60] fix: Hilbert transform in spectral factorization scaled
 in double precision

---
 src/private/fnft__poly_specfact.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__poly_specfact.c b/src/private/fnft__poly_specfact.c
index 7bd2faf..8c98766 100644
--- a/src/private/fnft__poly_specfact.c
+++ b/src/private/fnft__poly_specfact.c
@@ -117,11 +117,11 @@ INT poly_specfact(const UINT deg,
 
     buf_in[0] = 0.0;
     for (i=1; i<(M+1)/2; i++) // positive frequencies
-        buf_in[i] *= -I/M;
+        buf_in[i] *= -I/(REAL)M;
     if (M%2 == 0) // Nyquist frequency
         buf_in[M/2] = 0.0;
     for (i=M/2+1; i<M; i++) // negative frequencies
-        buf_in[i] *= I/M;
+        buf_in[i] *= I/(REAL)M;
 
     ret_code = fft_wrapper_execute_plan(plan_inv, buf_in, buf_out);
     CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From e72ca1a952845b2469ed367698329256dca81035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 42/60] fix: derivative of constant polynomials outside the
 unit circle

---
 src/private/fnft__poly_eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_eval.c b/src/private/fnft__poly_eval.c
index 001a88b..9489371 100644
--- a/src/private/fnft__poly_eval.c
+++ b/src/private/fnft__poly_eval.c
@@ -83,7 +83,7 @@ INT poly_evalderiv(const UINT deg, COMPLEX const * const p, \
                 tmp2 = tmp + tmp2/z[i];
                 tmp = p[deg - j] + tmp/z[i];
             }
-            deriv[i] = CPOW(z[i], deg - 1)*(deg*tmp - tmp2/z[i]);
+            deriv[i] = CPOW(z[i], (REAL)deg - 1.0)*(deg*tmp - tmp2/z[i]);
             z[i] = tmp * CPOW(z[i], deg);
         }
     }
-- 
2.43.0


From 89872637a445c4007d5d952fe8c67063cf8b7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 43/60] fix: layer peeling for the defocusing NSE with 2SPLIT2A

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 2c1f1ae..44efafa 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -208,6 +208,12 @@ start_pos_2:
                 *s[i].q = X/eps_t;
                 break;
             case FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A):
+                #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_HAS_KAPPA
+                if (kappa == -1) {
+                    *s[i].q = ATANH(CABS(X))*CEXP(I*CARG(X))/eps_t;
+                    break;
+                }
+                #endif
                 *s[i].q = ATAN(CABS(X))*CEXP(I*CARG(X))/eps_t;
                 break;
             default: // discretization is unknown or not supported
-- 
2.43.0


From cdd4fa48f0e98b38b56d33cb90be0c2d3100f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 44/60] fix: layer peeling for the KdV with 2SPLIT2A inverts
 the actual step matrices

---
 .../fnft__akns_finvscatter_q_from_r.inc       | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 44efafa..43a2698 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -179,7 +179,23 @@ start_pos_2:
             COMPLEX * const Ti_22 = Ti_21 + s[i].Ti_stride;
 
             const COMPLEX R = T_21[1] / T_11[1];
-            const COMPLEX Q = FNFT__AKNS_FINVSCATTER_Q_FROM_R(R);
+            COMPLEX Q = FNFT__AKNS_FINVSCATTER_Q_FROM_R(R);
+            #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_RETURN_R_INSTEAD_OF_Q
+            // For 2SPLIT2A, R = w*tan(eps_t*w) and Q = -tan(eps_t*w)/w, where
+            // u = w^2 is the sample. Solve for u with Newton's method.
+            COMPLEX u = R/eps_t;
+            if (discretization == FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A)) {
+                for (UINT iter=0; iter<20; iter++) {
+                    const COMPLEX w = CSQRT(u);
+                    const COMPLEX t = CSIN(eps_t*w)/CCOS(eps_t*w);
+                    Q = (w == 0.0) ? -eps_t : -t/w;
+                    const COMPLEX step = 2.0*(-u*Q - R)/(-Q + eps_t*(1.0 + t*t));
+                    u -= step;
+                    if (CABS(step) <= FNFT_EPSILON*CABS(u))
+                        break;
+                }
+            }
+            #endif
 
             COMPLEX scl_den;
             scl_den = 1.0 - Q*R;
@@ -208,6 +224,10 @@ start_pos_2:
                 *s[i].q = X/eps_t;
                 break;
             case FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A):
+                #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_RETURN_R_INSTEAD_OF_Q
+                *s[i].q = u;
+                break;
+                #endif
                 #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_HAS_KAPPA
                 if (kappa == -1) {
                     *s[i].q = ATANH(CABS(X))*CEXP(I*CARG(X))/eps_t;
-- 
2.43.0


From 55f6eb2b7d9cc3dc7154a2a1dd4623a0f9079552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 45/60] fix: Manakov step matrices no longer divide by zero
 where lambda^2+kappa*|q|^2 vanishes

---
 src/private/fnft__manakov_scatter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_scatter.c b/src/private/fnft__manakov_scatter.c
index 4d63958..55c6f6e 100644
--- a/src/private/fnft__manakov_scatter.c
+++ b/src/private/fnft__manakov_scatter.c
@@ -50,6 +50,8 @@ static inline void manakov_scatter_U_BO(COMPLEX const q1,       // calculates th
 		U[8] = CEXP(I*lam*eps_t);
 	}else{
     COMPLEX x1 = CSQRT(lam*lam + kappa*q1*CONJ(q1) + kappa*q2*CONJ(q2));
+    if (x1 == 0) // avoid 0/0 below, sinh(x2)/x1 converges to I*eps_t
+        x1 = EPSILON;
     COMPLEX x2  = eps_t*x1*I;
     COMPLEX x3 = q1*CONJ(q1)+q2*CONJ(q2);
 
-- 
2.43.0


From 785dc3a3d45ad90db7b14214bfd306c435ce413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 46/60] fix: report failed allocations inside the FFT and
 eigenvalue libraries as out of memory

---
 include/3rd_party/kiss_fft/_kiss_fft_guts.h    |  1 +
 include/3rd_party/kiss_fft/kiss_fft.h          |  5 +++--
 include/private/fnft__fft_wrapper.h            |  3 ++-
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 14 +++++++++++---
 src/3rd_party/kiss_fft/kiss_fft.c              | 14 +++++++++++---
 src/private/fnft__poly_roots_fasteigen.c       |  5 +++--
 6 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/3rd_party/kiss_fft/_kiss_fft_guts.h b/include/3rd_party/kiss_fft/_kiss_fft_guts.h
index c7e1813..ea343f2 100644
--- a/include/3rd_party/kiss_fft/_kiss_fft_guts.h
+++ b/include/3rd_party/kiss_fft/_kiss_fft_guts.h
@@ -35,6 +35,7 @@ Changelog
 struct kiss_fft_state{
     FNFT_UINT nfft;
     FNFT_UINT inverse;
+    int out_of_memory; /* set if temporary memory could not be allocated */
     FNFT_UINT factors[2*MAXFACTORS];
     kiss_fft_cpx twiddles[1];
 };
diff --git a/include/3rd_party/kiss_fft/kiss_fft.h b/include/3rd_party/kiss_fft/kiss_fft.h
index 86c187b..59b6ac5 100644
--- a/include/3rd_party/kiss_fft/kiss_fft.h
+++ b/include/3rd_party/kiss_fft/kiss_fft.h
@@ -90,13 +90,14 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
  * fout will be   F[0] , F[1] , ... ,F[nfft-1]
  * Note that each element is complex and can be accessed like
     f[k].r and f[k].i
+ * Returns nonzero if temporary memory could not be allocated.
  * */
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
 
 /*
  A more generic version of the above function. It reads its input from every Nth sample.
  * */
-void kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT fin_stride);
+int kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT fin_stride);
 
 /* If kiss_fft_alloc allocated a buffer, it is one contiguous 
    buffer and can be simply free()d when no longer needed*/
diff --git a/include/private/fnft__fft_wrapper.h b/include/private/fnft__fft_wrapper.h
index ca32228..2a95982 100644
--- a/include/private/fnft__fft_wrapper.h
+++ b/include/private/fnft__fft_wrapper.h
@@ -134,7 +134,8 @@ static inline FNFT_INT fnft__fft_wrapper_execute_plan(
 #ifdef HAVE_FFTW3
     fftw_execute_dft((fftw_plan)plan, (fftw_complex *)in, (fftw_complex *)out);
 #else    
-    kiss_fft((kiss_fft_cfg)plan, (kiss_fft_cpx *)in, (kiss_fft_cpx *)out);
+    if (kiss_fft((kiss_fft_cfg)plan, (kiss_fft_cpx *)in, (kiss_fft_cpx *)out) != 0)
+        return FNFT__E_NOMEM;
 #endif
 
     return FNFT_SUCCESS;
diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index 4d7d2bf..e10bedd 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -3,6 +3,7 @@
 ! Changes:
 !   - Residuals are not computed
 !   - The roots are no longer printed (forgotten printf?)
+!   - Failed allocations are reported through INFO
 !   - Always use QR since it is as good as QZ -> https://arxiv.org/pdf/1611.02435.pdf
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
@@ -34,6 +35,7 @@
 !
 !  INFO            INTEGER
 !                    INFO = 1 implies companion QR algorithm failed
+!                    INFO = 2 implies that memory could not be allocated
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
 subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
@@ -84,9 +86,15 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
     end function l_upr1fact_random
   end interface
 
-  ! allocate memory
-  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
-  allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N))
+  ! allocate memory (what has been allocated is freed automatically upon return)
+  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),STAT=ii)
+  if (ii.EQ.0) then
+     allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N),STAT=ii)
+  end if
+  if (ii.NE.0) then
+     INFO = 2
+     return
+  end if
 
   ! initialize INFO
   INFO = 0
diff --git a/src/3rd_party/kiss_fft/kiss_fft.c b/src/3rd_party/kiss_fft/kiss_fft.c
index f051be3..9b5fd28 100644
--- a/src/3rd_party/kiss_fft/kiss_fft.c
+++ b/src/3rd_party/kiss_fft/kiss_fft.c
@@ -212,6 +212,10 @@ static void kf_bfly_generic(
     FNFT_UINT Norig = st->nfft;
 
     kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
+    if (scratch == NULL) {
+        st->out_of_memory = 1;
+        return;
+    }
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -371,23 +375,27 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
 }
 
 
-void kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT in_stride)
+int kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT in_stride)
 {
+    st->out_of_memory = 0;
     if (fin == fout) {
         //NOTE: this is not really an in-place FFT algorithm.
         //It just performs an out-of-place FFT into a temp buffer
         kiss_fft_cpx * tmpbuf = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC( sizeof(kiss_fft_cpx)*st->nfft);
+        if (tmpbuf == NULL)
+            return 1;
         kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
         memcpy(fout,tmpbuf,sizeof(kiss_fft_cpx)*st->nfft);
         KISS_FFT_TMP_FREE(tmpbuf);
     }else{
         kf_work( fout, fin, 1,in_stride, st->factors,st );
     }
+    return st->out_of_memory;
 }
 
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
 {
-    kiss_fft_stride(cfg,fin,fout,1);
+    return kiss_fft_stride(cfg,fin,fout,1);
 }
 
 
diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index ad69afc..2a5bfd0 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -57,6 +57,7 @@ INT poly_roots_fasteigen(const UINT deg,
 
     if (info == 0)
         return SUCCESS;
-    else
-        return E_SUBROUTINE(FNFT_EC_OTHER);
+    if (info == 2)
+        return E_NOMEM;
+    return E_SUBROUTINE(FNFT_EC_OTHER);
 }
-- 
2.43.0


From aee5c3a28ecf3883d6e99c3d9984935424d75d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:00 +0000
Subject: [PATCH 47/60] fix: nsev no longer frees the subsampled signal twice
 if preprocessing fails during Richardson extrapolation

---
 src/fnft_nsev.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 780f1b7..8b1205c 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -389,10 +389,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        qsub_preprocessed = NULL;
+        free(rsub_preprocessed);
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From db811eb72afccf1b7b9d32f5348e7a04bd0d068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 48/60] fix: eiscor upr1fact: do not read the empty array P if
 N equals two

---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index b9538f0..be713ab 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -58,11 +58,15 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   
   ! compute variables
   integer :: ir1, ir2, id1, id2
-  logical :: tp(2)
+  logical :: tp(2), p1
   real(8) :: Ginv(3)
   real(8) :: tq(6), td(6), tc(9), tb(9)
   complex(8) :: shift, A(2,2)
   
+  ! P is empty if N = 2
+  p1 = .FALSE.
+  if (N.GT.2) p1 = P(1)
+
   ! compute shift
   ! random shift
   if ((mod(ITCNT,20).EQ.0).AND.(ITCNT.GT.0)) then
@@ -112,7 +116,7 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
 !print*,""
 
   ! build bulge
-  call z_upr1fact_buildbulge(P(1),Q(1:3),D(1:4),C(1:6),B(1:6),shift,G)
+  call z_upr1fact_buildbulge(p1,Q(1:3),D(1:4),C(1:6),B(1:6),shift,G)
 
   ! set Ginv
   Ginv(1) = G(1)
@@ -133,7 +137,7 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   
   ! initialize turnover 
   ! hess
-  if (.NOT.P(1)) then
+  if (.NOT.p1) then
   
     ! fuse Ginv and Q, Ginv is now a diagonal rotation
     call z_rot3_fusion(.FALSE.,Ginv,Q(1:3))
-- 
2.43.0


From ca6ec69bb949737f0556f762a303e8328099998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 49/60] fix: nsep ignores the bounding box if the spectra are
 not filtered

---
 src/fnft_nsep.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 7542eaa..c8fb144 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -152,6 +152,14 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         opts_ptr->bounding_box[1] -= Lam_shift;
     }
 
+    // The bounding box is not used if the spectra are not filtered
+    if (opts_ptr->filtering == fnft_nsep_filt_NONE) {
+        opts_ptr->bounding_box[0] = -INFINITY;
+        opts_ptr->bounding_box[1] = INFINITY;
+        opts_ptr->bounding_box[2] = -INFINITY;
+        opts_ptr->bounding_box[3] = INFINITY;
+    }
+
     switch (opts_ptr->localization) {
 
         case fnft_nsep_loc_MIXED:
-- 
2.43.0


From 84b19bbc63da01c9e86ec986c801a439383ad90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 50/60] fix: nsep grid search uses the correct box for
 upsampled discretizations

---
 src/fnft_nsep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index c8fb144..c2b438b 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -330,8 +330,8 @@ static inline INT gridsearch(const UINT D,
     }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
-    PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
-    PHI[1] = map_coeff*eps_t*opts_ptr->bounding_box[1];
+    PHI[0] = map_coeff/upsampling_factor*eps_t*opts_ptr->bounding_box[0];
+    PHI[1] = map_coeff/upsampling_factor*eps_t*opts_ptr->bounding_box[1];
     if (PHI[0] > PHI[1]) {
         REAL tmp = PHI[0];
         PHI[0] = PHI[1];
-- 
2.43.0


From cfd40eafc1b11e307a63f9698990e09f84e5af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 51/60] fix: nsep refinement does not leave good points close
 to higher order roots

---
 src/fnft_nsep.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index c2b438b..833bdf4 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -998,6 +998,13 @@ static inline INT refine_mainspec(
                 }
             }
             best_incr = best_m*incr;
+
+            // Close to higher order roots, the increment can be dominated by
+            // rounding errors. Do not leave a point that is good enough already
+            // if the step would not improve it.
+            if ( CABS(f) <= tol && min_abs >= CABS(f) )
+                break;
+
             mainspec[k] -= best_incr; // Newton step
 
 	        // printf("MAIN k=%zu, nevals=%zu: lam=%e+%ej, |f|=%e, |f_prime|=%e, |incr|=%e, best_m=%d\n", k, nevals, CREAL(mainspec[k]), CIMAG(mainspec[k]), CABS(f), CABS(f_prime),CABS(incr),best_m);
@@ -1005,9 +1012,10 @@ static inline INT refine_mainspec(
             if ( CABS(best_incr) <= tol || CABS(f) <= tol ) {
                 // We already know f and f_prime at the new mainspec[k], so
                 // let's use that for a final first-order Newton step.
-                if (next_f_prime == 0.0)
-                    return E_DIV_BY_ZERO;
-                mainspec[k] -= next_f / next_f_prime;
+                // (The step is skipped if it would be longer than the previous
+                // one because rounding errors dominate.)
+                if (CABS(next_f) <= CABS(best_incr * next_f_prime) && next_f_prime != 0.0)
+                    mainspec[k] -= next_f / next_f_prime;
                 break;
             }
 
-- 
2.43.0


From 7d133b8b569de3c1eab7fdd437bafa3272eb2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 52/60] fix: documented default options of fnft_nsep and
 fnft_kdvv

---
 include/fnft_kdvv.h | 4 ++--
 include/fnft_nsep.h | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/fnft_kdvv.h b/include/fnft_kdvv.h
index d60a959..f9c1dfd 100644
--- a/include/fnft_kdvv.h
+++ b/include/fnft_kdvv.h
@@ -181,14 +181,14 @@ typedef struct {
  * default settings.
  *
  * @returns A \link fnft_kdvv_opts_t \endlink object with the following options.\n
- *  bound_state_filtering = fnft_kdvv_bsfilt_FULL\n
- *  bound_state_localization = fnft_kdvv_bsloc_SUBSAMPLE_AND_REFINE\n
+ *  bound_state_localization = fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE\n
  *  niter = 10\n
  *  discspec_type = fnft_kdvv_dstype_NORMING_CONSTANTS\n
  *  contspec_type = fnft_kdvv_cstype_REFLECTION_COEFFICIENT\n
  *  normalization_flag = 1\n
  *  discretization = fnft_kdv_discretization_2SPLIT4B\n
  *  richardson_extrapolation_flag = 0\n
+ *  grid_spacing = 0\n
  *
   * @ingroup fnft
  */
diff --git a/include/fnft_nsep.h b/include/fnft_nsep.h
index 292121a..8432014 100644
--- a/include/fnft_nsep.h
+++ b/include/fnft_nsep.h
@@ -161,9 +161,9 @@ typedef struct {
  *
  * @ingroup fnft
  * @returns A \link fnft_nsep_opts_t \endlink object with the following options.\n
- *  localization = fnft_nsep_loc_MIXED\n
+ *  localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE\n
  *  filtering = fnft_nsep_filt_AUTO\n
- *  max_evals = 20\n
+ *  max_evals = 50\n
  *  bounding_box[0] = -FNFT_INF\n
  *  bounding_box[1] = FNFT_INF\n
  *  bounding_box[2] = -FNFT_INF\n
@@ -171,8 +171,9 @@ typedef struct {
  *  normalization_flag = 1\n
  *  discretization = fnft_nse_discretization_2SPLIT2A\n
  *  floquet_range = {-1, 1}\n
- *  floquet_nvals = 2\n
- *  Dsub = 0
+ *  points_per_spine = 2\n
+ *  Dsub = 0\n
+ *  tol = -1
  */
 fnft_nsep_opts_t fnft_nsep_default_opts();
 
-- 
2.43.0


From 4b44be28b71cda3c1ff911750f9aaa6fc6b5efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:08 +0000
Subject: [PATCH 53/60] fix: fnft_version crashed if no buffer for the suffix
 was passed

---
 src/fnft_version.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_version.c b/src/fnft_version.c
index 04b1c04..bcc5f72 100644
--- a/src/fnft_version.c
+++ b/src/fnft_version.c
@@ -28,7 +28,7 @@ INT fnft_version(UINT * const major,
                  UINT * const patch,
                  char suffix[FNFT_VERSION_SUFFIX_MAXLEN+1])
 {
-    if (major == NULL || minor == NULL || patch == NULL)
+    if (major == NULL || minor == NULL || patch == NULL || suffix == NULL)
         return E_INVALID_ARGUMENT(NULL pointer passed.);
     *major = FNFT_VERSION_MAJOR;
     *minor = FNFT_VERSION_MINOR;
-- 
2.43.0


From a231decd65b3913e46ef0a66746c4cc1190f7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:05 +0000
Subject: [PATCH 54/60] fix: no warning of an unfinished refinement if a bound
 state is found exactly

---
 src/fnft_nsev.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 8b1205c..1dd476a 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -1096,8 +1096,10 @@ static inline INT nsev_refine_bound_states_newton(
                 CHECK_RETCODE(ret_code, leave_fun);
             }
             // Perform some checks
-            if (a_val == 0.0) // we found a zero, stop here because otherwise the
-                break; // next line will cause an error if it is of higher order
+            if (a_val == 0.0) { // we found a zero, stop here because otherwise
+                ok_flag = 1; // the next line will cause an error if it is of
+                break;       // higher order
+            }
             if (aprime_val == 0.0)
                 return E_DIV_BY_ZERO;
 
-- 
2.43.0


From 7b9f7afd8d73aa61b8642582a2189e70f3ee61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:05 +0000
Subject: [PATCH 55/60] fix: fnft_nsep accepts initial guesses that are exact
 zeros of higher order

---
 src/fnft_nsep.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 833bdf4..dc62277 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -969,6 +969,10 @@ static inline INT refine_mainspec(
             // The current values of f and f' at lam = mainspec[k]
             f = next_f;
             f_prime = next_f_prime;
+            if (f == 0.0) { // we found a zero, stop here because otherwise
+                best_incr = 0.0; // the next lines will cause an error if it
+                break;           // is of higher order
+            }
             if (f_prime == 0.0)
                 return E_DIV_BY_ZERO;
             incr = f / f_prime;
@@ -1069,6 +1073,10 @@ static inline INT refine_auxspec(
             // care about the ratio of f and f_prime, so that scl cancels out
             f = M[1]; // f = b(lam)
             f_prime = M[5]; // f' = b'(lam)
+            if (f == 0.0) { // we found a zero, stop here because otherwise
+                incr = 0.0; // the next lines will cause an error if it is
+                break;      // of higher order
+            }
             if (f_prime == 0.0)
                 return E_DIV_BY_ZERO;
 
-- 
2.43.0


From c5b27573951abf2e0e690498f6b341ef4a8188c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:03 +0000
Subject: [PATCH 56/60] fix: mex_fnft_nsep does not store a second output that
 is not there

---
 matlab/mex_fnft_nsep.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index cb35e5c..d8a48a7 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -44,9 +44,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     fnft_nsep_opts_t opts;
     int ret_code;
 
-    /* To suppress unused parameter warning */
-    (void) nlhs;
-
     /* Check types and dimensions of the first three inputs: q, T, kappa */
     if (nrhs < 3)
         mexErrMsgTxt("At least three inputs expected.");
@@ -292,20 +289,23 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     /* Allocate memory for the outputs */
     plhs[0] = mxCreateDoubleMatrix(1, K, mxCOMPLEX);
-    plhs[1] = mxCreateDoubleMatrix(1, M, mxCOMPLEX);
+    if (nlhs >= 2) /* plhs has no second entry otherwise */
+        plhs[1] = mxCreateDoubleMatrix(1, M, mxCOMPLEX);
 
     /* Convert outputs */
     msr = mxGetPr(plhs[0]);
     msi = mxGetPi(plhs[0]);
-    asr = mxGetPr(plhs[1]);
-    asi = mxGetPi(plhs[1]);
     for (i=0; i<K; i++) {
         msr[i] = creal(main_spec[i]);
         msi[i] = cimag(main_spec[i]);
     }
-    for (i=0; i<M; i++) {
-        asr[i] = creal(aux_spec[i]);
-        asi[i] = cimag(aux_spec[i]);
+    if (nlhs >= 2) {
+        asr = mxGetPr(plhs[1]);
+        asi = mxGetPi(plhs[1]);
+        for (i=0; i<M; i++) {
+            asr[i] = creal(aux_spec[i]);
+            asi[i] = cimag(aux_spec[i]);
+        }
     }
 
     /* Free memory that is no longer needed */
-- 
2.43.0


From d2c263b229362a3faaeea09004bdf7eae1aaa778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:03 +0000
Subject: [PATCH 57/60] fix: mex_fnft_nsep with points_per_spine zero and
 Newton's method no longer divides by zero

---
 matlab/mex_fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index d8a48a7..f513160 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -258,7 +258,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
         main_spec = mxMalloc(K * sizeof(double complex));
         aux_spec = mxMalloc(M * sizeof(double complex));
     } else { /* Newton */
-        if (K%opts.points_per_spine != 0) {
+        if (opts.points_per_spine == 0 || K%opts.points_per_spine != 0) {
             snprintf(msg, sizeof msg, "The lengths of the first initial guess vector for Newton localization has to be a multiple of points_per_spine (=%u).",
                 (unsigned int)opts.points_per_spine);
             goto on_error;
-- 
2.43.0


From 6cfb5d4516d4270f31e34c5144087893e1d51723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:03 +0000
Subject: [PATCH 58/60] fix: mex_fnft_manakovv does not compute and store bound
 states that are not requested

---
 matlab/mex_fnft_manakovv.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/matlab/mex_fnft_manakovv.c b/matlab/mex_fnft_manakovv.c
index b009fa9..00f767a 100644
--- a/matlab/mex_fnft_manakovv.c
+++ b/matlab/mex_fnft_manakovv.c
@@ -53,13 +53,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     /* Check number of inputs to avoid computing results that have not been
     requested. We treat nlhs==0 like nlhs==1 because it that case, the result
-    will be stored in Matlabs ans variable. 
-    We do not need this as we are only calculating the contspec anyway
+    will be stored in Matlabs ans variable. */
     if (nlhs < 2)
         skip_bound_states_flag = 1;
-    if (nlhs < 3)
-        skip_normconsts_flag = 1;
-    */
+
     /* Check types and dimensions of the first five inputs: q1, q2, T, XI, kappa */
 
     if (nrhs < 5)
-- 
2.43.0


From c3f9d4551e0d7d46f187ce9e5973fbbea864320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:29 +0000
Subject: [PATCH 59/60] fix: mex_fnft_nsev, mex_fnft_kdvv: do not refine
 guesses if the bound states are skipped

If initial guesses had been provided but the bound states were not
requested (or skip_bs was given), the guesses were nevertheless refined.
---
 matlab/mex_fnft_kdvv.c | 4 ++++
 matlab/mex_fnft_nsev.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/matlab/mex_fnft_kdvv.c b/matlab/mex_fnft_kdvv.c
index 0751803..06eb095 100644
--- a/matlab/mex_fnft_kdvv.c
+++ b/matlab/mex_fnft_kdvv.c
@@ -357,6 +357,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
             snprintf(msg, sizeof msg, "Out of memory.");
             goto on_error;
         }
+    } else {
+        // Initial guesses might have been provided
+        mxFree(bound_states);
+        bound_states = NULL;
     }
 
     if (skip_normconsts_flag == 0) {
diff --git a/matlab/mex_fnft_nsev.c b/matlab/mex_fnft_nsev.c
index 425375d..927d543 100644
--- a/matlab/mex_fnft_nsev.c
+++ b/matlab/mex_fnft_nsev.c
@@ -418,6 +418,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
             snprintf(msg, sizeof msg, "Out of memory.");
             goto on_error;
         }
+    } else {
+        // Initial guesses might have been provided
+        mxFree(bound_states);
+        bound_states = NULL;
     }
 
     if (skip_normconsts_flag == 0) {
-- 
2.43.0


From ac4f439c649432ba9225110dbd2133029d934517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:34 +0000
Subject: [PATCH 60/60] fix: fnft_nsev_inverse: solitons in windows that end
 before zero no longer become NaN

Without a sample at t>=0 all samples used the formula for positive times,
whose exponentials overflow if the window is far from zero.
---
 src/fnft_nsev_inverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index ff1445f..494c2e0 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -706,7 +706,7 @@ static INT add_discrete_spectrum(
     COMPLEX * r = NULL;
     INT * Ws = NULL;
     UINT i,j;
-    UINT zc_point = 0; //index of zero-crossing of time
+    UINT zc_point = D; //index of zero-crossing of time (D if there is none)
     INT ret_code = SUCCESS;
     REAL * t = NULL;
     REAL const eps_t = (T[1] - T[0])/(D-1);
-- 
2.43.0

