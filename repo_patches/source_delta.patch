From 3420787eba1316e22432dc79a019ccd245effc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 01/18] fix: gf2e_t16_init read past the multiplication tables
 for degrees smaller than the element width

---
 src/gf2e.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf2e.h b/src/gf2e.h
index a6a8542..5f9e7c2 100644
--- a/src/gf2e.h
+++ b/src/gf2e.h
@@ -167,7 +167,8 @@ static inline word *gf2e_t16_init(const gf2e *ff, const word a) {
   word *mul = (word*)m4ri_mm_calloc(1<<16, sizeof(word));
 
   const deg_t w = gf2e_degree_to_w(ff);
-  const word mask_w = (1<<w)-1;
+  /* entries never use the bits above the degree: no product is defined for those */
+  const word mask_w = (1<<ff->degree)-1;
 
   /**
    * @todo: this is a bit of overkill, we could do better
-- 
2.43.0


From d8b7ce427a9bf32874d9bbbccf34d3934fba0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 02/18] fix: mzd_slice_rescale_row rescaled row r of a one-row
 matrix

---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From 28b8ac72dc78b48302795755239a94f8d003ae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 03/18] fix: mzed_first_zero_row skipped zero rows followed by
 a nonzero row

---
 src/mzed.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mzed.h b/src/mzed.h
index 282297b..3d64505 100644
--- a/src/mzed.h
+++ b/src/mzed.h
@@ -988,7 +988,15 @@ static inline void mzed_row_add(mzed_t *M, const rci_t sourcerow, const rci_t de
  */
 
 static inline rci_t mzed_first_zero_row(mzed_t *A) {
-  return mzd_first_zero_row(A->x);
+  for(rci_t i=0; i<A->nrows; i++) {
+    const word *row = A->x->rows[i];
+    word tmp = 0;
+    for(wi_t j=0; j<A->x->width; j++)
+      tmp |= (j == A->x->width-1) ? row[j] & A->x->high_bitmask : row[j];
+    if(!tmp)
+      return i;
+  }
+  return A->nrows;
 }
 
 
-- 
2.43.0


From 0a7592d9d682ac99b78d96bdda765abd34f75937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 04/18] fix: _blm_finish_polymult looped forever or read out of
 bounds when no full rank set of pairs exists

The products F*x^v x G*x^w need not span the whole space (e.g. the CRT scheme
for two polynomials of length 4), and pairs with v > w were never considered.
Solve the linear system for H instead of looking for an invertible subset.
---
 src/blm.c | 89 +++++++++++--------------------------------------------
 1 file changed, 17 insertions(+), 72 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..f78680a 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -384,91 +384,36 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   const rci_t m = f->F->nrows;
   const rci_t c_nrows = f->F->ncols + f->G->ncols - 1;
 
-  mzd_t *H = mzd_init(c_nrows, m);
+  const rci_t n = f->F->ncols * f->G->ncols;
 
   mzd_t *F_T = mzd_transpose(NULL, f->F);
   mzd_t *G_T = mzd_transpose(NULL, f->G);
 
-  mzd_t *C = mzd_init(m, m);
+  /* H must map F*vec(x^v) x G*vec(x^w) to vec(x^(v+w)) for all v,w: C*H^T = D. These products need
+     not span the whole space, i.e. C does not necessarily have rank m. */
 
-  /* we find a full rank matrix */
+  mzd_t *C = mzd_init(n, m);
+  mzd_t *D = mzd_init(MAX(n, m), c_nrows);
 
-  word v = 0;
-  word w = 0;
-  rci_t r = 0;
-  rci_t rank = 0;
-
-  mzd_t *pivots = mzd_init(m, m4ri_radix*2);
-
-  mzp_t *P = mzp_init(m);
-  mzp_t *Q = mzp_init(m);
-
-  while(rank < m) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
-
-    pivots->rows[r][0] = v;
-    pivots->rows[r][1] = w;
-
-    w++;
-    if (w == (word)f->G->ncols) {
-      v++;
-      if (v == (word)f->F->ncols)
-        v = 0;
-      w = v;
-    }
-    r++;
-    if (r == C->nrows) {
-      mzd_t *D = mzd_copy(NULL, C);
-      rank = mzd_ple(D, P, Q, 0);
-      mzd_apply_p_left(pivots, P);
-      mzd_apply_p_left(C, P);
-      mzd_free(D);
-
-      if (rank < m)
-        r = rank;
+  for(rci_t v=0; v<f->F->ncols; v++) {
+    for(rci_t w=0; w<f->G->ncols; w++) {
+      const rci_t r = v*f->G->ncols + w;
+      for(wi_t j=0; j< C->width; j++)
+        C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
+      mzd_write_bit(D, r, v+w, 1);
     }
   }
-  mzp_free(P);
-  mzp_free(Q);
-
-  for(r=0; r<m; r++) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    v = pivots->rows[r][0];
-    w = pivots->rows[r][1];
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
-  }
   mzd_free(F_T);
   mzd_free(G_T);
 
-  // This should be replaced by TRSM calls
-  mzd_t *D = mzd_inv_m4ri(NULL, C, 0); 
+  if (mzd_solve_left(C, D, 0, 1) != 0)
+    m4ri_die("_blm_finish_polymult: F and G do not determine the product.\n");
   mzd_free(C);
-  mzd_t *DT = mzd_transpose(NULL, D);
-  mzd_free(D);
 
-  mzd_t *a = mzd_init(1, m);
-  mzd_t *b = mzd_init(1, H->ncols);
-
-  for(rci_t i=0; i<H->nrows; i++) {
-    mzd_set_ui(a, 0);
-    for(rci_t j=0; j<m; j++) {
-      v = pivots->rows[j][0];
-      w = pivots->rows[j][1];
-      if ((v+w) == (word)i)
-        mzd_write_bit(a, 0, j, 1);
-    }
-    mzd_mul(b, a, DT, 0);
-
-    /* copy result to H */
-    for(rci_t j=0; j<H->ncols; j++)
-      mzd_write_bit(H, i, j, mzd_read_bit(b, 0, j ));
-  }
-  mzd_free(a);
-  mzd_free(b);
-  mzd_free(pivots);
+  mzd_t *HT = mzd_init_window(D, 0, 0, m, c_nrows);
+  mzd_t *H = mzd_transpose(NULL, HT);
+  mzd_free(HT);
+  mzd_free(D);
 
   if (ff == NULL) {
     f->H = H;
-- 
2.43.0


From 4cac57d5b9acecfc2d3c101d42d107d6d50978a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 05/18] fix: crt_init returned an empty scheme when no scheme
 beats schoolbook multiplication

---
 src/blm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index f78680a..bf70c92 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <m4ri/djb.h>
 #include <m4rie/blm.h>
 #include <m4rie/mzd_ptr.h>
@@ -104,7 +105,7 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
 int *crt_init(const deg_t f_len, const deg_t g_len) {
   int *p_best = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
-  int  c_best = f_len * g_len;
+  int  c_best = INT_MAX;
 
   int *p = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
 
-- 
2.43.0


From 4d3fd058d7b7e2dde09ce00282ce1331b96de069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 06/18] fix: _crt_modred_mat wrote to negative columns and
 leaked its temporaries

---
 src/blm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index bf70c92..163dfc1 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -345,7 +345,7 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
 
   /* (x-infinity)^d */
   if (poly == 0) {
-    for(deg_t i=0; i<d; i++) 
+    for(deg_t i=0; i<d && i<length; i++) 
       mzd_write_bit(A, i, length-i-1, 1);
     return A;
   }
@@ -376,6 +376,8 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
     for(deg_t j=0; j<= ii; j++) 
       mzd_write_bit(A, j, i, (f->rows[0][j/m4ri_radix]>>(j%m4ri_radix)) & 0x1);
   }
+  mzd_free(f);
+  mzd_free(t);
   return A;
 }
 
-- 
2.43.0


From fe5bd92a0d4c8af8553bcae6ee71da47f7240435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 07/18] fix: blm_free dereferenced NULL for maps without a DJB
 encoding

---
 src/blm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 163dfc1..fe7ce09 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -560,10 +560,12 @@ void blm_free(blm_t *f) {
   mzd_free(f->F);
   mzd_free(f->G);
   mzd_free(f->H);
-  if (f->f != f->g)
+  if (f->g != NULL && f->f != f->g)
     djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f != NULL)
+    djb_free(f->f);
+  if (f->h != NULL)
+    djb_free(f->h);
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From 2bd4d09ed53525992f1e068ae2cdfd4f710639a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 08/18] fix: Strassen multiplication recursed without end for
 the documented cutoff 0

---
 src/strassen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strassen.c b/src/strassen.c
index c36520b..31815ab 100644
--- a/src/strassen.c
+++ b/src/strassen.c
@@ -32,11 +32,15 @@
 
 mzed_t *mzed_mul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, TRUE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
 }
 
 mzed_t *mzed_addmul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, FALSE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_addmul_strassen(C, A, B, cutoff);
 }
 
-- 
2.43.0


From 6d4d744ef4528e7113705479e4c20f4adfe865b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 09/18] fix: recursive TRSM split systems of dimension <= 64
 out of bounds or without end for small cutoffs

---
 src/trsm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trsm.inl b/src/trsm.inl
index 2e8d154..04be98f 100644
--- a/src/trsm.inl
+++ b/src/trsm.inl
@@ -9,7 +9,7 @@
 void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff) {
   assert((L->finite_field == B->finite_field) && (L->nrows == L->ncols) && (B->nrows == L->ncols));
 
-  if (L->nrows <= cutoff || B->ncols <= cutoff) {
+  if (L->nrows <= cutoff || L->nrows <= m4ri_radix || B->ncols <= cutoff) {
     matrix_trsm_lower_left_newton_john(L,B);
     return;
   }
@@ -53,7 +53,7 @@ void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff)
 void _matrix_trsm_upper_left(matrix_t const *U, matrix_t *B, const rci_t cutoff) {
   assert((U->finite_field == B->finite_field) && (U->nrows == U->ncols) && (B->nrows == U->ncols));
 
-  if (U->nrows <= cutoff || B->ncols <= cutoff) {
+  if (U->nrows <= cutoff || U->nrows <= m4ri_radix || B->ncols <= cutoff) {
     matrix_trsm_upper_left_newton_john(U,B);
     return;
   }
-- 
2.43.0


From a4b20ceb6879bd711dbe149f3aed9b93b82bf3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 10/18] fix: _mzed_mul added to its destination instead of
 overwriting it for large dimensions

---
 src/mzed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mzed.c b/src/mzed.c
index 093b9ee..739fd1c 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -101,7 +101,7 @@ mzed_t *mzed_addmul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
 
 mzed_t *_mzed_mul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
   if (A->nrows >= 512 && A->ncols >= 512 && B->ncols >= 512)
-    return _mzed_addmul_karatsuba(C, A, B);
+    return mzed_mul_karatsuba(C, A, B);
 
   const rci_t cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
-- 
2.43.0


From c3d61db40ea0ba59f515a05a147979a3dab8f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 11/18] fix: mzed_make_table left stale words when a table is
 reused for a later column

---
 src/newton_john.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/newton_john.c b/src/newton_john.c
index 606a2bc..fdd9a68 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -196,12 +196,12 @@ njt_mzed_t *mzed_make_table(njt_mzed_t *T, const mzed_t *A, const rci_t r, const
     case 0:
       break;
     default:
-    case 8: *(ti-7) = 0;
-    case 7: *(ti-6) = 0;
-    case 6: *(ti-5) = 0;
-    case 5: *(ti-4) = 0;
-    case 4: *(ti-3) = 0;
-    case 3: *(ti-2) = 0;
+    case 8: *(ti-8) = 0;
+    case 7: *(ti-7) = 0;
+    case 6: *(ti-6) = 0;
+    case 5: *(ti-5) = 0;
+    case 4: *(ti-4) = 0;
+    case 3: *(ti-3) = 0;
     case 2: *(ti-2) = 0;
     case 1: *(ti-1) = 0;
     }
-- 
2.43.0


From 3bce5af315cbdf781b2aa9efdd646db50572cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 12/18] fix: _mzd_poly_addmul_blm and _crt overwrote C, and
 _crt lost an allocated result

---
 src/mzd_poly.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..6d2805c 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -213,7 +213,11 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
   if (C == NULL)
     C = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
 
-  _mzd_ptr_apply_blm(C->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  /* applying f may overwrite its target */
+  mzd_poly_t *T = mzd_poly_init(A->depth+B->depth-2, A->nrows, B->ncols);
+  _mzd_ptr_apply_blm(T->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  _mzd_ptr_add(C->x, (const mzd_t**)C->x, (const mzd_t**)T->x, T->depth);
+  mzd_poly_free(T);
   return C;
 }
 
@@ -225,7 +229,7 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
 static inline mzd_poly_t *_mzd_poly_addmul_crt(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   int *p = crt_init(A->depth, B->depth);
   blm_t *f = blm_init_crt(NULL, A->depth, B->depth, p, 1);
-  _mzd_poly_addmul_blm(C, A, B, f);
+  C = _mzd_poly_addmul_blm(C, A, B, f);
   blm_free(f);
   m4ri_mm_free(p);
   return C;
-- 
2.43.0


From eeab6f4c555993d05f092ce975b80c6da91d63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 13/18] fix: _mzd_poly_adapt_depth wrote past the coefficient
 array when growing

---
 src/mzd_poly.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 6d2805c..5e1edc7 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -131,9 +131,15 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       A->x[i] = NULL;
     }
   } else {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++) {
+      x[i] = A->x[i];
+    }
     for(int i=A->depth; i<new_depth; i++) {
-      A->x[i] = mzd_init(A->nrows,A->ncols);
+      x[i] = mzd_init(A->nrows,A->ncols);
     }
+    m4ri_mm_free(A->x);
+    A->x = x;
   }
   A->depth = new_depth;
   return A;
-- 
2.43.0


From f9765492aabdfd45ee8e5f996a9d8d193c2c5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 14/18] fix: _mzd_poly_addmul_ext1 failed for products with
 fewer than three coefficients

---
 src/mzd_poly.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..e9baa9a 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,7 +11,13 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
-  const int log2d = (int)ceil(log2( (double)d ));
+  if (d == 1) {
+    mzd_addmul(C->x[0], A->x[0], B->x[0], 0);
+    return C;
+  }
+
+  /* GF(4) is the smallest extension field we support */
+  const int log2d = MAX(2, (int)ceil(log2( (double)d )));
   assert(log2d <= 16);
 
   gf2e *ff = gf2e_init(irreducible_polynomials[log2d][1]);
-- 
2.43.0


From eea08374bd83959082d463110bfb590d19b09821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 15/18] fix: Newton-John multiplication crashed on destination
 windows starting at an odd word

---
 src/newton_john.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/newton_john.c b/src/newton_john.c
index fdd9a68..341988b 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -62,7 +62,14 @@ void njt_mzed_free(njt_mzed_t *T) {
 static inline void mzed_combine4(mzed_t *C, rci_t rc, 
                                  mzed_t *T0, rci_t r0, mzed_t *T1, rci_t r1, mzed_t *T2, rci_t r2, mzed_t *T3, rci_t r3) {
   const word *t[4] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3]};
-  _mzd_combine_4(C->x->rows[rc], t, C->x->width);
+  word *c = C->x->rows[rc];
+  /* _mzd_combine_4 expects all rows to be aligned alike, which windows need not be */
+  if (__M4RI_ALIGNMENT(c, 16) != 0) {
+    for(wi_t i=0; i<C->x->width; i++)
+      c[i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i];
+    return;
+  }
+  _mzd_combine_4(c, t, C->x->width);
 }
 
 /**
@@ -93,7 +100,14 @@ static inline void mzed_combine8(mzed_t *C, rci_t rc,
                                  mzed_t *T4, rci_t r4, mzed_t *T5, rci_t r5, mzed_t *T6, rci_t r6, mzed_t *T7, rci_t r7) {
   const word *t[8] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3], 
                       T4->x->rows[r4], T5->x->rows[r5], T6->x->rows[r6], T7->x->rows[r7]};
-  _mzd_combine_8(C->x->rows[rc], t, C->x->width);
+  word *c = C->x->rows[rc];
+  /* _mzd_combine_8 expects all rows to be aligned alike, which windows need not be */
+  if (__M4RI_ALIGNMENT(c, 16) != 0) {
+    for(wi_t i=0; i<C->x->width; i++)
+      c[i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i] ^ t[4][i] ^ t[5][i] ^ t[6][i] ^ t[7][i];
+    return;
+  }
+  _mzd_combine_8(c, t, C->x->width);
 }
 
 
-- 
2.43.0


From 69b69e50545297e978db9c171b994681066bf03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 16/18] fix: Newton-John elimination crashed on windows
 starting at an odd word

---
 src/newton_john.h | 64 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/src/newton_john.h b/src/newton_john.h
index b1e41e3..bdc0d12 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -228,6 +228,45 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
   mzd_process_rows(M->x, startrow, endrow, startcol*M->w, M->w, T->T->x, T->L);
 }
 
+/**
+ * \brief Does row zero of M start at an odd word?
+ *
+ * This happens for windows. mzd_process_rows2 and up expect the rows of
+ * M and of the tables to be aligned alike.
+ *
+ * \param M Matrix
+ */
+
+static inline int _mzed_process_rows_unaligned(const mzed_t *M) {
+  return M->x->nrows && __M4RI_ALIGNMENT(M->x->rows[0], 16) != 0;
+}
+
+/**
+ * \brief Same as mzed_process_rows but works with n Newton-John tables
+ * and makes no assumption about the alignment of M.
+ *
+ * \param M Matrix to operate on
+ * \param startrow top row which is operated on
+ * \param endrow bottom row which is operated on
+ * \param startcol Starting column for addition
+ * \param n Number of Newton-John tables, at most 6
+ * \param T Newton-John tables
+ */
+
+static inline void _mzed_process_rows_n(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
+                                        const int n, const njt_mzed_t **T) {
+  const wi_t block = (startcol*M->w)/m4ri_radix;
+  for(rci_t r=startrow; r<endrow; r++) {
+    const word *t[6];
+    for(int i=0; i<n; i++)
+      t[i] = T[i]->T->x->rows[T[i]->L[mzed_read_elem(M, r, startcol+i)]];
+    word *m = M->x->rows[r];
+    for(int i=0; i<n; i++)
+      for(wi_t j=block; j<M->x->width; j++)
+        m[j] ^= t[i][j];
+  }
+}
+
 /**
  * \brief Same as mzed_process_rows but works with two Newton-John tables
  * in parallel.
@@ -244,6 +283,11 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
 
 static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol, 
                                       const njt_mzed_t *T0, const njt_mzed_t *T1) {
+  if (_mzed_process_rows_unaligned(M)) {
+    const njt_mzed_t *T[2] = {T0, T1};
+    _mzed_process_rows_n(M, startrow, endrow, startcol, 2, T);
+    return;
+  }
   mzd_process_rows2(M->x, startrow, endrow, startcol*M->w, 2*M->w, T0->T->x, T0->L, T1->T->x, T1->L);
 }
 
@@ -264,6 +308,11 @@ static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2) {
+  if (_mzed_process_rows_unaligned(M)) {
+    const njt_mzed_t *T[3] = {T0, T1, T2};
+    _mzed_process_rows_n(M, startrow, endrow, startcol, 3, T);
+    return;
+  }
   mzd_process_rows3(M->x, startrow, endrow, startcol*M->w, 3*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L);
 }
 
@@ -285,6 +334,11 @@ static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3) {
+  if (_mzed_process_rows_unaligned(M)) {
+    const njt_mzed_t *T[4] = {T0, T1, T2, T3};
+    _mzed_process_rows_n(M, startrow, endrow, startcol, 4, T);
+    return;
+  }
   mzd_process_rows4(M->x, startrow, endrow, startcol*M->w, 4*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L);
 }
 
@@ -307,6 +361,11 @@ static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3, const njt_mzed_t *T4) {
+  if (_mzed_process_rows_unaligned(M)) {
+    const njt_mzed_t *T[5] = {T0, T1, T2, T3, T4};
+    _mzed_process_rows_n(M, startrow, endrow, startcol, 5, T);
+    return;
+  }
   mzd_process_rows5(M->x, startrow, endrow, startcol*M->w, 5*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L);
 }
 
@@ -332,6 +391,11 @@ static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci
 static inline void mzed_process_rows6(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2,
                                       const njt_mzed_t *T3, const njt_mzed_t *T4, const njt_mzed_t *T5) {
+  if (_mzed_process_rows_unaligned(M)) {
+    const njt_mzed_t *T[6] = {T0, T1, T2, T3, T4, T5};
+    _mzed_process_rows_n(M, startrow, endrow, startcol, 6, T);
+    return;
+  }
   mzd_process_rows6(M->x, startrow, endrow, startcol*M->w, 6*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L, T5->T->x, T5->L);
 }
 
-- 
2.43.0


From fffda37b63433121e6b1431e3d62f9230feff028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 17/18] fix: size checks overflowed for matrices with more than
 2^31 entries or bits

---
 src/echelonform.c | 2 +-
 src/mzed.c        | 2 +-
 src/newton_john.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/echelonform.c b/src/echelonform.c
index e941dc8..28cacdc 100644
--- a/src/echelonform.c
+++ b/src/echelonform.c
@@ -26,7 +26,7 @@
 rci_t mzed_echelonize(mzed_t *A, int full) {
   if (A->finite_field->degree > A->nrows) {
     return mzed_echelonize_naive(A, full);
-  } else if ((A->nrows * A->ncols * A->w <= 2*__M4RIE_PLE_CUTOFF)) {
+  } else if (((size_t)A->nrows * A->ncols * A->w <= 2*__M4RIE_PLE_CUTOFF)) {
     return mzed_echelonize_newton_john(A, full);
   } else {
     return mzed_echelonize_ple(A, full);
diff --git a/src/mzed.c b/src/mzed.c
index 739fd1c..c890298 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -151,7 +151,7 @@ mzed_t *mzed_mul_scalar(mzed_t *C, const word a, const mzed_t *B) {
    * 0) If a direct approach would need less lookups we use that.
    */
 
-  if(ff->degree > 8 || B->nrows*B->ncols < 1<<17) {
+  if(ff->degree > 8 || (size_t)B->nrows*B->ncols < 1<<17) {
     mzed_copy(C, B);
     for(rci_t i=0; i<B->nrows; i++)
       mzed_rescale_row(C, i, 0, a);
diff --git a/src/newton_john.c b/src/newton_john.c
index 341988b..d413378 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -257,7 +257,7 @@ rci_t mzed_echelonize_newton_john(mzed_t *A, int full) {
   rci_t kk = (rci_t)m4ri_opt_k(A->x->nrows, A->x->ncols, 0);
   if (kk>=7)
     kk = 7;
-  if ( (6*(1<<kk)*A->ncols / 8.0) > __M4RI_CPU_L2_CACHE / 2.0 )
+  if ( (6.0*(1<<kk)*A->ncols / 8.0) > __M4RI_CPU_L2_CACHE / 2.0 )
     kk -= 1;
   kk = (6*kk)/k;
 
-- 
2.43.0


From 9a0fe72b1acafac55c691475f540546d17e695fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:23 +0000
Subject: [PATCH 18/18] fix: only take powers of irreducible polynomials as
 moduli of a degree the exponent divides

A scheme with more moduli of an odd degree than there are irreducible
polynomials took the square of a polynomial of half the degree, rounded
down. The reduction modulo that polynomial of smaller degree never ended.
---
 src/blm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index fe7ce09..d3faa52 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -497,18 +497,18 @@ blm_t *blm_init_crt(const gf2e *ff, const deg_t f_ncols, const deg_t g_ncols, co
       if (p_it[d] < irreducible_polynomials[d][0]) {
         poly = irreducible_polynomials[d][ 1 + p_it[d] ];
         p_it[d]++;
-      } else if (d/2 && p_it[d/2] < irreducible_polynomials[d/2][0]) {
+      } else if (d%2 == 0 && p_it[d/2] < irreducible_polynomials[d/2][0]) {
         /** the minimal polynomial is a square */
         poly = irreducible_polynomials[d/2][ 1 + p_it[d/2]];
         p_it[d/2]++;
         poly = gf2x_mul(poly, poly, d/2+1);
-      } else if (d/4 && p_it[d/4] < irreducible_polynomials[d/4][0]) {
+      } else if (d%4 == 0 && p_it[d/4] < irreducible_polynomials[d/4][0]) {
         /** the minimal polynomial is a fourth power */
         poly = irreducible_polynomials[d/4][1 + p_it[d/4]];
         p_it[d/4]++;
         poly = gf2x_mul(poly, poly, d/4+1);
         poly = gf2x_mul(poly, poly, d/2+1);
-      } else if (d/8 && p_it[d/8] < irreducible_polynomials[d/8][0]) {
+      } else if (d%8 == 0 && p_it[d/8] < irreducible_polynomials[d/8][0]) {
         /** the minimal polynomial is an eigth power */
         poly = irreducible_polynomials[d/8][p_it[d/8]+ 1];
         p_it[d/8]++;
-- 
2.43.0

