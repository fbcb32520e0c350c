From 1d4f8d68f073fdcb11b3c67d5b115b6e7f9d297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 001/148] fix: keep the previous chunk when a memory region
 grows

Freeing an apparently unused chunk invalidated temporary allocations (use
after free in aa_mem_region_tmprealloc) and pointers from aa_mem_region_ptr:
popping such a pointer later freed every chunk in the region.
---
 src/mem.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 8fd4ce2..8d4ab41 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -169,11 +169,9 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
     size_t nsize = AA_MAX(2*(size_t)(reg->node->end - reg->node->d),
                           size + AA_MEMREG_ALIGN);
     // this growth strategy creates worst-case O(n) memory waste
-    reg->node =
-        aa_mem_region_node_alloc( nsize,
-                              /* free unused chunk */
-                              (aa_mem_region_alignptr(reg->node->d) == reg->head) ?
-                              aa_mem_region_node_free(reg->node) : reg->node );
+    // The old chunk must remain, even if nothing was allocated from it:
+    // temporary data or an aa_mem_region_ptr() to be popped may be there.
+    reg->node = aa_mem_region_node_alloc( nsize, reg->node );
     aa_mem_region_align(reg, reg->node->d);
     assert( aa_mem_region_freesize(reg) >= size );
     assert( ! ((uintptr_t)reg->head%16) );
-- 
2.43.0


From cad078369b82db6f4816048058f6ce2811a9819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 002/148] fix: popping a pointer at the very end of a region
 chunk

A pointer taken when the chunk was exactly full (or a zero-size block there)
was not found in its chunk, and popping it freed every live block.
---
 src/mem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mem.c b/src/mem.c
index 8d4ab41..35238ab 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -65,6 +65,8 @@ AA_API void aa_flexbuf_free(aa_flexbuf_t *p) {
 static struct aa_mem_region_node  *aa_mem_region_node_alloc(size_t n,
                                                     struct aa_mem_region_node *next) {
     // FIXME: maybe we should use mmap instead of malloc()
+    // whole number of alignment units, so the aligned head never passes end
+    n = AA_ALIGN2( n, (size_t)AA_MEMREG_ALIGN );
     struct aa_mem_region_node *p =
         (struct aa_mem_region_node*)malloc(sizeof(struct aa_mem_region_node) + n + AA_MEMREG_ALIGN);
     p->end = p->d + n + AA_MEMREG_ALIGN;
@@ -129,7 +131,8 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
 }
 
 static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
-    return ptr >= node->d  && ptr < node->end;
+    // ptr == end when the chunk was full (or ptr has zero size)
+    return ptr >= node->d  && ptr <= node->end;
 }
 
 
-- 
2.43.0


From 7e07e9fecfaedcaec9e8e4074db9b9bb24997140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:10 +0000
Subject: [PATCH 003/148] fix: bitwise and/or/xor of bit vectors never
 terminated

The loop neither decremented its counter nor addressed the words [0,n).
---
 include/amino/mem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index 83ba975..fdefc4a 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -698,7 +698,7 @@ static inline void
 aa_bits_and( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] &= b[n_words];
     }
 }
@@ -710,7 +710,7 @@ static inline void
 aa_bits_or( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] |= b[n_words];
     }
 }
@@ -722,7 +722,7 @@ static inline void
 aa_bits_xor( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] ^= b[n_words];
     }
 }
-- 
2.43.0


From 43f667e54bfa1ca745ea7a89f5aa3475cc95cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:02 +0000
Subject: [PATCH 004/148] fix: free the previous texture coordinates in
 aa_rx_mesh_set_texture

---
 src/rx/scene_geom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_geom.c b/src/rx/scene_geom.c
index f1cc395..124b759 100644
--- a/src/rx/scene_geom.c
+++ b/src/rx/scene_geom.c
@@ -431,7 +431,7 @@ void aa_rx_mesh_set_texture (
     aa_rx_mesh_set_rgba( mesh, 1, 1, rgba, 1 );
 
     // indices
-    /* if( mesh->uv_data ) free(mesh->uv_data); */
+    if( mesh->uv_data ) free(mesh->uv_data);
     mesh->uv = mesh->uv_data = AA_NEW0_AR(float, 2*mesh->n_vertices);
 }
 
-- 
2.43.0


From 1b1f4b9d2f6441a108058bf730d42aa8200cf627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 005/148] fix: aa_dvec_slice dropped the last element of a
 partial step

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index fc75de6..7f90955 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -110,7 +110,7 @@ aa_dvec_slice( const struct aa_dvec *src,
     if( stop > src->len || stop < start ) {
         aa_la_err("Slice out-of-bounds\n");
     }
-    *dst = AA_DVEC_INIT( (stop - start) / step,
+    *dst = AA_DVEC_INIT( (stop - start + step - 1) / step,
                          src->data + src->inc*start,
                          src->inc*step );
 }
-- 
2.43.0


From f83db72dbf869576dd22ea7ded3d950c9aa11e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 006/148] fix: aa_dmat_inc wrote outside square views of a
 larger matrix

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index 7f90955..4e3ad92 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -504,7 +504,7 @@ aa_dmat_inc( struct aa_dmat *A, double alpha )
     size_t m=A->rows, n=A->cols, ld=A->ld;
     double *x = A->data;
 
-    if( m == n ) {
+    if( m == ld ) {
         s_inc(m*n, alpha, x, 1);
     } else {
         for( double *e = x + n*ld; x < e; x+=ld ) {
-- 
2.43.0


From 78b435f3a76ca2a0c23f085d5cb594e6c02351f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 007/148] fix: aa_la_trace summed absolute values of the
 diagonal

---
 src/la.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index 6b41f8c..ed69f70 100644
--- a/src/la.c
+++ b/src/la.c
@@ -187,7 +187,9 @@ AA_API void aa_la_transpose( size_t n, double *A  ) {
 }
 
 double aa_la_trace( size_t n, const double *A ) {
-    return cblas_dasum( (int)n, A, (int)(n+1) );
+    double a = 0;
+    for( size_t i = 0; i < n; i++ ) a += A[i*(n+1)];
+    return a;
 }
 
 double aa_la_wdot( size_t n,
-- 
2.43.0


From 41988772b9545774e47829bd527354e6808d362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:35 +0000
Subject: [PATCH 008/148] fix: aa_dmat_gemm ignored the transpose arguments
 when sizing the product

---
 src/mat.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 4e3ad92..ccbbee6 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -396,9 +396,15 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
               const struct aa_dmat *B,
               double beta, struct aa_dmat *C )
 {
-    aa_la_check_size( A->rows, C->rows );
-    aa_la_check_size( A->cols, B->rows );
-    aa_la_check_size( B->cols, C->cols );
+    /* dimensions of op(A) and op(B) */
+    const size_t m  = (CblasNoTrans == transA) ? A->rows : A->cols;
+    const size_t k  = (CblasNoTrans == transA) ? A->cols : A->rows;
+    const size_t kb = (CblasNoTrans == transB) ? B->rows : B->cols;
+    const size_t n  = (CblasNoTrans == transB) ? B->cols : B->rows;
+
+    aa_la_check_size( m, C->rows );
+    aa_la_check_size( k, kb );
+    aa_la_check_size( n, C->cols );
 
     assert( A->rows <= A->ld );
     assert( B->rows <= B->ld );
@@ -406,7 +412,7 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
 
     cblas_dgemm( CblasColMajor,
                  transA, transB,
-                 MAT_ROWS(A), MAT_COLS(B), MAT_COLS(A),
+                 (int)m, (int)n, (int)k,
                  alpha, AA_MAT_ARGS(A),
                  AA_MAT_ARGS(B),
                  beta, AA_MAT_ARGS(C) );
-- 
2.43.0


From 908c3a5864653148c7ded3d58f5d6d57a5f0d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:02 +0000
Subject: [PATCH 009/148] fix: pseudo-inverses ignored the leading dimension of
 the result

---
 src/mat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index ccbbee6..e53db64 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -652,7 +652,7 @@ aa_dmat_pinv( const struct aa_dmat *A, double tol, struct aa_dmat *As )
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
@@ -839,7 +839,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
@@ -849,7 +849,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, S[i]/s2,
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
-- 
2.43.0


From 6f1a12c1bdd29ea5b24058c7d2be19a0b2275e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:02 +0000
Subject: [PATCH 010/148] fix: SVD, QR and eigen decompositions used the
 caller's leading dimension for the packed copy

---
 src/la_impl.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 5d8fcd2..5e3bf39 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -506,14 +506,14 @@ AA_API int AA_NAME(la,qr)
         AA_CLA_NAME(laset)('L', mi, ni,
                            0, 0,
                            R, (int)ldr );
-        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, mi,
                            R, (int)ldr);
 
     }
 
     if( Q ) {
         /* Fill Q */
-        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, mi,
                            Q, (int)ldq);
         LA_WORK( reg, work, lwork,
                  AA_CLA_NAME(orgqr)(mi, mi, mn,
@@ -544,7 +544,7 @@ AA_API int AA_NAME(la,svd)
         int *iwork = AA_MEM_REGION_NEW_N(reg, int, 8*mn);
         LA_WORK( reg, work, lwork,
                  info = AA_CLA_NAME(gesdd) (jobz, mi, ni,
-                                            Ap, (int)lda,
+                                            Ap, mi,
                                             S, U, (int)ldu,
                                             Vt, (int)ldvt,
                                             work, lwork, iwork) );
@@ -577,7 +577,6 @@ AA_API int AA_NAME(la,eev)
 {
     int info = -1;
     int ni = (int)n;
-    int ldai = (int)lda;
     struct aa_mem_region *reg = aa_mem_region_local_get();
 
 
@@ -590,7 +589,7 @@ AA_API int AA_NAME(la,eev)
 
     LA_WORK( reg, work, lwork,
              AA_LAPACK_NAME(geev)( jobvl, jobvr,
-                                   &ni, Ap, &ldai,
+                                   &ni, Ap, &ni,
                                    wr, wi,
                                    Vl, &ldvli,
                                    Vr, &ldvri,
-- 
2.43.0


From b85218b2cdc40b5cf427bc99e0fc9a3bc9a7c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:02 +0000
Subject: [PATCH 011/148] fix: SVD for only one side of the singular vectors
 ignored their leading dimension

---
 src/la_impl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 5e3bf39..4733181 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -552,12 +552,14 @@ AA_API int AA_NAME(la,svd)
         /* Simple */
         const char *jobu = (U && ldu > 0) ? "A" : "N";
         const char *jobvt = (Vt && ldvt > 0) ? "A" : "N";
+        int ldui = (U && ldu > 0) ? (int)ldu : 1;
+        int ldvti = (Vt && ldvt > 0) ? (int)ldvt : 1;
 
         LA_WORK( reg, work, lwork,
                  AA_LAPACK_NAME(gesvd)( jobu, jobvt, &mi, &ni,
                                         Ap, &mi,
-                                        S, U, &mi,
-                                        Vt, &ni,
+                                        S, U, &ldui,
+                                        Vt, &ldvti,
                                         &work[0], &lwork, &info ) );
     }
 
-- 
2.43.0


From 85575b8f3a59ad1614a40a8f70e552ff67cdd058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:30 +0000
Subject: [PATCH 012/148] fix: assignment solver never terminated for cost
 matrices without a positive entry

---
 src/la_impl.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 4733181..d2ae3e3 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -77,8 +77,6 @@ static void AA_NAME(la,opt_hungarian) (
     ssize_t *mask = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*n*n);      // length n*n
     ssize_t *path = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*2*n*n);    // length 2*n*n
 
-    const AA_TYPE max_cost =
-        AA_NAME(la,mat_max)(n,n,A,lda,NULL,NULL);
     //int mask[n*n];
     size_t zerorc[2] = {0};
     memset(mask,0,n*n*sizeof(mask[0]));
@@ -256,7 +254,7 @@ static void AA_NAME(la,opt_hungarian) (
         case 6: ;
             assert( 6 == step );
             // find smallest uncovered value in cost
-            AA_TYPE minval = max_cost;
+            AA_TYPE minval = (AA_TYPE)HUGE_VAL;
             for( size_t j = 0; j < n; j ++ ) {
                 for( size_t i = 0; i < n; i ++ ) {
                     if( 0 == row_cover[i] &&
-- 
2.43.0


From dc87d52ee33ce7ac987483e46a644d16b844ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:40 +0000
Subject: [PATCH 013/148] fix: assignment solver missed stars above the current
 row when building an augmenting path

---
 src/la_impl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la_impl.c b/src/la_impl.c
index d2ae3e3..2f2b7e9 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -225,6 +225,7 @@ static void AA_NAME(la,opt_hungarian) (
                                     break;
                                 }
                             }
+                            break; // search the new column from its top
                         }
                     }
                 }
-- 
2.43.0


From 43967e8d73ddaeb551ca7eeee2ba3bbaa0ff075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 014/148] fix: single-precision medians compared elements as
 doubles

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 2f2b7e9..f5f919b 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -628,8 +628,8 @@ AA_API int AA_NAME(la,sysv)
 
 int AA_NAME(la,compar)( const void *_a, const void *_b )
 {
-    double a = *(double*)_a;
-    double b = *(double*)_b;
+    AA_TYPE a = *(const AA_TYPE*)_a;
+    AA_TYPE b = *(const AA_TYPE*)_b;
     if( a < b ) return -1;
     if( a > b ) return 1;
     return 0;
-- 
2.43.0


From 73abfdc5796afe78462998817bd52a9529f7867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 015/148] fix: covariance ignored the leading dimension of the
 result

---
 src/la_impl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index f5f919b..dc8ca76 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -421,13 +421,15 @@ void AA_NAME(la,colcov)
                             (int)m, 1.0, t, 1,
                             E, (int)lde );
     }
-    AA_CBLAS_NAME(scal) ( (int)(m*m),
-                          (AA_TYPE)1.0/(AA_TYPE)(n-1),
-                          E, 1 );
+    for( size_t j = 0; j < m*lde; j+=lde ) {
+        AA_CBLAS_NAME(scal) ( (int)m,
+                              (AA_TYPE)1.0/(AA_TYPE)(n-1),
+                              E+j, 1 );
+    }
     /* fill lower half */
     for( size_t i = 0; i < m; i ++ ) {
         for( size_t j = i+1; j < m; j ++ ) {
-            AA_MATREF(E, m, j, i) = AA_MATREF(E, m, i, j);
+            AA_MATREF(E, lde, j, i) = AA_MATREF(E, lde, i, j);
         }
     }
 }
-- 
2.43.0


From 8d0a51ffc9f8f376b8c549810e37600b65b547c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 016/148] fix: circular standard deviation used the squared
 resultant length

---
 src/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index e4f6df7..05c5a48 100644
--- a/src/math.c
+++ b/src/math.c
@@ -131,7 +131,7 @@ AA_API double aa_stat_circ_std( size_t n, const double *x) {
     }
     as = as / (double)n;
     ac = ac / (double)n;
-    double r = (as*as + ac*ac);
+    double r = AA_MIN( 1.0, sqrt(as*as + ac*ac) );
     return sqrt( -2 * log(r) );
 }
 
@@ -197,7 +197,7 @@ AA_API size_t aa_stat_excluded_circ_mean_std( size_t n, const double *x,
         as /= (double)j;
         ac /= (double)j;
         mu = atan2(as,ac);
-        double r = (as*as + ac*ac);
+        double r = AA_MIN( 1.0, sqrt(as*as + ac*ac) );
         sigma = sqrt( -2 * log(r) );
     } while(jj != j && ++iter < max_iterations ) ;
     *pmu = mu;
-- 
2.43.0


From b4eb4ef8d91a7c26844af8300696fcfbb0112f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 017/148] fix: aa_valid_v accepted NaN as inside the limits

---
 src/validate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.c b/src/validate.c
index b3a4e82..2a4d7eb 100644
--- a/src/validate.c
+++ b/src/validate.c
@@ -53,10 +53,10 @@ AA_API int aa_valid_v( double *values, size_t n, double *min, double *max,
     }
     if( min || max ) {
         for( int i = 0; i < (int)n; i ++) {
-            if( min && min[i] > values[i] ) {
+            if( min && !(min[i] <= values[i]) ) {
                 return i+1;
             }
-            if( max && max[i] < values[i] ) {
+            if( max && !(max[i] >= values[i]) ) {
                 return i+1;
             }
         }
-- 
2.43.0


From ca3956a7b0d6c8f5e368b459980aebdc07e29f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:37 +0000
Subject: [PATCH 018/148] fix: aa_io_getline lost a line that exactly filled
 the region

---
 src/io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.c b/src/io.c
index 722c6db..706291f 100644
--- a/src/io.c
+++ b/src/io.c
@@ -63,6 +63,8 @@ char *aa_io_getline( FILE *fin, struct aa_mem_region *reg )
     do {
         int i = fgetc(fin);
         if( '\n' == i || EOF == i ) {
+            // keep the characters when the terminator does not fit
+            aa_mem_region_tmprealloc( reg, n+1 );
             char * str = (char*)aa_mem_region_alloc( reg, n+1 );
             str[n] = '\0';
             return str;
-- 
2.43.0


From 617529f41f4b59448cda8e6c1993c0ad03289c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:37 +0000
Subject: [PATCH 019/148] fix: aa_io_fread_matrix_heap left skipped and
 erroneous lines in the local region

---
 src/io.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 706291f..bd6438e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -189,7 +189,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
         if( NULL == line ) continue;
 
         char *line2 = aa_io_skipblank(line);
-        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) continue;
+        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) {
+            aa_mem_region_pop(reg, line);
+            continue;
+        }
 
         // maybe realloc
         if( *elts < read_elts + n ) {
@@ -199,11 +202,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // parse
         size_t i = aa_io_parsevector( line2, n, (*A)+read_elts, 1, NULL );
+        aa_mem_region_pop(reg, line);
         if( i != n ) return -(ssize_t)lineno;
 
         read_elts += i;
-
-        aa_mem_region_pop(reg, line);
     }
     return (ssize_t)(read_elts / n);
 }
-- 
2.43.0


From 184e4e17368a74dc52c21333f6d51f0de27c8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:37 +0000
Subject: [PATCH 020/148] fix: aa_io_fread_matrix_heap overran a caller buffer
 smaller than half a line

---
 src/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index bd6438e..8f2a805 100644
--- a/src/io.c
+++ b/src/io.c
@@ -196,7 +196,7 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // maybe realloc
         if( *elts < read_elts + n ) {
-            *elts *= 2;
+            *elts = AA_MAX( 2 * *elts, read_elts + n );
             *A = (double*) realloc(*A, *elts * sizeof(double) );
         }
 
-- 
2.43.0


From aa06ae80f7ed99612c2e734957cad9b6c1f4d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:39 +0000
Subject: [PATCH 021/148] fix: derivative of quadratic interpolation used c*t/2
 instead of 2*c*t

---
 src/la.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index ed69f70..0b6c5c2 100644
--- a/src/la.c
+++ b/src/la.c
@@ -484,7 +484,7 @@ AA_API void aa_la_quadterp_dx( size_t n,
     double M12 = -(t1+t0)/((t2-t0)*(t2-t1));
     double M22 = 1/((t2-t0)*(t2-t1));
 
-    double ti_2 = ti/2;
+    double ti_2 = 2*ti;
 
     for( size_t i = 0; i < n; i ++ ) {
         double b = M10*X0[i] + M11*X1[i] + M12*X2[i];
-- 
2.43.0


From aed8b1701858fe7b6eb35090dc859a667827ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:39 +0000
Subject: [PATCH 022/148] fix: Cash-Karp step swapped two weights of its
 fourth-order result

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index e592b72..e871adc 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -441,7 +441,7 @@ void aa_odestep_rkck45( size_t n, aa_sys_fun sys, const void *cx,
                  dt, k, (int)n,
                  v1, 1,
                  1, x4, 1 );
-    static const double v2[] = { 2825.0/27648, 277.0/14336, 18575.0/48384, 13525.0/55296, 1.0/4};
+    static const double v2[] = { 2825.0/27648, 1.0/4, 18575.0/48384, 13525.0/55296, 277.0/14336};
     cblas_dgemv( CblasColMajor, CblasNoTrans,
                  (int)n, (int)5,
                  dt, k, (int)n,
-- 
2.43.0


From 4ab1ecce5e6de01b918da5ad8aa8701d2a806fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:39 +0000
Subject: [PATCH 023/148] fix: Dormand-Prince step evaluated one stage at the
 wrong time

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index e871adc..1485335 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -481,7 +481,7 @@ void aa_odestep_dorpri45( size_t n, aa_sys_fun sys, const void *cx,
         {35.0/384,       11.0/84.0,     500.0/1113,    125.0/192,  -2187.0/6784}
     };
 
-    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8/9, 1, 1};
+    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8.0/9, 1, 1};
 
     // k0 already has dx at x0
 
-- 
2.43.0


From 031c9e4c0717a0163ba7d0c51fe6ef48a4168081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:39 +0000
Subject: [PATCH 024/148] fix: adaptive integration never advanced time and
 reused a wrong derivative

---
 src/sigsys.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sigsys.c b/src/sigsys.c
index 1485335..deeb3eb 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -650,7 +650,9 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
         sys( sys_cx, t0, x0, k );
 
         for(;;) {
+            double dt_step; /* size of the accepted step */
             for(;;) { /* adaptive loop */
+                dt_step = dt;
                 adaptive_integrator( n, sys, sys_cx,
                                      t, dt,
                                      px0, k, px1, px2 );
@@ -665,6 +667,10 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 break;
             }
 
+            t += dt_step;
+            /* Derivative at the new state, not all methods provide it in k */
+            sys( sys_cx, t, px2, kn );
+
             /* Check if complete */
             if( (check_result = check( check_cx, t, px2, kn)) ) {
                 AA_MEM_CPY(x1, px2, n);
-- 
2.43.0


From d11831463962a104870ce9aa9f2e845cebc9f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:34 +0000
Subject: [PATCH 025/148] fix: small-angle series of the rotation and transform
 matrix exponentials

---
 src/tf/tfmatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/tfmatrix.c b/src/tf/tfmatrix.c
index f95979c..d5b1435 100644
--- a/src/tf/tfmatrix.c
+++ b/src/tf/tfmatrix.c
@@ -269,7 +269,7 @@ aa_tf_rotmat_expv( const double rv[AA_RESTRICT 4], double E[9] )
 
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
     } else {
         double s = sin(theta), c = cos(theta);
         sc = s/theta;
@@ -703,7 +703,7 @@ aa_tf_tfmat_expv( const double v[AA_RESTRICT 6],
     double sc, cc, ssc;
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
         ssc = aa_horner3( theta2, 1./6, -1./120, 1./5040 );
     } else {
         double s = sin(theta), c = cos(theta);
-- 
2.43.0


From 8de0ba2c82932a60566d09e35d6294f773043311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:34 +0000
Subject: [PATCH 026/148] fix: rotation vector of the negated identity
 quaternion was not a number

---
 src/tf/conv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tf/conv.c b/src/tf/conv.c
index 5c7737e..c7b88c2 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -245,6 +245,8 @@ aa_tf_quat2rotvec( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 3] )
     double a;
     if (theta < sqrt(sqrt(DBL_EPSILON))) {
         a = 2*aa_tf_invsinc_series(theta);
+    } else if( 0 == qs ) {
+        a = 0; /* full turn, about any axis */
     } else {
         a = 2*theta/qs;
     }
-- 
2.43.0


From d6a4f2e2355fbd1b823c12bc15d4853db70a62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:34 +0000
Subject: [PATCH 027/148] fix: quaternion to Euler angles at gimbal lock

---
 src/tf/conv.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tf/conv.c b/src/tf/conv.c
index c7b88c2..21130de 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -224,12 +224,22 @@ void aa_tf_quat2eulerzyx( const double q[restrict 4],
     double z = q[AA_TF_QUAT_Z] / n;
     double w = q[AA_TF_QUAT_W] / n;
 
-    /* roll*/
-    e[2] = atan2( 2.0*(w*x + y*z), 1.0 - 2.0*(x*x + y*y) );
+    double sp = 2.0*(w*y - x*z);
+    double r00 = 1.0 - 2.0*(y*y+z*z), r10 = 2*(w*z + x*y);
+    double cp = sqrt( r00*r00 + r10*r10 );
+
     /* pitch*/
-    e[1] = asin( 2.0*(w*y - x*z) );
-    /* yaw*/
-    e[0] = atan2( 2*(w*z + x*y), 1.0 - 2.0*(y*y+z*z) );
+    e[1] = atan2( sp, cp );
+    if( cp < sqrt(DBL_EPSILON) ) {
+        /* gimbal lock, only the sum or difference of roll and yaw is defined */
+        e[2] = 0;
+        e[0] = atan2( 2*(w*z - x*y), 1.0 - 2.0*(x*x + z*z) );
+    } else {
+        /* roll*/
+        e[2] = atan2( 2.0*(w*x + y*z), 1.0 - 2.0*(x*x + y*y) );
+        /* yaw*/
+        e[0] = atan2( r10, r00 );
+    }
 }
 
 AA_API void
-- 
2.43.0


From 9dbe7c35b9051b60fb051d1ef421f5a8b787dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:34 +0000
Subject: [PATCH 028/148] fix: rotation matrix to Euler angles at gimbal lock

---
 src/tf.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/tf.c b/src/tf.c
index 2788a71..812513f 100644
--- a/src/tf.c
+++ b/src/tf.c
@@ -419,14 +419,17 @@ AA_API void aa_tf_axang2rotmat2( const double axis[AA_RESTRICT 3],
 void aa_tf_rotmat2eulerzyx( const double R[restrict 9],
                             double e[restrict 3] ) {
     double a, b, g, cb;
-    b = atan2( -AA_MATREF(R,3,2,0),
-               sqrt( aa_fsq( AA_MATREF(R,3,0,0) ) +
-                     aa_fsq( AA_MATREF(R,3,1,0) ) ) );
-    cb = cos(b);
-    a = atan2( AA_MATREF( R,3,1,0) / cb,
-               AA_MATREF( R,3,0,0) / cb );
-    g = atan2( AA_MATREF( R,3,2,1) / cb,
-               AA_MATREF( R,3,2,2) / cb );
+    cb = sqrt( aa_fsq( AA_MATREF(R,3,0,0) ) +
+               aa_fsq( AA_MATREF(R,3,1,0) ) );
+    b = atan2( -AA_MATREF(R,3,2,0), cb );
+    if( cb < sqrt(DBL_EPSILON) ) {
+        /* gimbal lock, only the sum or difference of a and g is defined */
+        a = atan2( -AA_MATREF( R,3,0,1), AA_MATREF( R,3,1,1) );
+        g = 0;
+    } else {
+        a = atan2( AA_MATREF( R,3,1,0), AA_MATREF( R,3,0,0) );
+        g = atan2( AA_MATREF( R,3,2,1), AA_MATREF( R,3,2,2) );
+    }
     e[0] = a;
     e[1] = b;
     e[2] = g;
-- 
2.43.0


From 22263c0298b264c7b5a5f67431345bae3f74ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:34 +0000
Subject: [PATCH 029/148] fix: rotation between nearly parallel or opposite
 directions

---
 src/tf/quat_ord.c | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 255db03..ceeee31 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -957,7 +957,9 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
 
     double cc = aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]);
 
-    if( cc / nuv < sqrt_epsilon ) {
+    if( uv < 0 && cc < DBL_EPSILON*nu*nv ) {
+
+        /* Opposite directions: half turn about any orthogonal axis */
 
         /* Find a differently-pointed vector */
         double fx=fabs(u[0]);
@@ -972,30 +974,9 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
             (fy > fz ? a_z : a_y) :
             (fx > fz ? a_z : a_x);
 
-        /* Get the quaternion axis */
-        /* TODO: verify axis direction */
-        double au[3];
-        double av[3];
-        aa_tf_cross( u, ar, au);
-        if( uv > 0 ) {
-            aa_tf_cross( v, ar, av);
-        } else {
-            aa_tf_cross( ar, v, av);
-        }
-        /* average axis from u and v */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] = au[i]+av[i];
-
-        /* Get the euclidean angle */
-        double theta = atan2(cc,uv); /* euclidean angle */
-        double qtheta = theta/2;
-
-        double s = sin( qtheta );
-        double m = s / sqrt(aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]));
-
-        /* scale axis by sign / magnitude */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] *= m;
-
-        q[AA_TF_QUAT_W] = cos(qtheta);
+        aa_tf_cross( u, ar, &q[AA_TF_QUAT_X] );
+        aa_tf_vnormalize( &q[AA_TF_QUAT_X] );
+        q[AA_TF_QUAT_W] = 0;
 
     } else {
         q[AA_TF_QUAT_W] = uv + nuv;
-- 
2.43.0


From 1da19595f597e0b50e42f6510a8949257fdf6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:59 +0000
Subject: [PATCH 030/148] fix: matrix logarithm near a half turn could be
 longer than pi

---
 src/tf/tfmatrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tf/tfmatrix.c b/src/tf/tfmatrix.c
index d5b1435..f6b5716 100644
--- a/src/tf/tfmatrix.c
+++ b/src/tf/tfmatrix.c
@@ -371,6 +371,7 @@ AA_API void aa_tf_rotmat_lnv(const double R[AA_RESTRICT 9],
         double *q_v = q + AA_TF_QUAT_V;
         double *q_w = &q[AA_TF_QUAT_W];
         rotmat_q(R, q);
+        aa_tf_qminimize(q);
 
         double qs = sqrt(dot3(q_v, q_v));
         double qtheta = atan2(qs, *q_w);
@@ -738,6 +739,7 @@ aa_tf_tfmat_lnv( const double T[AA_RESTRICT 12],
 
         double q[4];
         rotmat_q(R, q);
+        aa_tf_qminimize(q);
 
         /* quaterion-vector logarithm */
         const double *q_v = q + AA_TF_QUAT_V;
-- 
2.43.0


From 73eadbbcc1bc9c4c96613612928a53851072941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:22 +0000
Subject: [PATCH 031/148] fix: dual quaternion normalisation ignored the dual
 part of the norm

---
 src/tf/quat_duqu.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tf/quat_duqu.c b/src/tf/quat_duqu.c
index 71deacf..9b56812 100644
--- a/src/tf/quat_duqu.c
+++ b/src/tf/quat_duqu.c
@@ -162,8 +162,12 @@ aa_tf_duqu_mulc( const double a[AA_RESTRICT 8], const double b[AA_RESTRICT 8],
 AA_API void
 aa_tf_duqu_normalize( double S[8] )
 {
-    double n = aa_tf_qnorm(S+AA_TF_DUQU_REAL);
-    FOR_DUQU(i) S[i] /= n;
+    double nr, nd;
+    aa_tf_duqu_norm( S, &nr, &nd );
+    FOR_DUQU(i) S[i] /= nr;
+    /* remove the dual part of the norm */
+    nd /= nr;
+    FOR_QUAT(i) S[AA_TF_DUQU_DUAL+i] -= nd * S[AA_TF_DUQU_REAL+i];
 }
 
 
-- 
2.43.0


From 6ddba23292bfc2df795a62aa3963d76bfaf83a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:22 +0000
Subject: [PATCH 032/148] fix: dual norm of a dual quaternion's vector part
 included the scalar part

---
 src/tf/quat_duqu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tf/quat_duqu.c b/src/tf/quat_duqu.c
index 9b56812..953d056 100644
--- a/src/tf/quat_duqu.c
+++ b/src/tf/quat_duqu.c
@@ -185,7 +185,7 @@ aa_tf_duqu_vnorm( const double S[AA_RESTRICT 8],
                  double * AA_RESTRICT nreal, double * AA_RESTRICT  ndual )
 {
     *nreal = aa_tf_qvnorm(S+AA_TF_DUQU_REAL);
-    *ndual = aa_tf_qdot(S+AA_TF_DUQU_REAL_X, S+AA_TF_DUQU_DUAL_X) / *nreal;
+    *ndual = aa_tf_vdot(S+AA_TF_DUQU_REAL_XYZ, S+AA_TF_DUQU_DUAL_XYZ) / *nreal;
 }
 
 AA_API void
-- 
2.43.0


From 3ea5b96c4cdb599abb682e057a45bd97d04d4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:33 +0000
Subject: [PATCH 033/148] fix: aa_tf_qexp_n ignored the scalar part for a small
 vector part

---
 src/tf/quat_ord.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index ceeee31..ebd1067 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -424,15 +424,15 @@ aa_tf_qexp_n( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 4] )
     double phi = aa_cla_dlapy3( q[AA_TF_QUAT_X],
                                 q[AA_TF_QUAT_Y],
                                 q[AA_TF_QUAT_Z] );
+    double ew = exp(q[AA_TF_QUAT_W]);
     if( phi < DBL_EPSILON ) {
-        FOR_VEC(i) r_v[i] = 0;
-        r[AA_TF_QUAT_W] = 1;
+        FOR_VEC(i) r_v[i] = ew*q_v[i];
+        r[AA_TF_QUAT_W] = ew;
     } else {
         double s = sin(phi);
         double c = cos(phi);
         double sc = s/phi;
 
-        double ew = exp(q[AA_TF_QUAT_W]);
         r[AA_TF_QUAT_W] = ew*c;
 
         FOR_VEC(i) r_v[i] = ew*sc*q_v[i];
-- 
2.43.0


From 8f7eb0f5d7714aa9b5d6ee897f1459802f5dc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 034/148] fix: logarithm of a (dual) quaternion with real part
 minus one was not a number

---
 src/tf/quat_duqu.c | 10 ++++++++++
 src/tf/quat_ord.c  |  9 +++++++++
 src/tf/quat_qutr.c |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/tf/quat_duqu.c b/src/tf/quat_duqu.c
index 953d056..2fef950 100644
--- a/src/tf/quat_duqu.c
+++ b/src/tf/quat_duqu.c
@@ -388,6 +388,16 @@ aa_tf_duqu_ln( const double S[AA_RESTRICT 8], double lnS[AA_RESTRICT 8] )
     double nr = sqrt(vv);                   /* nr is positive */
     double phi = atan2( nr, S[AA_TF_DUQU_REAL_W] ); /* phi is always positive */
 
+    if( 0 == nr && S[AA_TF_DUQU_REAL_W] < 0 ) {
+        /* full turn: turn around the dual vector */
+        const double *d_v = S+AA_TF_DUQU_DUAL_XYZ;
+        double nd = aa_tf_vnorm(d_v);
+        FOR_VEC(i) lnS[AA_TF_DUQU_REAL_XYZ+i] = (nd > 0) ? M_PI*d_v[i]/nd : 0;
+        if( !(nd > 0) ) lnS[AA_TF_DUQU_REAL_X] = M_PI;
+        FOR_VEC(i) lnS[AA_TF_DUQU_DUAL_XYZ+i] = -d_v[i]/mr;
+        return;
+    }
+
     /* Try to avoid small number division */
     double k_r, zeta;
     if( phi < DBL_EPSILON )  {
diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index ebd1067..361fa70 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -451,6 +451,15 @@ aa_tf_qln( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 4] )
     vnorm = sqrt(vv);          /* for unit quaternions, vnorm = sin(phi) */
     phi = atan2(vnorm, q_w); /* always positive */
 
+    if( 0 == vnorm && q_w < 0 ) {
+        /* negative real: any axis will do */
+        r[AA_TF_QUAT_X] = M_PI;
+        r[AA_TF_QUAT_Y] = 0;
+        r[AA_TF_QUAT_Z] = 0;
+        r[AA_TF_QUAT_W] = log(qnorm);
+        return;
+    }
+
     if( phi < sqrt(sqrt(DBL_EPSILON)) ) {
         a = aa_tf_invsinc_series(phi)/qnorm; /* approx. 1/qnorm */
     } else {
diff --git a/src/tf/quat_qutr.c b/src/tf/quat_qutr.c
index a7d23b5..b037335 100644
--- a/src/tf/quat_qutr.c
+++ b/src/tf/quat_qutr.c
@@ -216,6 +216,15 @@ void aa_tf_qv_lnv
     double phi = atan2(s,c);
     double phi2 = phi*phi;
 
+    if( 0 == s && c < 0 ) {
+        /* full turn: turn around the translation */
+        double n = aa_tf_vnorm(v);
+        FOR_VEC(i) w[i] = (n > 0) ? M_PI*v[i]/n : 0;
+        if( !(n > 0) ) w[0] = M_PI;
+        FOR_VEC(i) dv[i] = v[i]/2;
+        return;
+    }
+
     if( phi < sqrt(DBL_EPSILON) ) {
         isc = aa_tf_invsinc_series2(phi2);
         m_d = aa_horner3( phi2, 1.0/3, 1.0/45, 2.0/945 );
-- 
2.43.0


From 6da82c55c85636635706090ec65f11492f6a6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:54 +0000
Subject: [PATCH 035/148] fix: Jacobian of the dual quaternion logarithm lost
 all precision at small angles

The closed form divides differences of nearly equal numbers by the square of
the angle; use the series below the same angle as the logarithm does.
---
 src/tf/quat_pde.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/quat_pde.c b/src/tf/quat_pde.c
index e7efbd3..cbe841a 100644
--- a/src/tf/quat_pde.c
+++ b/src/tf/quat_pde.c
@@ -82,7 +82,7 @@ aa_tf_qln_jac(const double q[4], struct aa_dmat *J )
     double theta = atan2(v_norm,w);
 
     double eta, zeta;
-    if( theta < DBL_EPSILON )  {
+    if( theta < sqrt_sqrt_epsilon )  {
         eta = aa_tf_invsinc_series2(theta*theta)/q_norm;
         zeta = aa_horner3( theta*theta, -2.0/3.0, -1.0/5.0, -17.0/420.0 ) / q3;
     } else {
@@ -132,7 +132,7 @@ aa_tf_duqu_ln_jac(const double S[8], struct aa_dmat *J )
     double theta = atan2(v_norm,w);
 
     double zeta, eta, mu;
-    if( theta < DBL_EPSILON )  {
+    if( theta < sqrt_sqrt_epsilon )  {
         double q3 = qq*q_norm;
         double q5 = q4*q_norm;
         eta = aa_tf_invsinc_series2(theta*theta)/q_norm;
-- 
2.43.0


From b10cdd2809751a2e14436a34948d71986e2d74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:54 +0000
Subject: [PATCH 036/148] fix: Jacobian of the unit quaternion logarithm was
 not a number at the identity

---
 src/tf/quat_ord.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 361fa70..900c374 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -691,6 +691,14 @@ static void qjuln(
     double s2 = aa_tf_vdot(q,q);
     double s = sqrt(s2);
     double phi = atan2(s, w); // always positive
+
+    if( phi < DBL_EPSILON ) {
+        // limit as the vector part goes to zero
+        for( size_t i = 0; i < 12; i ++ ) J[i] = 0;
+        J[0] = J[4] = J[8] = 1;
+        return;
+    }
+
     double isc = phi/s;
     double a = isc/s2;
 
-- 
2.43.0


From 7063f9c3b8f844d357f22eca415622b98a984be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 037/148] fix: SLERP between a quaternion and nearly its
 negative was not a unit quaternion

---
 src/tf/quat_ord.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 900c374..454075f 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -577,11 +577,14 @@ aa_tf_qslerp_param( const double q1[AA_RESTRICT 4], const double q2[AA_RESTRICT
                     double *theta, double *d1, double *d2 )
 {
     *theta = fabs(aa_tf_quhypangle2(q1,q2));
-    *d1 = sin(*theta);
     if( *theta > M_PI_2 ) {
         *theta = M_PI - *theta;
+        /* sine of the reduced angle, so that it matches the angle used
+         * by the evaluation even when the angle is tiny */
+        *d1 = sin(*theta);
         *d2 = -*d1;
     } else {
+        *d1 = sin(*theta);
         *d2 = *d1;
     }
 }
-- 
2.43.0


From 045ebd2a6c3fd5a1857801a1a2183020bebdf305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 038/148] fix: chain rule derivative of SLERP

The rate of the angle between the quaternions follows from the derivative of
its cosine, not of its sine.  For equal quaternions the derivative was zero
even when they move.
---
 src/tf/quat_ord.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 454075f..9798957 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -909,9 +909,13 @@ AA_API void aa_tf_qslerpchaindiff(
     // TODO: test case
     double theta, d1, d2;
     aa_tf_qslerp_param(q1, q2, &theta, &d1, &d2);
-    if( aa_feq(theta, 0, 0) ) {
-        AA_MEM_ZERO(dq, 4);
-        AA_MEM_CPY(q, q1, 4);
+    if( theta < sqrt(DBL_EPSILON) ) {
+        // the arc coincides with its chord
+        const double s = (aa_tf_qdot(q1, q2) < 0) ? -1 : 1;
+        FOR_QUAT(i) {
+            q[i] = q1[i] + u*(s*q2[i] - q1[i]);
+            dq[i] = dq1[i] + u*(s*dq2[i] - dq1[i]) + du*(s*q2[i] - q1[i]);
+        }
         return;
     }
     //const double s = sin(theta);
@@ -921,8 +925,9 @@ AA_API void aa_tf_qslerpchaindiff(
     const double sb = sin(u*theta);
     const double cb = cos(u*theta);
 
-    const double dtheta_c = aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2);
-    const double dtheta =  dtheta_c / c;
+    // cos(theta) = +/- dot(q1,q2), with the sign of d2
+    const double dtheta = -(aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2)) / d2;
+    const double dtheta_c = dtheta * c;
 
     const double a = sa / d1;
     const double b = sb / d2;
-- 
2.43.0


From c57196bdf669a748ccbb17dc1641ef0ccf15ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 039/148] fix: two-link arm had no solution on the x axis or
 when stretched

The expressions divided by the second coordinate, and took the square root
of a negative rounding error for the straight or folded arm.
---
 src/kin.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/kin.c b/src/kin.c
index 8b61f70..50eedc0 100644
--- a/src/kin.c
+++ b/src/kin.c
@@ -42,6 +42,7 @@
 
 
 #include <amino.h>
+#include <float.h>
 
 
 AA_API int aa_kin_planar2_ik_theta2( const double l[2],
@@ -52,13 +53,22 @@ AA_API int aa_kin_planar2_ik_theta2( const double l[2],
     // help out the optimizer
     const double x1=x[0], x2=x[1], l1=l[0], l2=l[1];
 
-    theta_a[0] = atan2((x2*x2*x2*x2+x2*x2*x1*x1+x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))-l2*l2*x2*x2+x2*x2*l1*l1)/(x2*x2+x1*x1)/x2/l1, (x2*x2*x1+x1*x1*x1-l2*l2*x1+x1*l1*l1-sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l1);
+    const double r2 = x1*x1 + x2*x2;
 
-    theta_b[0] = atan2((x2*x2*x2*x2+x2*x2*x1*x1-x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))-l2*l2*x2*x2+x2*x2*l1*l1)/(x2*x2+x1*x1)/x2/l1, (x2*x2*x1+x1*x1*x1-l2*l2*x1+x1*l1*l1+sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l1);
+    // D is four times the area of the triangle of links and target.
+    // It is zero when the arm is straight or folded, up to rounding.
+    const double lmax = (l1+l2)*(l1+l2), lmin = (l1-l2)*(l1-l2);
+    double D2 = (r2 - lmin) * (lmax - r2);
+    if( D2 < 0 && D2 > -16*DBL_EPSILON*lmax*lmax ) D2 = 0;
+    const double D = (x2 < 0) ? -sqrt(D2) : sqrt(D2);
 
-      theta_a[1] = atan2((x2*x2*x1*x1-x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))+l2*l2*x2*x2+x2*x2*x2*x2-x2*x2*l1*l1)/(x2*x2+x1*x1)/l2/x2, (l2*l2*x1-x1*l1*l1+x2*x2*x1+x1*x1*x1+sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l2);
+    const double K1 = r2 + l1*l1 - l2*l2;
+    const double K2 = r2 + l2*l2 - l1*l1;
 
-      theta_b[1] = atan2((x2*x2*x1*x1+x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))+l2*l2*x2*x2+x2*x2*x2*x2-x2*x2*l1*l1)/(x2*x2+x1*x1)/l2/x2, (l2*l2*x1-x1*l1*l1+x2*x2*x1+x1*x1*x1-sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l2);
+    theta_a[0] = atan2( x2*K1 + x1*D, x1*K1 - x2*D );
+    theta_b[0] = atan2( x2*K1 - x1*D, x1*K1 + x2*D );
+    theta_a[1] = atan2( x2*K2 - x1*D, x1*K2 + x2*D );
+    theta_b[1] = atan2( x2*K2 + x1*D, x1*K2 - x2*D );
 
       return
           !( aa_feq( l1*cos(theta_a[0]) + l2*cos(theta_a[1]), x1, .001 ) &&
-- 
2.43.0


From eb00a66abe7df1be1edb3d54dcc6f1b07342eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:34 +0000
Subject: [PATCH 040/148] fix: frames without rotation or translation read a
 null pointer

---
 src/rx/scenegraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index ba1a517..684eb43 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -69,8 +69,8 @@ SceneFrame::SceneFrame(
 {
     AA_MEM_CPY(E+AA_TF_QUTR_Q, q ? q : aa_tf_quat_ident, 4);
     AA_MEM_CPY(E+AA_TF_QUTR_V, v ? v : aa_tf_vec_ident, 3);
-    aa_tf_quat2rotmat(q,R);
-    aa_tf_qv2duqu(q,v,S);
+    aa_tf_quat2rotmat(E+AA_TF_QUTR_Q,R);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,E+AA_TF_QUTR_V,S);
 }
 
 SceneFrame::~SceneFrame( )
-- 
2.43.0


From 73fb0bea0b245d78fd96b0978a4c7c7532384b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:34 +0000
Subject: [PATCH 041/148] fix: new scene graphs have no configurations and are
 clean

---
 src/rx/scenegraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 684eb43..c62e495 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -267,8 +267,12 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 // }
 
 SceneGraph::SceneGraph()
-    : dirty_indices(0),
-      destructor(NULL)
+    : config_size(0),
+      destructor(NULL),
+      destructor_context(NULL),
+      dirty_indices(0),
+      dirty_collision(0),
+      dirty_gl(0)
 {}
 
 SceneGraph::~SceneGraph()
-- 
2.43.0


From 996467a6969f154294ac66d3ff2903f7c522c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:34 +0000
Subject: [PATCH 042/148] fix: matrix transform of a fixed frame wrote past its
 end

---
 src/rx/scenegraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index c62e495..35a5b80 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -164,7 +164,7 @@ void SceneFrameFixed::tfmat_rel( const double *q, double _T[12] )
 {
     (void)q;
     AA_MEM_CPY(_T + AA_TF_TFMAT_R, this->R, 9);
-    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 9);
+    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 3);
 }
 
 void SceneFrameFixed::duqu_rel( const double *q, double _S[8] )
-- 
2.43.0


From 8d23bac34979a3b03bfa9cb73befda296039f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:34 +0000
Subject: [PATCH 043/148] fix: prismatic joints as matrices and dual
 quaternions

---
 src/rx/scenegraph.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 35a5b80..d4536ea 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -191,22 +191,25 @@ void SceneFramePrismatic::tf_rel( const double *q, double _E[7] )
 
 void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )
 {
+    double x[3];
     double qo = q[this->config_index] + this->offset;
     AA_MEM_CPY( _T+AA_TF_TFMAT_R, R, 9 );
 
     for( size_t i = 0; i < 3; i ++ ) {
-        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
+        x[i] = qo*this->axis[i];
+    }
+    // the joint translates along its axis in the rotated frame
+    aa_tf_rotmat_rot( R, x, _T+AA_TF_TFMAT_V );
+    for( size_t i = 0; i < 3; i ++ ) {
+        _T[AA_TF_TFMAT_V+i] += E[AA_TF_QUTR_V+i];
     }
 }
 
 void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
 {
-    double qo = q[this->config_index] + this->offset;
-    double v[3];
-    for( size_t i = 0; i < 3; i ++ ) {
-        v[i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
-    }
-    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,S);
+    double Ej[7];
+    this->tf_rel( q, Ej );
+    aa_tf_qv2duqu( Ej+AA_TF_QUTR_Q, Ej+AA_TF_QUTR_V, _S );
 }
 
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
-- 
2.43.0


From 4bb70ea14e8f3380071b16a4e88076a65618b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:18 +0000
Subject: [PATCH 044/148] fix: allowed collisions referred to names of deleted
 frames

---
 include/amino/rx/scenegraph_internal.h |  2 +-
 src/rx/amino_fcl.cpp                   |  4 ++--
 src/rx/sg_api.cpp                      | 31 +++++++++++++++-----------
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index e89eba4..84ae1ff 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -201,7 +201,7 @@ struct SceneGraph  {
     size_t config_size;
 
     /** Set of allowable collision frames by name */
-    std::set<std::pair<const char*,const char*> > allowed;
+    std::set<std::pair<std::string,std::string> > allowed;
 
     /** List of allowable collisions by indices */
     std::vector<size_t> allowed_indices1;
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 64dc5e1..2596851 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -230,8 +230,8 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
     sg->allowed_indices2.clear();
 
     for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first));
-        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second));
+        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first.c_str()));
+        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second.c_str()));
     }
 
     aa_rx_sg_clean_collision(scene_graph);
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index ed58a4b..b5c96f7 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -202,13 +202,23 @@ AA_API void aa_rx_sg_rm_frame
     amino::SceneGraph *sg = scene_graph->sg;
     sg->dirty_indices = 1;
 
+    // forget the allowed collisions of the frame
+    for( auto a = sg->allowed.begin(); a != sg->allowed.end(); ) {
+        if( a->first == name || a->second == name ) {
+            a = sg->allowed.erase(a);
+            sg->dirty_collision = 1;
+        } else {
+            a++;
+        }
+    }
+
+    // the name may be that of the frame itself, delete it last
     auto itr = sg->frame_map.find(name);
     if( sg->frame_map.end() != itr ) {
         amino::SceneFrame *f = itr->second;
+        sg->frame_map.erase(itr);
         delete f;
     }
-
-    sg->frame_map.erase(name);
 }
 
 // AA_API void
@@ -800,7 +810,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
 
     // set allowed collision
     for (auto &pair : orig->sg->allowed){
-        aa_rx_sg_allow_collision_name(dest, pair.first, pair.second, 1);
+        aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
     // initialize sg
@@ -823,16 +833,11 @@ AA_API void
 aa_rx_sg_allow_collision_name( struct aa_rx_sg *scene_graph,
                                const char* frame0, const char* frame1, const int allowed )
 {
-    bool order = strcmp(frame0, frame1) <0;
-    const char *string0, *string1;
-    if (strcmp(frame0, frame1)<0){
-        string0 = scene_graph->sg->frame_map[frame0]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame1]->name.c_str();
-    } else {
-        string0 = scene_graph->sg->frame_map[frame1]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame0]->name.c_str();
-    }
-    std::pair<const char*, const char*> p(string0, string1);
+    // Keep our own copy of the names, frames may be removed or replaced
+    std::pair<std::string, std::string> p =
+        (strcmp(frame0, frame1) < 0)
+        ? std::make_pair(std::string(frame0), std::string(frame1))
+        : std::make_pair(std::string(frame1), std::string(frame0));
     if (allowed){
         scene_graph->sg->allowed.insert(p);
     } else {
-- 
2.43.0


From f3dee8956c77c1cc48837f8e1e985b72aa03cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:18 +0000
Subject: [PATCH 045/148] fix: copied scene graphs lost inertial data and freed
 limits wrongly

---
 src/rx/sg_api.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index b5c96f7..5b30a61 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -788,13 +788,17 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
             } break;
         }
         assert(f_new);
+        if( f->inertial ) {
+            f_new->inertial = AA_NEW(struct aa_rx_inertial);
+            *f_new->inertial = *f->inertial;
+        }
         dest->sg->add(f_new);
     }
 
     // set limits
     for( auto &pair : orig->sg->limits_map ) {
         if ( pair.second ) {
-            aa_rx_config_limits * nl = new aa_rx_config_limits();
+            aa_rx_config_limits * nl = AA_NEW0(struct aa_rx_config_limits);
             *nl = *pair.second;
             dest->sg->limits_map[pair.first] = nl;
         }else{
-- 
2.43.0


From e28064ff506ce25bf34e80ee64b2d80fd977a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:18 +0000
Subject: [PATCH 046/148] fix: config names past the last configuration

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 5b30a61..bf9d236 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -140,7 +140,7 @@ aa_rx_sg_config_name (
         case AA_RX_CONFIG_MULTI: return "MULTI";
         default:
             if (id < 0 ||
-                id >= (aa_rx_config_id)aa_rx_sg_frame_count(scene_graph)) {
+                id >= (aa_rx_config_id)aa_rx_sg_config_count(scene_graph)) {
                 return "NONE";
             }
             return scene_graph->sg->config_rmap[(size_t)id];
-- 
2.43.0


From 2dd1a9c87fb5c322c829c3a5a5c93b9ab3c4b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:18 +0000
Subject: [PATCH 047/148] fix: re-parented frames kept their old matrix and
 dual quaternion

---
 src/rx/sg_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index bf9d236..594a94c 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -743,6 +743,8 @@ AA_API void aa_rx_sg_reparent_name (const struct aa_rx_sg *scene_graph,
                   : new_parent );
 
     AA_MEM_CPY(f->E, E1, 7);
+    aa_tf_quat2rotmat( f->E+AA_TF_QUTR_Q, f->R );
+    aa_tf_qv2duqu( f->E+AA_TF_QUTR_Q, f->E+AA_TF_QUTR_V, f->S );
 
     scene_graph->sg->dirty_indices = 1;
 }
-- 
2.43.0


From 8591915912effc9facdfa230fa5884757e891ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:18 +0000
Subject: [PATCH 048/148] fix: bound of frame ids in forward kinematics

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 594a94c..5492ab2 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -907,7 +907,7 @@ aa_rx_fk_ref(const struct aa_rx_fk *fk, aa_rx_frame_id id)
 AA_API void
 aa_rx_fk_get_abs_qutr(const struct aa_rx_fk *fk, aa_rx_frame_id id, double E[7] )
 {
-    if( id < 0 || (size_t)id > aa_rx_fk_cnt(fk) ) {
+    if( id < 0 || (size_t)id >= aa_rx_fk_cnt(fk) ) {
         fprintf(stderr, "ERROR: Invalid frame id %d\n", id);
         abort();
         exit(EXIT_FAILURE);
-- 
2.43.0


From 49773d1ff2cb4d971753fb1f3beff56d40979443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:18 +0000
Subject: [PATCH 049/148] fix: forward kinematics of strided configuration
 vectors

---
 src/rx/sg_api.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 5492ab2..69e50fa 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -975,15 +975,26 @@ aa_rx_fk_all( struct aa_rx_fk *fk,
 
     amino::SceneGraph *sg = scenegraph->sg;
 
+    // frames index the configuration directly
+    struct aa_mem_region *reg = aa_mem_region_local_get();
+    struct aa_dvec *qc = NULL;
+    if( 1 != q->inc ) {
+        qc = aa_dvec_alloc(reg,q->len);
+        aa_dvec_copy(q,qc);
+    }
+    const double *q_data = qc ? qc->data : q->data;
+
     double E_rel[AA_RX_TF_LEN], *E_abs = fk->TF_abs;
     for( size_t i_frame = 0;
          i_frame < sg->frames.size();
          i_frame++, E_abs += AA_RX_FK_LD )
     {
         amino::SceneFrame *f = sg->frames[i_frame];
-        f->tf_rel( q->data, E_rel );
+        f->tf_rel( q_data, E_rel );
         aa_rx_fk_set_rel(fk,i_frame,E_rel);
     }
+
+    if( qc ) aa_mem_region_pop(reg,qc);
 }
 
 
-- 
2.43.0


From 50483313a14cbc397208f7d4caffde24012524a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:35 +0000
Subject: [PATCH 050/148] fix: revolute joints with a non-unit axis were not
 rotations

---
 src/rx/scenegraph.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index d4536ea..b74e2eb 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -212,11 +212,21 @@ void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
     aa_tf_qv2duqu( Ej+AA_TF_QUTR_Q, Ej+AA_TF_QUTR_V, _S );
 }
 
+/* Rotation about an axis, which scales the angle when not of unit length */
+static void revolute_quat( const double axis[3], double angle, double h[4] )
+{
+    double rv[3];
+    for( size_t i = 0; i < 3; i ++ ) {
+        rv[i] = angle*axis[i];
+    }
+    aa_tf_rotvec2quat( rv, h );
+}
+
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
 {
     double qo = q[this->config_index] + this->offset;
     double h[4];
-    aa_tf_axang2quat2( axis, qo, h );
+    revolute_quat( axis, qo, h );
     // TODO: can we elide when identify?
     // Maybe using a different frame type.
     aa_tf_qmul( E + AA_TF_QUTR_Q, h, _E + AA_TF_QUTR_Q );
@@ -228,7 +238,7 @@ void SceneFrameRevolute::duqu_rel( const double *q, double _S[8] )
 {
     double qo = q[this->config_index] + this->offset;
     double h[4],v2[3];
-    aa_tf_axang2quat2( axis, qo, h );
+    revolute_quat( axis, qo, h );
     // TODO: can we elide when identify?
     // Maybe using a different frame type.
 
@@ -246,8 +256,9 @@ void SceneFrameRevolute::duqu_rel( const double *q, double _S[8] )
 void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 {
     double qo = q[this->config_index] + this->offset;
-    double R1[9];
-    aa_tf_axang2rotmat2( axis, qo, R1 );
+    double h[4], R1[9];
+    revolute_quat( axis, qo, h );
+    aa_tf_quat2rotmat( h, R1 );
     // TODO: can we elide when identify?
     // Maybe using a different frame type.
     aa_tf_rotmat_mul( R, R1, _T + AA_TF_TFMAT_R );
-- 
2.43.0


From d742ea4322f45aa67b665912434637d0879b153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 051/148] fix: limits set after indexing were ignored

---
 src/rx/sg_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 69e50fa..e059df8 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -564,6 +564,10 @@ get_limits( struct aa_rx_sg *scenegraph,
     if( NULL == l ) {
         l = AA_NEW0(struct aa_rx_config_limits);
         sg->limits_map[config_name] = l;
+        // already indexed
+        if( ! sg->dirty_indices && sg->config_map.count(config_name) ) {
+            sg->limits[(size_t)sg->config_map[config_name]] = l;
+        }
     }
 
     return l;
-- 
2.43.0


From d7db30c1fe4b33dcfa11f5b23aff47a6063be883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:51 +0000
Subject: [PATCH 052/148] fix: allowed collisions kept the frame indices of the
 previous init

---
 include/amino/rx/scenegraph_internal.h |  1 +
 src/rx/amino_fcl.cpp                   |  9 +--------
 src/rx/scenegraph.cpp                  | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index 84ae1ff..dece0e4 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -177,6 +177,7 @@ struct SceneGraph  {
     ~SceneGraph();
 
     int index();
+    void index_allowed();
     void add(SceneFrame *f);
 
     /** Map from frame name to frame */
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 2596851..38b21ab 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -225,14 +225,7 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
 
     aa_rx_sg_map_geom( scene_graph, &cl_init_helper, scene_graph );
 
-    amino::SceneGraph *sg = scene_graph->sg;
-    sg->allowed_indices1.clear();
-    sg->allowed_indices2.clear();
-
-    for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first.c_str()));
-        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second.c_str()));
-    }
+    scene_graph->sg->index_allowed();
 
     aa_rx_sg_clean_collision(scene_graph);
 }
diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index b74e2eb..c36f08d 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -389,10 +389,26 @@ int SceneGraph::index()
         }
     }
 
+    // Frame indices may have changed
+    index_allowed();
+
     dirty_indices = 0;
     return 0;
 }
 
+void SceneGraph::index_allowed()
+{
+    allowed_indices1.clear();
+    allowed_indices2.clear();
+    for( auto &pair : allowed ) {
+        auto itr1 = frame_map.find(pair.first);
+        auto itr2 = frame_map.find(pair.second);
+        if( frame_map.end() != itr1 && frame_map.end() != itr2 ) {
+            allowed_indices1.push_back( (size_t)itr1->second->frame_id );
+            allowed_indices2.push_back( (size_t)itr2->second->frame_id );
+        }
+    }
+}
 
 void SceneGraph::add(SceneFrame *f)
 {
-- 
2.43.0


From a74df5cf014470533baa2e621a4191475bd379dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 053/148] fix: chains with multiple tips had no frames

---
 src/rx/scene_kin.c   | 5 ++++-
 src/rx/scene_sub.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index d52f811..bbac42d 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -359,7 +359,7 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     ssg->frame_count = aa_rx_sg_chain_multiple_frames( sg, root, n_tips,
                                                        tips, tmp, tmp_arr);
     ssg->frames = AA_MEM_DUP(aa_rx_frame_id, tmp_arr, ssg->frame_count);
-
+    free(tmp_arr);
 
     ssg->config_count = aa_rx_sg_chain_config_count( sg,
                                                      ssg->frame_count,
@@ -368,6 +368,9 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     aa_rx_sg_chain_configs( sg, ssg->frame_count, ssg->frames,
                             ssg->config_count, ssg->configs );
 
+    ssg->ees = AA_MEM_DUP(aa_rx_frame_id, tips, n_tips);
+    ssg->ee_count = n_tips;
+
     return ssg;
 }
 
diff --git a/src/rx/scene_sub.cpp b/src/rx/scene_sub.cpp
index 3edcb76..248b559 100644
--- a/src/rx/scene_sub.cpp
+++ b/src/rx/scene_sub.cpp
@@ -112,7 +112,7 @@ aa_rx_sg_chain_multiple_frames( const struct aa_rx_sg *sg,
     for(size_t i=0; i < n_tips; i ++){
 	aa_rx_frame_id tip = tips[i];
 	while( tip !=root && tip != AA_RX_FRAME_ROOT ){
-	    if (frames.find(tip) == frames.end()) break;
+	    if (frames.find(tip) != frames.end()) break;
 	    enum aa_rx_frame_type ft = aa_rx_sg_frame_type( sg, tip );
 	    switch(ft) {
 	    case AA_RX_FRAME_FIXED:
-- 
2.43.0


From fcbc99fe20b62790ad8ffa55ae61cb95aa616305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:31 +0000
Subject: [PATCH 054/148] fix: export aa_opt_lp_clp with the C linkage its
 header declares

---
 src/opt/opt_clp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 28e3473..b4312bf 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -37,7 +37,7 @@
 
 
 #include "amino.h"
-//#include "amino/opt/lp.h"
+#include "amino/opt/lp.h"
 #include "amino/opt/opt.h"
 #include "opt_internal.h"
 
@@ -347,7 +347,7 @@ AA_API struct aa_opt_cx* aa_opt_clp_crscreate (
 
 
 
-int aa_opt_lp_clp (
+AA_API int aa_opt_lp_clp (
     size_t m, size_t n,
     const double *A, size_t ldA,
     const double *b_lower, const double *b_upper,
-- 
2.43.0


From 59820cacfc22dacdba4ce377fba332c4d4237573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 055/148] fix: lp_solve rows no longer depend on the kinds of
 the constraint bounds

---
 src/opt/opt_lpsolve.c | 124 +++++++++---------------------------------
 1 file changed, 26 insertions(+), 98 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 809d496..2414277 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -180,38 +180,27 @@ s_set_bnd( struct aa_opt_cx *cx, size_t n,
     return 0;
 }
 
-static int s_count_rows( size_t m,
-                         const double *b_lower, const double *b_upper )
-{
-    int row_count = 0;
-    /* Count constraints */
-    for( size_t i = 0; i < m; i ++ ) {
-        int lb = aa_opt_is_lbound(b_lower[i]);
-        int ub = aa_opt_is_ubound(b_upper[i]);
-        if( !aa_opt_is_free(lb, ub) ) {
-            if( aa_opt_is_bound(lb,ub) ) {
-                row_count += 2;
-            } else {
-                row_count ++;
-            }
-        }
-    }
-    return row_count;
-}
+/* Each constraint takes two rows, one for its upper and one for its
+ * lower bound, so that the bounds may change freely between solves.
+ * The row of an absent bound is empty. */
 
-static int s_set_row( lprec *lp, int con_type,
+static int s_set_row( lprec *lp, int con_type, int is_bound,
                       size_t n, const double *A, size_t incA,
                       int ilp, double val )
 {
+    // set cstr
+    if( ! set_constr_type( lp, ilp, con_type ) ||
+        ! set_rh( lp, ilp, is_bound ? val : 0 ) )
+    {
+        return 0;
+    }
     // fill row
     for( size_t j = 0; j < n; j ++ ) {
-        double v = A[j*incA];
+        double v = is_bound ? A[j*incA] : 0;
         int col = 1 + (int)j;
-        set_mat( lp, ilp, col, v );
+        if( ! set_mat( lp, ilp, col, v ) ) return 0;
     }
-    // set cstr
-    set_rh(lp,ilp,val);
-    return  set_constr_type( lp, ilp, con_type );
+    return 1;
 }
 
 
@@ -222,60 +211,20 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
                const double *b_lower, const double *b_upper )
 {
     lprec *lp = (lprec*)cx->data;
-    int row_count = s_count_rows(m, b_lower, b_upper);
 
-
-    int ilp = 1;
     for( size_t i = 0; i < m; i ++ ) {
-        double rh = 0;
-        int con_type = 0;
+        double l=b_lower[i], u=b_upper[i];
+        int ilp = 1 + 2*(int)i;
+        if( ! s_set_row( lp, LE, aa_opt_is_ubound(u),
+                         n, A+i, ldA, ilp, u ) ||
+            ! s_set_row( lp, GE, aa_opt_is_lbound(l),
+                         n, A+i, ldA, ilp+1, l ) )
         {
-            double l=b_lower[i], u=b_upper[i];
-            int lb = aa_opt_is_lbound(l);
-            int ub = aa_opt_is_ubound(u);
-            if( !aa_opt_is_free(lb,ub) ) {
-                if( aa_feq(l,u,0) ) {
-                    // equality
-                    rh = u;
-                    con_type = EQ;
-                } else if ( aa_opt_is_leq(lb,ub) ) {
-                    // less than
-                    rh = u;
-                    con_type = LE;
-                } else if ( aa_opt_is_geq(lb,ub) ) {
-                    // greater than
-                    rh = l;
-                    con_type = GE;
-                } else if (aa_opt_is_bound(lb,ub) ) {
-                    // leq
-                    if( ! s_set_row( lp, LE,
-                                     n, A+i, ldA,
-                                     ilp, u ) ) {
-                        goto ERROR;
-                    }
-                    ilp++;
-                    // ge
-                    rh = l;
-                    con_type = GE;
-                } else {
-                    assert(0);
-                    goto ERROR;
-                }
-            }
-        }
-        if( ! s_set_row( lp, con_type,
-                         n, A+i, ldA,
-                         ilp, rh ) ) {
-            goto ERROR;
+            return -1;
         }
-        ilp++;
     }
-    assert( ilp == row_count + 1 );
 
     return 0;
-
-ERROR:
-    return -1;
 }
 
 
@@ -325,8 +274,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     //int mi = (int)m;
     int ni = (int)n;
 
-    int row_count = s_count_rows(m, b_lower, b_upper);
-    lprec *lp = make_lp(row_count, ni);
+    lprec *lp = make_lp(2*(int)m, ni);
     if( NULL == lp ) goto ERROR;
     set_verbose(lp, 1);
 
@@ -371,7 +319,6 @@ aa_opt_lpsolve_crscreate (
     /* A, b_l, b_u */
     set_add_rowmode(lp, TRUE);
     for( int i = 0; i < mi; i ++ ) {
-        double l=b_lower[i], u=b_upper[i];
         int start = A_row_ptr[i];
         int end = A_row_ptr[i + 1];
         int count = end - start;
@@ -381,30 +328,11 @@ aa_opt_lpsolve_crscreate (
         for( int j = 0; j < count; j ++ ) {
             inds[j] = raw_inds[j] + 1;
         }
-        double rh;
-        int con_type;
-        if( aa_feq(l,u,0) ) {
-            // equality
-            con_type = EQ;
-            rh = u;
-        } else {
-            int lb = aa_opt_is_lbound(l);
-            int ub = aa_opt_is_ubound(u);
-            if ( aa_opt_is_leq(lb,ub) )  {
-                // less than
-                con_type = LE;
-                rh = u;
-            } else if ( aa_opt_is_geq(lb,ub) )  {
-                rh = l;
-                con_type = GE;
-            } else {
-                // leq
-                add_constraintex(lp, count, vals, inds, LE, u);
-                con_type = GE;
-                rh = l;
-            }
-        }
-        add_constraintex(lp, count, vals, inds, con_type, rh);
+        double l=b_lower[i], u=b_upper[i];
+        int lb = aa_opt_is_lbound(l);
+        int ub = aa_opt_is_ubound(u);
+        add_constraintex(lp, ub ? count : 0, vals, inds, LE, ub ? u : 0);
+        add_constraintex(lp, lb ? count : 0, vals, inds, GE, lb ? l : 0);
     }
     set_add_rowmode(lp, FALSE);
 
-- 
2.43.0


From eca4a8ecf0b09274df0717f5538251974ffc7b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:40 +0000
Subject: [PATCH 056/148] fix: report lp_solve programs with unbounded
 variables as unsolved

---
 src/opt/opt_lpsolve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 2414277..374a453 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -94,6 +94,14 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     /* result */
     get_variables(lp,x);
 
+    /* lp_solve may set unbounded variables to infinity and still
+     * report success. */
+    if( OPTIMAL == r ) {
+        for( size_t j = 0; j < n; j ++ ) {
+            if( is_infinite(lp, x[j]) ) return UNBOUNDED;
+        }
+    }
+
     return r;
 }
 int s_destroy( struct aa_opt_cx *cx )
-- 
2.43.0


From cdddcffc0529618da5c78a23274d3e9362a102ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:40 +0000
Subject: [PATCH 057/148] fix: report infeasible and unbounded programs as
 failures with GLPK

---
 src/opt/opt_glpk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 58e16b2..a881ab1 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -71,12 +71,14 @@ static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     if( nb + ni > 0 ) {
         glp_simplex( lp, NULL );
         r = glp_intopt( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_mip_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_mip_col_val( lp, j+1 );
         }
     } else {
         r = glp_simplex( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_get_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_get_col_prim( lp, j+1 );
-- 
2.43.0


From eebdcc938a4e857bd652f3440934cdf25e3d606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:40 +0000
Subject: [PATCH 058/148] fix: leak of a context in aa_opt_glpk_crscreate

---
 src/opt/opt_glpk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index a881ab1..dbb1522 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -349,7 +349,7 @@ aa_opt_glpk_crscreate (
     }
 
 
-    return cx_finish( &s_vtab, lp );
+    return cx;
 }
 
 
-- 
2.43.0


From 4fec69047a2cda661baa4c2851058222ebfa201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 059/148] fix: lp_solve reports contradictory variable bounds
 as infeasible

---
 src/opt/opt_lpsolve.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 374a453..3a75892 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -183,7 +183,9 @@ s_set_bnd( struct aa_opt_cx *cx, size_t n,
 {
     lprec *lp = (lprec*)cx->data;
     for( size_t j = 0; j < n; j ++ ) {
-        set_bounds( lp, 1+(int)j, x_lower[j], x_upper[j] );
+        /* set_bounds() refuses contradictory bounds */
+        set_lowbo( lp, 1+(int)j, x_lower[j] );
+        set_upbo( lp, 1+(int)j, x_upper[j] );
     }
     return 0;
 }
@@ -261,11 +263,10 @@ s_finish (
     }
 
     /* l/u */
-    for( size_t j = 0; j < n; j ++ ) {
-        set_bounds( lp, 1+(int)j, x_lower[j], x_upper[j] );
-    }
+    struct aa_opt_cx *cx = cx_finish( &vtab, lp );
+    s_set_bnd( cx, n, x_lower, x_upper );
 
-    return cx_finish( &vtab, lp );
+    return cx;
 }
 
 
-- 
2.43.0


From c36a25c12a6eed5273cdfb20a487bb900f8978f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 060/148] fix: leak of a context in aa_opt_lpsolve_gmcreate

---
 src/opt/opt_lpsolve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 3a75892..d1e44ed 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -297,8 +297,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     s_set_cstr_gm( cx, m, n, A, ldA, b_lower, b_upper );
 
 
-    return s_finish(m,n,lp,
-                    c, x_lower, x_upper);
+    return cx;
 
 ERROR:
     if( lp ) {
-- 
2.43.0


From 730f3cd1878999a2381febb7a73678dd5858cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 061/148] fix: do not reuse an unsuitable lp_solve basis after
 an update

---
 src/opt/opt_lpsolve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index d1e44ed..7af51b7 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -88,6 +88,8 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 {
 
     lprec *lp = (lprec*)cx->data;
+    /* The basis of an earlier solve may not suit changed bounds */
+    default_basis(lp);
     int r = solve(lp);
     assert((int)n == get_Ncolumns(lp));
 
-- 
2.43.0


From 7d8f9a2f96065a3a9a4efb08f306aee78eb63e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 062/148] fix: GLPK fails after a constraint update that makes
 the basis singular

---
 src/opt/opt_glpk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index dbb1522..e4196fb 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -247,6 +247,8 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
 {
     s_set_cstr_mat_gm( cx, m, n, A, ldA );
     s_set_cstr_bnd( cx, m, b_lower, b_upper );
+    /* The current basis may be singular for the new matrix */
+    glp_std_basis( (glp_prob*)(cx->data) );
     return 0;
 }
 
-- 
2.43.0


From 84800d392253ad34459fbb2fda4f3c48d19e466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 063/148] fix: CLP reports success for unbounded programs after
 a constraint update

---
 src/opt/opt_clp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index b4312bf..6372894 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -207,6 +207,8 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
 {
     s_set_cstr_mat_gm( cx, m, n, A, lda );
     s_set_cstr_bnd( cx, m, b_lower, b_upper );
+    /* The current basis may not suit the new matrix */
+    static_cast<SolverType*>(cx->data)->allSlackBasis(true);
     return 0;
 }
 
-- 
2.43.0


From 8bb8939f3d82facef9c393268d558d4674784070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 064/148] fix: null-space projection of the constrained
 controller uses the wrong size

---
 src/rx/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index 549ebd8..d179ff3 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -347,7 +347,7 @@ aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *cx,
                      1.0, AA_VEC_ARGS(dq) );
 
         // Nullspace Projection
-        cblas_daxpy( (int)n_x,
+        cblas_daxpy( (int)n_q,
                      opt_x[n_x], A+(n_x*n_q), 1,
                      AA_VEC_ARGS(dq) );
 
-- 
2.43.0


From 076197328f23cd7ec0b06eeb4f74f92ea99412ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 065/148] fix: the documented IK algorithm setter is not
 defined

---
 src/rx/ik_opt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 6154efd..3e1fc45 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -98,6 +98,12 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 
 AA_DEF_SETTER( aa_rx_ik_parm, enum aa_rx_ik_algo, ik_algo )
 
+AA_API void
+aa_rx_ik_parm_set_algo( struct aa_rx_ik_parm *parm, enum aa_rx_ik_algo algo )
+{
+    aa_rx_ik_parm_set_ik_algo( parm, algo );
+}
+
 AA_DEF_SETTER( aa_rx_ik_parm, double, dt )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_angle )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_trans )
-- 
2.43.0


From 2c001cc77daf7027d016679f0edcd11a8a014415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 066/148] fix: finite-difference IK objective takes a dual
 quaternion logarithm of a quaternion

---
 src/rx/ik_nlopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 376b593..11022e1 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -323,7 +323,7 @@ static double s_nlobj_qv_fd_helper( void *vcx, const struct aa_dvec *x)
 
     double q_ln[4];
     aa_tf_qminimize(q_err);
-    aa_tf_duqu_ln(q_err, q_ln);
+    aa_tf_qln(q_err, q_ln);
 
     for(size_t i = 0; i < 3; i ++ ) v_err[i] = v_act[i] - v_ref[i];
 
-- 
2.43.0


From 566ab5062ed776b780dbd1924ad2ea88c7cdb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 067/148] fix: rejected IK requests leave memory on the region

---
 src/rx/scene_ik.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 69de973..9b8c83d 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -228,14 +228,15 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
         return AA_RX_INVALID_PARAMETER;
     }
 
-    /* Init Context */
-    struct kin_solve_cx *kcx = s_kin_solve_cx_alloc( context,
-                                                     aa_mem_region_local_get() );
-
     if( 1 != TF->cols )
     {   /* only chains */
         return AA_RX_INVALID_PARAMETER;
     }
+
+    /* Init Context */
+    struct kin_solve_cx *kcx = s_kin_solve_cx_alloc( context,
+                                                     aa_mem_region_local_get() );
+
     kcx->TF_ref = TF;
 
     /* aa_rx_sg_tf( kcx->ssg->scenegraph, */
-- 
2.43.0


From 2e0be8f404c892194a13eb3b7d83d499c8a5c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 068/148] fix: checking an IK solution ignores the poses
 outside the sub-scenegraph

---
 src/rx/scene_ik.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 9b8c83d..b993f46 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -395,10 +395,8 @@ aa_rx_ik_check( const struct aa_rx_ik_cx *cx,
     struct aa_mem_region *reg = aa_mem_region_local_get();
     void *ptrtop = aa_mem_region_ptr(reg);
 
-    struct aa_dvec *q_all = aa_dvec_dup(reg,cx->q_start);
-    aa_rx_sg_sub_config_scatter( cx->ssg, q_sub, q_all );
-
     struct aa_rx_fk *fk = aa_rx_fk_alloc(aa_rx_sg_sub_sg(cx->ssg), reg);
+    aa_rx_fk_cpy(fk, cx->fk);
     aa_rx_fk_sub(fk, cx->ssg, q_sub);
     double *E_act = aa_rx_fk_ref(fk, cx->frames[0]); // TODO: fix for multiple EEs
 
-- 
2.43.0


From f11d175c5e7a3eba3d2b08a8df2eafabef0d7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 069/148] fix: IK parameters leak their seed

---
 src/rx/ik_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 3e1fc45..2bf4c31 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -93,6 +93,7 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 {
     if( opts->dq_dt_data ) free( opts->dq_dt_data );
     if( opts->q_ref_data ) free( opts->q_ref_data );
+    if( opts->q_all_seed_data ) free( opts->q_all_seed_data );
     free(opts);
 }
 
-- 
2.43.0


From c05b0605c5f42fd06226a19be335a207c56c207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:50 +0000
Subject: [PATCH 070/148] fix: SQP inverse kinematics ignores the maximum
 iterations and may never return

---
 src/rx/ik_nlopt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 11022e1..80a61ad 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -46,6 +46,7 @@
  *
  */
 
+#include <limits.h>
 #include <nlopt.h>
 #include "amino.h"
 #include "amino/diffeq.h"
@@ -605,6 +606,8 @@ s_ik_nlopt( struct kin_solve_cx *cx,
         nlopt_set_ftol_rel(opt, cx->opts->tol_obj_rel );
     if( cx->opts->tol_dq >= 0 )
         nlopt_set_xtol_rel(opt, cx->opts->tol_dq );
+    if( cx->opts->max_iterations < INT_MAX )
+        nlopt_set_maxeval(opt, (int)cx->opts->max_iterations );
 
     double *lb = AA_MEM_REGION_NEW_N(reg,double,n_sub);
     double *ub = AA_MEM_REGION_NEW_N(reg,double,n_sub);
-- 
2.43.0


From 4b52ab90de2023c63eaa1b65112af1e45fde6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 071/148] fix: constant acceleration segments move the wrong
 way

---
 src/ct/traj.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c8847c4..952aa69 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -491,14 +491,15 @@ static int aa_ct_seg_ddq_eval( struct aa_ct_seg *seg,
     if( t >= cx->t0 && t <= cx->t1 ) {
         size_t n = AA_MIN( cx->n_q, state->n_q );
         double tt = t - cx->t0;
-        double q, dq, ddq, q0, dq0;
+        double q, dq, ddq;
         for( size_t i = 0; i < n; i ++ ) {
             ddq = cx->ddq[i];
             dq  = cx->dq0[i];
             q   =  cx->q0[i];
 
-            state->dq[i] = dq - tt * ddq;
-            state->q[i] = q + tt * dq - tt * tt * ddq/2;
+            if( state->q )   state->q[i] = q + tt * dq + tt * tt * ddq/2;
+            if( state->dq )  state->dq[i] = dq + tt * ddq;
+            if( state->ddq ) state->ddq[i] = ddq;
         }
         return AA_CT_SEG_IN;
     } else {
-- 
2.43.0


From 3d2cb87b1742446b90da73beedc43e3c8c7a4cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 072/148] fix: trapezoidal trajectories of several joints
 exceed their limits

---
 src/ct/traj.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 952aa69..c0c8e52 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -524,7 +524,7 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
     double dt = 0;
     double ta = 0;
     size_t n_q = AA_MIN(state0->n_q, state1->n_q);
-    double dqmax, ddqmax, dti, q0, q1;
+    double dqmax, ddqmax, q0, q1;
     double sign;
 
 
@@ -552,16 +552,30 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
         if(tai*ddqmax*sign > dqmax*sign){
             //To do a triangle we went too fast, need to do a trapazoid
             tai = dqmax/ddqmax;
-            double tb = ((q1-q0) - dqmax*tai)/dqmax;
-            dti = tb+2*tai;
-        }else{
-            dti = 2*tai;
         }
 
-        dt = AA_MAX(dt, dti);
         ta = AA_MAX(ta, tai);
     }
 
+    /* All configurations share the acceleration time, so find the
+     * time from the start of the acceleration to the start of the
+     * deceleration that keeps each one within its limits. */
+    double tc = ta;
+    for( size_t i = 0; i < n_q; i ++ ) {
+        q1 = state1->q[i];
+        q0 = state0->q[i];
+        if( q1 >= q0 ) {
+            dqmax  = limits->max->dq[i];
+            ddqmax = limits->max->ddq[i];
+        } else {
+            dqmax  = limits->min->dq[i];
+            ddqmax = limits->min->ddq[i];
+        }
+        tc = AA_MAX(tc, (q1-q0)/dqmax);
+        if( ta > 0 ) tc = AA_MAX(tc, (q1-q0)/(ddqmax*ta));
+    }
+    dt = ta + tc;
+
     /* Allocate */
     /* Accelearation segment */
     struct aa_ct_seg_ddq *a_cx = AA_MEM_REGION_NEW(reg,struct aa_ct_seg_ddq);
-- 
2.43.0


From 2a9a92e51c54609c785766e8c36862a5e6a5f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 073/148] fix: trapezoidal trajectory generation leaks

---
 src/ct/traj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c0c8e52..d01b024 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -679,7 +679,7 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
             fprintf(stderr,
                     "WARNING: mistmactched confiuration count during trajectory generation.\n");
         }
-        struct aa_ct_seg **seg_arr = AA_NEW_AR(aa_ct_seg*, 3);
+        struct aa_ct_seg *seg_arr[3];
 
         aa_ct_seg_trap_new( reg, segs->duration,
                             &(*itr0)->state, &(*itr1)->state,
-- 
2.43.0


From fadfc6d6f06b50e3f1c08af8451631f53d68c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 074/148] fix: trajectories cannot be evaluated at an earlier
 time than before

---
 src/ct/traj.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index d01b024..206d2ea 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -209,23 +209,30 @@ AA_API int
 aa_ct_seg_list_eval(struct aa_ct_seg_list *list, struct aa_ct_state *state,
                     double t)
 {
-    if (!list->it_on) {
-        list->it = list->list.begin();
-        list->it_on = 1;
-    }
+    /* Continue from the segment of the previous evaluation.  When the
+     * time is not found there, it may be earlier: start over. */
+    bool resumed = list->it_on;
+    for(;;) {
+        if (!list->it_on) {
+            list->it = list->list.begin();
+            list->it_on = 1;
+        }
 
-    do {
-        struct aa_ct_seg *seg = *list->it;
+        while (list->it != list->list.end()) {
+            struct aa_ct_seg *seg = *list->it;
 
-        int r;
-        if ((r = seg->eval(seg, state, t)))
-            return r;
+            int r;
+            if ((r = seg->eval(seg, state, t)))
+                return r;
 
-        list->it++;
-    } while (list->it != list->list.end());
+            list->it++;
+        }
 
-    list->it_on = 0;
-    return AA_CT_SEG_OUT;
+        list->it_on = 0;
+        if (!resumed)
+            return AA_CT_SEG_OUT;
+        resumed = false;
+    }
 }
 
 int aa_ct_seg_list_eval_q(struct aa_ct_seg_list *list, double t, size_t n, double *q)
-- 
2.43.0


From 50e194a7c4c2052a860bc35abec313b5e316dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 075/148] fix: linear segments do not report acceleration and
 require a position array

---
 src/ct/traj.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 206d2ea..1248c74 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -369,12 +369,17 @@ static int aa_ct_seg_dq_eval( struct aa_ct_seg *seg,
         if( state->dq ) {
             AA_MEM_CPY(state->dq, cx->dq, n);
         }
+        if( state->ddq ) {
+            AA_MEM_ZERO(state->ddq, n);
+        }
 
         return AA_CT_SEG_IN;
     } else {
         tt = cx->t1 - cx->t0;
-        for( size_t i = 0; i < n; i++ ) {
-            state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+        if( state->q ) {
+            for( size_t i = 0; i < n; i++ ) {
+                state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+            }
         }
         return AA_CT_SEG_OUT;
     }
-- 
2.43.0


From 5bc12f059dbbcb3e562afd1df429ef8f5cbdcd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 076/148] fix: parabolic blend evaluation ignores missing and
 short arrays of the state

---
 src/ct/traj.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 1248c74..86dea18 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -754,25 +754,29 @@ aa_ct_tj_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
     struct aa_ct_seg_pb_cx *c_cx, *p_cx, *n_cx;
     aa_ct_tj_pb_nbrs(seg, &p_cx, &c_cx, &n_cx);
 
+    size_t n_q = AA_MIN(c_cx->n_q, state->n_q);
     double dt = t - c_cx->t;
     if ((c_cx->t - c_cx->b / 2) <= t && t <= (c_cx->t + c_cx->b / 2)) {
         // Blend region
-        for (size_t i = 0; i < c_cx->n_q; i++) {
+        for (size_t i = 0; i < n_q; i++) {
             double p_dq = (p_cx) ? p_cx->dq[i] : 0;
 
-            state->q[i] = c_cx->q[i] + p_dq * dt + \
-                c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
-            state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
-            state->ddq[i] = c_cx->ddq[i];
+            if( state->q )
+                state->q[i] = c_cx->q[i] + p_dq * dt + \
+                    c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
+            if( state->dq )
+                state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
+            if( state->ddq )
+                state->ddq[i] = c_cx->ddq[i];
         }
 
     } else if (n_cx && ((c_cx->t + c_cx->b / 2) <= t
                         && t <= (c_cx->t + c_cx->dt - n_cx->b / 2))) {
         // Linear region
-        for (size_t i = 0; i < c_cx->n_q; i++) {
-            state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
-            state->dq[i] = c_cx->dq[i];
-            state->ddq[i] = 0;
+        for (size_t i = 0; i < n_q; i++) {
+            if( state->q )   state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
+            if( state->dq )  state->dq[i] = c_cx->dq[i];
+            if( state->ddq ) state->ddq[i] = 0;
         }
 
     } else {
@@ -962,11 +966,13 @@ aa_ct_tjX_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
     double *tq = state->q;
     double *tdq = state->dq;
     double *tddq = state->ddq;
+    size_t tn_q = state->n_q;
 
     double X[6], dX[6], ddX[6];
     state->q = X;
     state->dq = dX;
     state->ddq = ddX;
+    state->n_q = 6;
 
     int r = aa_ct_tj_pb_eval(seg, state, t);
 
@@ -980,6 +986,7 @@ aa_ct_tjX_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
     state->q = tq;
     state->dq = tdq;
     state->ddq = tddq;
+    state->n_q = tn_q;
 
     return r;
 }
-- 
2.43.0


From aa03c71e82df72cbbc37fe1197879d47a568a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 077/148] fix: workspace blend trajectories do not report
 velocity

---
 src/ct/traj.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 86dea18..9043c54 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -977,10 +977,16 @@ aa_ct_tjX_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
     int r = aa_ct_tj_pb_eval(seg, state, t);
 
     if (r) {
-        aa_tf_rotvec2quat(&state->q[3], state->X);
-        state->X[4] = state->q[0];
-        state->X[5] = state->q[1];
-        state->X[6] = state->q[2];
+        if( state->X ) {
+            aa_tf_rotvec2quat(&X[3], state->X);
+            state->X[4] = X[0];
+            state->X[5] = X[1];
+            state->X[6] = X[2];
+        }
+        if( state->dX ) {
+            AA_MEM_CPY(state->dX + AA_TF_DX_V, dX, 3);
+            aa_tf_rotvec_diff2vel(&X[3], &dX[3], state->dX + AA_TF_DX_W);
+        }
     }
 
     state->q = tq;
-- 
2.43.0


From 0d3c0d7b5faf4e520e3700adbe5f4a8815214156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 078/148] fix: workspace blend trajectory generation leaks

---
 src/ct/traj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 9043c54..3b214f9 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1048,6 +1048,8 @@ aa_ct_tjX_pb_generate(struct aa_mem_region *reg, struct aa_ct_pt_list *pt_list,
         c_seg->eval = aa_ct_tjX_pb_eval;
     }
 
+    aa_ct_pt_list_destroy(Xpt_list);
+
     return Xseg_list;
 }
 
-- 
2.43.0


From ecc5f7e18df69deaf915dc5e789a38623c3fa71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 079/148] fix: SLERP trajectories report every time as outside

---
 src/ct/traj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 3b214f9..8895354 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1194,7 +1194,7 @@ static int aa_ct_seg_slerp_eval( struct aa_ct_seg *seg,
     }
     if( state->ddX ) AA_MEM_ZERO(state->ddX,6);
     if( state->eff ) AA_MEM_ZERO(state->eff,6);
-    return 0;
+    return (0 <= t && t <= cx->dt) ? AA_CT_SEG_IN : AA_CT_SEG_OUT;
 }
 
 struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
-- 
2.43.0


From 05c7b5e413fbbc0bfa1aea1b304add14297704bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 080/148] fix: SLERP trajectories refer to the waypoint list
 after its destruction

---
 src/ct/traj.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 8895354..11ff4f5 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1211,9 +1211,9 @@ struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
         s->dt = 1;
 
         auto itr = list->list.begin();
-        s->E0 = (*itr)->state.X;
+        s->E0 = AA_MEM_REGION_DUP(reg, double, (*itr)->state.X, 7);
         itr++;
-        s->E1 = (*itr)->state.X;
+        s->E1 = AA_MEM_REGION_DUP(reg, double, (*itr)->state.X, 7);
 
         // omega
         double qt[4], ql[4];
-- 
2.43.0


From bd8ca91b4d5ac3ffae84fd9d56c5d5b8a8059fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 081/148] fix: SLERP trajectories have no configuration count
 and overrun the efforts of small states

---
 src/ct/traj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 11ff4f5..f64fd0e 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1193,7 +1193,7 @@ static int aa_ct_seg_slerp_eval( struct aa_ct_seg *seg,
         if( state->dX ) AA_MEM_CPY( state->dX, cx->dx, 6 );
     }
     if( state->ddX ) AA_MEM_ZERO(state->ddX,6);
-    if( state->eff ) AA_MEM_ZERO(state->eff,6);
+    if( state->eff ) AA_MEM_ZERO(state->eff,state->n_q);
     return (0 <= t && t <= cx->dt) ? AA_CT_SEG_IN : AA_CT_SEG_OUT;
 }
 
@@ -1234,6 +1234,7 @@ struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
     struct aa_ct_seg_list *segs  = new(reg) aa_ct_seg_list(reg);
     aa_ct_seg_list_add_cx(segs, aa_ct_seg_slerp_eval,  s);
     segs->duration = 1;
+    segs->n_q = 0;
 
     return segs;
 }
-- 
2.43.0


From 19decc2c1f9e3c06a451168ddcebc5a0c5207456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 082/148] fix: trajectory limits of unlimited joints are zero
 or uninitialised

---
 src/rx/rx_ct.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 9ed0ab7..21fbc6f 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -299,14 +299,18 @@ aa_rx_ct_sg_limits( struct aa_mem_region *region, const struct aa_rx_sg *sg )
     lim->max = aa_ct_state_alloc(region, n_q, 0);
 
     for( size_t i = 0; i < n_q; i ++ ) {
-        aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
-                               lim->min->q+i, lim->max->q+i);
-        aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
-                               lim->min->dq+i, lim->max->dq+i);
-        aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
-                               lim->min->ddq+i, lim->max->ddq+i);
-        aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
-                               lim->min->eff+i, lim->max->eff+i);
+        if( aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
+                                   lim->min->q+i, lim->max->q+i) )
+            set_inf( lim->min->q+i, lim->max->q+i );
+        if( aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
+                                   lim->min->dq+i, lim->max->dq+i) )
+            set_inf( lim->min->dq+i, lim->max->dq+i );
+        if( aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
+                                   lim->min->ddq+i, lim->max->ddq+i) )
+            set_inf( lim->min->ddq+i, lim->max->ddq+i );
+        if( aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
+                                   lim->min->eff+i, lim->max->eff+i) )
+            set_inf( lim->min->eff+i, lim->max->eff+i );
     }
 
     return lim;
-- 
2.43.0


From 5a52bdb4f048a3c5a9a58a5b98b7fcfde36c3726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 083/148] fix: trajectory states hold one number per frame
 transform

---
 src/ct/state.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ct/state.c b/src/ct/state.c
index 833c634..b910015 100644
--- a/src/ct/state.c
+++ b/src/ct/state.c
@@ -63,8 +63,8 @@ aa_ct_state_alloc(struct aa_mem_region *reg, size_t n_q, size_t n_tf )
     s->dX = AA_MEM_REGION_NEW_N(reg, double, 6);
     s->ddX = AA_MEM_REGION_NEW_N(reg, double, 6);
 
-    s->TF_abs = AA_MEM_REGION_NEW_N(reg, double, s->n_tf);
-    s->TF_rel = AA_MEM_REGION_NEW_N(reg, double, s->n_tf);
+    s->TF_abs = AA_MEM_REGION_NEW_N(reg, double, 7*s->n_tf);
+    s->TF_rel = AA_MEM_REGION_NEW_N(reg, double, 7*s->n_tf);
 
     return s;
 }
@@ -99,9 +99,9 @@ aa_ct_state_clone(struct aa_mem_region *reg, struct aa_ct_state *dest,
 
     dest->eff = state_clone_helper(reg, src->eff, src->n_q);
 
-    dest->TF_abs = state_clone_helper(reg, src->TF_abs, src->n_tf);
+    dest->TF_abs = state_clone_helper(reg, src->TF_abs, 7*src->n_tf);
 
-    dest->TF_rel = state_clone_helper(reg, src->TF_rel, src->n_tf);
+    dest->TF_rel = state_clone_helper(reg, src->TF_rel, 7*src->n_tf);
 }
 
 // TODO: Finish this
-- 
2.43.0


From 26528d38e1d55c3cbb4fd5d2d61d2c6c258ebe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:51 +0000
Subject: [PATCH 084/148] fix: plotting a trajectory evaluates into
 uninitialised arrays

---
 src/ct/traj.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index f64fd0e..c50f64f 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -300,6 +300,7 @@ aa_ct_seg_list_plot(struct aa_ct_seg_list *list, size_t n_q, double dt)
     FILE *dqtemp = fopen(dqfile, "w");
 
     struct aa_ct_state state;
+    AA_MEM_ZERO(&state,1);
     double q[n_q], dq[n_q];
     state.n_q = n_q;
     state.q = q;
-- 
2.43.0


From c7a099a61386831ab10f6cbd9ac8e3740e09b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:51 +0000
Subject: [PATCH 085/148] fix: continuity check rejects acceleration segments
 and misuses the memory region

---
 src/ct/traj.cpp | 70 +++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c50f64f..ef4d91a 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1074,6 +1074,29 @@ int aa_ct_seg_list_check( struct aa_ct_seg_list * segs, double dt,
 }
 
 
+/* Find the times between which a segment is evaluated. */
+static int
+aa_ct_seg_times( struct aa_ct_seg *seg, double *t0, double *t1 )
+{
+    if( AA_CT_LIN_SEG == seg->type ) {
+        struct aa_ct_seg_dq *cx = (struct aa_ct_seg_dq*)seg->cx;
+        *t0 = cx->t0;
+        *t1 = cx->t1;
+    } else if( AA_CT_ACCL_SEG == seg->type ) {
+        struct aa_ct_seg_ddq *cx = (struct aa_ct_seg_ddq*)seg->cx;
+        *t0 = cx->t0;
+        *t1 = cx->t1;
+    } else if( AA_CT_PB_SEG == seg->type ) {
+        struct aa_ct_seg_pb_cx *c_cx, *p_cx, *n_cx;
+        aa_ct_tj_pb_nbrs(seg, &p_cx, &c_cx, &n_cx);
+        *t0 = c_cx->t - c_cx->b / 2;
+        *t1 = n_cx ? c_cx->t + c_cx->dt - n_cx->b / 2 : c_cx->t + c_cx->b / 2;
+    } else {
+        return -1;
+    }
+    return 0;
+}
+
 int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
                              double tol, double eps )
 {
@@ -1081,10 +1104,12 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
     //   1. The max dist between two steps
     //   2. The max dist between end of one trajectory and beginning of another
     struct aa_mem_region *reg = aa_mem_region_local_get();
+    void *ptrtop = aa_mem_region_ptr(reg);
     size_t n_q = aa_ct_seg_list_n_q(segs);
     struct aa_ct_state *state0 = aa_ct_state_alloc(reg, n_q, 0);
     struct aa_ct_state *state1 = aa_ct_state_alloc(reg, n_q, 0);
     struct aa_ct_state *temp;
+    int r = 0;
 
     aa_ct_seg_list_eval(segs, state1, dt);
     for( double t0 = 0, t1 = dt; aa_ct_seg_list_eval(segs, state1, t1); t0 += dt, t1 += dt )
@@ -1100,9 +1125,10 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
         {
             // The max distance between two steps exceeded to given tolerance.
             fprintf(stderr, "WARNING: trajectory is not continious for seg type: %f, %f\n", state_diff, tol);
-            fprintf(stderr, "Vels: dq %f, %f ...\n", state0->dq[0], state0->dq[1]);
+            fprintf(stderr, "Vels: dq %f ...\n", state0->dq[0]);
             fprintf(stderr, "Times: t0: %f, t1: %f\n", t0, t1);
-            return 1;
+            r = 1;
+            goto END;
         }
 
         // Swap state0 to become state1, next loop will overwrite the old state0.
@@ -1111,29 +1137,22 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
         state1 = temp;
     }
 
-    struct aa_ct_seg *c_seg = segs->list.front();
-    for (; c_seg->next != NULL; c_seg = c_seg->next)
+    for (auto itr = segs->list.begin(); itr != segs->list.end(); itr++)
     {
-        if (c_seg->type == AA_CT_LIN_SEG)
-        {
-            struct aa_ct_seg_dq *p_cx, *c_cx, *n_cx;
-            aa_ct_tj_dq_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
-            c_seg->eval(c_seg, state0, c_cx->t1);
-            c_seg->next->eval(c_seg->next, state1, n_cx->t0);
+        struct aa_ct_seg *c_seg = *itr;
+        if (NULL == c_seg->next)
+            break;
 
-        }
-        else if (c_seg->type == AA_CT_PB_SEG)
-        {
-            struct aa_ct_seg_pb_cx *p_cx, *c_cx, *n_cx;
-            aa_ct_tj_pb_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
-            c_seg->eval(c_seg, state0, c_cx->t + c_cx->dt - n_cx->b / 2);
-            c_seg->next->eval(c_seg->next, state1, n_cx->t - n_cx->b / 2);
-        }
-        else
+        double c_t0, c_t1, n_t0, n_t1;
+        if (aa_ct_seg_times(c_seg, &c_t0, &c_t1)
+            || aa_ct_seg_times(c_seg->next, &n_t0, &n_t1))
         {
             // Why does the segment have a weird type?
-            return 3;
+            r = 3;
+            goto END;
         }
+        c_seg->eval(c_seg, state0, c_t1);
+        c_seg->next->eval(c_seg->next, state1, n_t0);
         double state_diff = 0.0;
         for (size_t i = 0; i < n_q; i++)
         {
@@ -1145,15 +1164,16 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             // Max distance between two segment endpoints exceed the given epsilon.
             fprintf(stderr, "WARNING: trajectory segment endpoints don't match for seg type %d: "
                     "%f, %f.\n", c_seg->type, state_diff, eps);
-            return 2;
+            r = 2;
+            goto END;
         }
     }
 
-    aa_mem_region_pop(reg, state0);
-    aa_mem_region_pop(reg, state1);
+END:
+    aa_mem_region_pop(reg, ptrtop);
 
-    // All good!
-    return 0;
+    // All good when zero.
+    return r;
 }
 
 
-- 
2.43.0


From 2f28a1af51ebfb62280f19352d8e05d3f919a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 086/148] fix: filling a collision set drops the entries that
 are only in the destination

---
 src/rx/collision_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index 2a86c3b..e1f0126 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -102,8 +102,8 @@ AA_API void
 aa_rx_cl_set_fill( struct aa_rx_cl_set *dst,
                    const struct aa_rx_cl_set *src )
 {
-    dst->v->assign( src->v->begin(),
-                    src->v->end() );
+    /* false entries in src leave dst alone */
+    aa_rx_cl_set_merge(dst, src);
 }
 
 AA_API int
-- 
2.43.0


From 36de217eee57d53374891463b15aa33725651462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 087/148] fix: merging collision sets loses pairs of a frame
 with itself

---
 src/rx/collision_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index e1f0126..7d6de18 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -131,7 +131,7 @@ aa_rx_cl_set_merge(struct aa_rx_cl_set* into, const struct aa_rx_cl_set* from){
     assert(n_f == (aa_rx_frame_id)from->n);
 
     for (aa_rx_frame_id i = 0; i<n_f; i++){
-        for (aa_rx_frame_id j=0; j<i; j++){
+        for (aa_rx_frame_id j=0; j<=i; j++){
             if (aa_rx_cl_set_get(from, i, j)) {
                 aa_rx_cl_set_set(into, i, j, 1);
             }
-- 
2.43.0


From 50aa1bcf8b69eb2bcd12bd06f69ba1353a8aa59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 088/148] fix: scaled cylinders collide at the wrong place

---
 src/rx/amino_fcl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 38b21ab..9542434 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -394,7 +394,8 @@ s_update_tf( const struct aa_rx_cl *cl,
          */
         if( AA_RX_CYLINDER == shape_type ) {
             struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
-            double E[7] = {0,0,0,1, 0,0, shape->height/2};
+            double scale = aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(geom));
+            double E[7] = {0,0,0,1, 0,0, scale*shape->height/2};
             double E1[7];
             aa_tf_qutr_mul(TF_obj, E, E1);
             obj->setTransform(amino::fcl::qutr2fcltf(E1));
-- 
2.43.0


From 973313abdd10ac0f796a13a58450284e77553788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:03 +0000
Subject: [PATCH 089/148] fix: closest points of a shape and a mesh are
 returned in the wrong order

---
 src/rx/amino_fcl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 9542434..9e8aa2e 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -658,9 +658,13 @@ cl_dist_callback( ::amino::fcl::CollisionObject *o1,
     double p0[3];
     double p1[3];
 
+    /* FCL may evaluate the objects in the opposite order */
+    const ::amino::fcl::CollisionGeometry *g1 = o1->collisionGeometry().get();
+    const ::amino::fcl::CollisionGeometry *g2 = o2->collisionGeometry().get();
+    int swap = (g1 != g2 && result.o1 == g2 && result.o2 == g1);
     for( size_t i = 0; i < 3; i ++){
-        p0[i]= result.nearest_points[0][i];
-        p1[i]= result.nearest_points[1][i];
+        p0[i]= result.nearest_points[swap ? 1 : 0][i];
+        p1[i]= result.nearest_points[swap ? 0 : 1][i];
     }
 
     if( min_dist <= 0 ) {
-- 
2.43.0


From 940c25110ea21bc317dfb5c05b93ba17b2eb119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 090/148] fix: distance checks miss spheres that overlap a mesh

---
 src/rx/amino_fcl.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 9e8aa2e..c827df6 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -667,14 +667,16 @@ cl_dist_callback( ::amino::fcl::CollisionObject *o1,
         p1[i]= result.nearest_points[swap ? 0 : 1][i];
     }
 
-    if( min_dist <= 0 ) {
+    // FCL does not set the distance of some overlapping objects
+    ::amino::fcl::CollisionRequest colRequest(1, true);
+    ::amino::fcl::CollisionResult colResult;
+    ::fcl::collide(o1, o2, colRequest, colResult);
+
+    if( colResult.isCollision() || min_dist <= 0 ) {
         min_dist = 0;
         data->in_collision = 1;
 
         // If we're in collision lets figure out where we are colliding
-        ::amino::fcl::CollisionRequest colRequest(1, true);
-        ::amino::fcl::CollisionResult colResult;
-        ::fcl::collide(o1, o2, colRequest, colResult);
 
         size_t numContacts = colResult.numContacts();
         for( size_t i = 0; i < numContacts; i++ ){
-- 
2.43.0


From 040cdd915a8eaebb3eb080e5a17127d45bc4eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:56 +0000
Subject: [PATCH 091/148] fix: closest points of a sphere and a mesh are in the
 wrong frames

---
 src/rx/amino_fcl.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index c827df6..0ae48d5 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -620,6 +620,27 @@ static void s_normalize_ids( aa_rx_frame_id *id1, aa_rx_frame_id *id2 )
 //     }
 // }
 
+/* FCL returns the closest points of a sphere and a mesh in their own
+ * frames, those of other objects in the world frame. */
+static void
+s_correct_sphere_points( ::amino::fcl::CollisionObject *o1,
+                         ::amino::fcl::CollisionObject *o2,
+                         double *p1, double *p2 )
+{
+    int sphere_mesh = (::fcl::GEOM_SPHERE == o1->getNodeType() &&
+                       ::fcl::OT_BVH == o2->getObjectType());
+    int mesh_sphere = (::fcl::GEOM_SPHERE == o2->getNodeType() &&
+                       ::fcl::OT_BVH == o1->getObjectType());
+    if( sphere_mesh || mesh_sphere ) {
+        ::amino::fcl::Vec3 v1 = o1->getTransform() * ::amino::fcl::Vec3(p1[0], p1[1], p1[2]);
+        ::amino::fcl::Vec3 v2 = o2->getTransform() * ::amino::fcl::Vec3(p2[0], p2[1], p2[2]);
+        for( size_t i = 0; i < 3; i ++ ) {
+            p1[i] = v1[i];
+            p2[i] = v2[i];
+        }
+    }
+}
+
 static bool
 cl_dist_callback( ::amino::fcl::CollisionObject *o1,
                   ::amino::fcl::CollisionObject *o2,
@@ -666,6 +687,7 @@ cl_dist_callback( ::amino::fcl::CollisionObject *o1,
         p0[i]= result.nearest_points[swap ? 1 : 0][i];
         p1[i]= result.nearest_points[swap ? 0 : 1][i];
     }
+    s_correct_sphere_points( o1, o2, p0, p1 );
 
     // FCL does not set the distance of some overlapping objects
     ::amino::fcl::CollisionRequest colRequest(1, true);
-- 
2.43.0


From c2a3019a311cf65b6b0570aef740d6955f848864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 092/148] fix: wavefront objects leak their texture coordinates

---
 src/wavefront/wf_obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 2438538..bf37fb9 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -150,6 +150,7 @@ aa_rx_wf_obj_destroy( struct aa_rx_wf_obj * obj)
 {
     free( obj->vertex.data );
     free( obj->normal.data );
+    free( obj->texture_vertex.data );
     free( obj->vertex_indices.data );
     free( obj->normal_indices.data );
     free( obj->uv_indices.data );
-- 
2.43.0


From 09dde1db4dcd9557ab0053f15ce2b3d22e4dd11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 093/148] fix: wavefront numbers lose their exponent and long
 fractions

---
 src/wavefront/wf_obj.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index bf37fb9..74fbc67 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -120,24 +120,35 @@ aa_rx_wf_parse_float( const char *str )
     /* skip blanks */
     while( *str &&  isblank(*str) ) str++;
 
-    char *e, *g;
-    double r = (double)strtol( str, &e, 10 );
-    long f = ('.' == *e)
-        ? strtol( e+1, &g, 10 )
-        : 0;
-
-    if( f ) {
-        long k = g - e - 1;
-        if( k ) {
-            double x = (double)f;
-            while(k--) x/=10;
-            if( r < 0 || ('-' == *str) )
-                r -= x;
-            else
-                r += x;
+    int neg = ('-' == *str);
+    if( neg ) str++;
+
+    /* significant digits and decimal exponent */
+    double r = 0;
+    long k = 0;
+    for( ; isdigit(*str); str++ ) {
+        if( r < 1e17 ) r = 10*r + (*str - '0');
+        else k++;
+    }
+    if( '.' == *str ) {
+        for( str++; isdigit(*str); str++ ) {
+            if( r < 1e17 ) {
+                r = 10*r + (*str - '0');
+                k--;
+            }
         }
     }
 
+    /* exponent */
+    if( 'e' == *str || 'd' == *str || 's' == *str ) {
+        k += strtol( str+1, NULL, 10 );
+    }
+
+    if( r <= 0 ) k = 0;
+    if( k < 0 ) r /= pow(10, (double)-k);
+    else if( k > 0 ) r *= pow(10, (double)k);
+    if( neg ) r = -r;
+
     /* printf("t: %s\n", str); */
     /* printf("r: %f\n", r); */
     /* printf("a: %f\n", atof(str)); */
-- 
2.43.0


From a5cdcf43217599ffa60fdd7b2b731be11b3e7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:14 +0000
Subject: [PATCH 094/148] fix: reading one past the last material file

---
 src/wavefront/wf_obj.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 74fbc67..977ddc2 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -251,7 +251,7 @@ aa_rx_wf_obj_mtl_count( struct aa_rx_wf_obj *obj )
 AA_API const char *
 aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl_files.size ) {
+    if( i < obj->mtl_files.size ) {
         return obj->mtl_files.data[i];
     } else {
         return NULL;
@@ -261,7 +261,7 @@ aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 AA_API const struct aa_rx_wf_mtl *
 aa_rx_wf_obj_get_mtl( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl.size ) {
+    if( i < obj->mtl.size ) {
         return obj->mtl.data[i];
     } else {
         return NULL;
-- 
2.43.0


From 0486cb2fb18e1a82698fb1bfa5dfd1f337bcd06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:32 +0000
Subject: [PATCH 095/148] fix: material values before the first material crash

---
 src/wavefront/mtl.l | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 30f22ce..84c8d99 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -60,6 +60,14 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* Values belong to a material */
+#define WF_MTL_REQUIRE                                                  \
+    if( NULL == WF_MTL_CURRENT ) {                                      \
+        fprintf(stderr, "Value without a material (%s:%d)\n",           \
+                yyextra->mtl->filename, yylineno);                      \
+        return -1;                                                      \
+    }
+
 %}
 
 %x EOL
@@ -119,6 +127,7 @@ START {MAYBE_BLANKS}
 
     /* Specular Weight */
 {START}"Ns"{BLANKS} {
+    WF_MTL_REQUIRE;
     BEGIN(NS);
 }
 
@@ -129,6 +138,7 @@ START {MAYBE_BLANKS}
 }
     /* Index of Refraction */
 {START}"Ni"{BLANKS} {
+    WF_MTL_REQUIRE;
     BEGIN(NI);
 }
 
@@ -157,6 +167,7 @@ START {MAYBE_BLANKS}
 
     /* Ambient */
 {START}"Ka"{BLANKS} {
+    WF_MTL_REQUIRE;
     yyextra->v = WF_MTL_CURRENT->ambient;
     BEGIN(KA);
     yy_push_state(V0, yyscanner );
@@ -170,6 +181,7 @@ START {MAYBE_BLANKS}
 
     /* Diffuse */
 {START}"Kd"{BLANKS} {
+    WF_MTL_REQUIRE;
     yyextra->v = WF_MTL_CURRENT->diffuse;
     BEGIN(KD);
     yy_push_state(V0, yyscanner );
@@ -182,6 +194,7 @@ START {MAYBE_BLANKS}
 
     /* Specular */
 {START}"Ks"{BLANKS} {
+    WF_MTL_REQUIRE;
     yyextra->v = WF_MTL_CURRENT->specular;
     BEGIN(KS);
     yy_push_state(V0, yyscanner );
@@ -195,6 +208,7 @@ START {MAYBE_BLANKS}
 
     /* Emission */
 {START}"Ke"{BLANKS} {
+    WF_MTL_REQUIRE;
     yyextra->v = WF_MTL_CURRENT->emission;
     BEGIN(KE);
     yy_push_state(V0, yyscanner );
@@ -209,6 +223,7 @@ START {MAYBE_BLANKS}
 
     /* alpha */
 {START}"d"{BLANKS} {
+    WF_MTL_REQUIRE;
     BEGIN(D);
 }
 
-- 
2.43.0


From d7f8acdf540d608f588f0cdbf26f1e37ac09a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:32 +0000
Subject: [PATCH 096/148] fix: wavefront objects continue incomplete lines on
 the next one

---
 src/wavefront/wavefront.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 0f62478..99d3077 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -313,7 +313,7 @@ START {MAYBE_BLANKS}
     /* Error */
     /* This rule needs to be last */
 
-<*>. {
+<*>.|\n {
     fprintf(stderr, "Unrecognized character: %s (%s:%d)\n",
                     yytext,
                     aa_rx_wf_obj_get_filename(yyextra->wf_obj),
-- 
2.43.0


From 2f293dd55a966d958fe95464613c0272f4dee3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:32 +0000
Subject: [PATCH 097/148] fix: wavefront materials continue incomplete lines on
 the next one

---
 src/wavefront/mtl.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 84c8d99..753db5b 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -244,7 +244,7 @@ START {MAYBE_BLANKS}
     /* Error */
     /* This rule needs to be last */
 
-<*>. {
+<*>.|\n {
     fprintf(stderr, "Unrecognized character: %s (%s:%d)\n", yytext, yyextra->mtl->filename, yylineno);
     return -1;
 }
-- 
2.43.0


From c663e04e144815d7938e4c6c5487bb1c5876319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:32 +0000
Subject: [PATCH 098/148] fix: wavefront objects that end within an element are
 accepted

---
 src/wavefront/wavefront.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 99d3077..11e314e 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -310,6 +310,14 @@ START {MAYBE_BLANKS}
 "l"{BLANKS}.* {
 }
 
+    /* End of file within a line */
+<MTLLIB,USEMTL,OBJECT,V0,V1,V2,VT0,VT1,VN0,VN1,VN2,FV0,FT0,FN0,FV1,FT1,FN1,FV2,FT2,FN2><<EOF>> {
+    fprintf(stderr, "Incomplete line (%s:%d)\n",
+                    aa_rx_wf_obj_get_filename(yyextra->wf_obj),
+                    yylineno);
+    return -1;
+}
+
     /* Error */
     /* This rule needs to be last */
 
-- 
2.43.0


From 8119f7ba6005aa68eec89641f40567eef8773a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:32 +0000
Subject: [PATCH 099/148] fix: material files without a final newline lose a
 color or accept an incomplete line

---
 src/wavefront/mtl.l | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 753db5b..4fbc2aa 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -241,6 +241,18 @@ START {MAYBE_BLANKS}
     /* TODO */
 }
 
+    /* End of file right after a color */
+<KA><<EOF>> { WF_MTL_CURRENT->has_ambient = 1; yyterminate(); }
+<KD><<EOF>> { WF_MTL_CURRENT->has_diffuse = 1; yyterminate(); }
+<KS><<EOF>> { WF_MTL_CURRENT->has_specular = 1; yyterminate(); }
+<KE><<EOF>> { WF_MTL_CURRENT->has_emission = 1; yyterminate(); }
+
+    /* End of file within a line */
+<NEWMTL,NS,NI,V0,V1,V2,D><<EOF>> {
+    fprintf(stderr, "Incomplete line (%s:%d)\n", yyextra->mtl->filename, yylineno);
+    return -1;
+}
+
     /* Error */
     /* This rule needs to be last */
 
-- 
2.43.0


From db5814f4e13f132a536947198aaa035de2750660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 100/148] fix: wavefront faces may refer to elements that do
 not exist

---
 include/wavefront_internal.h | 18 +++++++++++++++++-
 src/wavefront/wavefront.l    |  6 +++++-
 src/wavefront/wf_obj.c       | 26 ++++++++++++++++++++++++++
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/include/wavefront_internal.h b/include/wavefront_internal.h
index 7027ede..bf21341 100644
--- a/include/wavefront_internal.h
+++ b/include/wavefront_internal.h
@@ -59,7 +59,7 @@ struct wf_extra {
 
 
 #define WF_FACE(thing) yyextra->face.thing
-#define SET_WF_FACE(thing) WF_FACE(thing) = (int32_t)atol(yytext)-1
+#define SET_WF_FACE(thing) WF_FACE(thing) = aa_rx_wf_parse_index(yytext)
 #define SKIP_WF_FACE(thing) WF_FACE(thing) = AA_RX_WF_OBJ_FACE_NONE
 
 /**
@@ -170,4 +170,20 @@ aa_rx_wf_mtl_push( struct aa_rx_wf_mtl *mtl, const char *name );
 AA_API double
 aa_rx_wf_parse_float( const char *str );
 
+/**
+ * Parse a one-based reference into a zero-based index.
+ *
+ * Numbers that cannot be references give INT32_MAX.
+ */
+AA_API int32_t
+aa_rx_wf_parse_index( const char *str );
+
+/**
+ * Check that all faces refer to existing elements.
+ *
+ * @return 0 if so
+ */
+AA_API int
+aa_rx_wf_obj_check( const struct aa_rx_wf_obj *obj );
+
 #endif //AMINO_WAVEFRONT_H
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 11e314e..31be687 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -233,7 +233,6 @@ START {MAYBE_BLANKS}
 
 <FV0>{INT}"/" {
     /* Vertex 0 */
-    yyextra->face.v[0] = (int32_t)atol(yytext)-1;
     SET_WF_FACE(v[0]);
     BEGIN(FT0);
 }
@@ -355,6 +354,11 @@ aa_rx_wf_parse(const char *filename)
     aa_rx_wf_lex_destroy(scanner);
     fclose(in);
 
+    if( r >= 0 && aa_rx_wf_obj_check(we.wf_obj) ) {
+        fprintf(stderr, "Face refers to a missing element (%s)\n", filename);
+        r = -1;
+    }
+
     if( r < 0 ) {
         aa_rx_wf_obj_destroy(we.wf_obj);
         return NULL;
diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 977ddc2..fee1e71 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -156,6 +156,32 @@ aa_rx_wf_parse_float( const char *str )
     return r;
 }
 
+AA_API int32_t
+aa_rx_wf_parse_index( const char *str )
+{
+    long k = strtol( str, NULL, 10 );
+    return ( k < 1 || k > INT32_MAX ) ? INT32_MAX : (int32_t)(k-1);
+}
+
+static int check_indices( const ivec_type *v, size_t n, int optional )
+{
+    for( size_t i = 0; i < v->size; i ++ ) {
+        int32_t k = v->data[i];
+        if( optional && AA_RX_WF_OBJ_FACE_NONE == k ) continue;
+        if( k < 0 || (size_t)k >= n ) return -1;
+    }
+    return 0;
+}
+
+AA_API int
+aa_rx_wf_obj_check( const struct aa_rx_wf_obj *obj )
+{
+    return ( check_indices( &obj->vertex_indices, obj->vertex.size/3, 0 ) ||
+             check_indices( &obj->normal_indices, obj->normal.size/3, 0 ) ||
+             check_indices( &obj->uv_indices, obj->texture_vertex.size/2, 1 ) )
+        ? -1 : 0;
+}
+
 AA_API void
 aa_rx_wf_obj_destroy( struct aa_rx_wf_obj * obj)
 {
-- 
2.43.0


From 719bcc5fe544c8f0407ccb647a9b112fa03fd19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 101/148] fix: a directory as wavefront or material file ends
 the process

---
 src/wavefront/mtl.l       | 9 +++++++++
 src/wavefront/wavefront.l | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 4fbc2aa..6d59174 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -56,6 +56,7 @@
 %{
 
 #include <stdio.h>
+#include <sys/stat.h>
 
 #include "amino.h"
 #include "wavefront_internal.h"
@@ -272,6 +273,14 @@ aa_rx_wf_mtl_parse(const char *filename)
         return NULL;
     }
 
+    /* The scanner exits on read errors */
+    struct stat st;
+    if( fstat(fileno(in), &st) || S_ISDIR(st.st_mode) ) {
+        fprintf(stderr, "Could not read '%s'\n", filename);
+        fclose(in);
+        return NULL;
+    }
+
     yyscan_t scanner;
     aa_rx_wf_mtl_lex_init(&scanner);
     aa_rx_wf_mtl_set_in(in, scanner);
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 31be687..f8a92eb 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -54,6 +54,7 @@
 %{
 
 #include <stdio.h>
+#include <sys/stat.h>
 
 #include "amino.h"
 #include "wavefront_internal.h"
@@ -339,6 +340,14 @@ aa_rx_wf_parse(const char *filename)
         return NULL;
     }
 
+    /* The scanner exits on read errors */
+    struct stat st;
+    if( fstat(fileno(in), &st) || S_ISDIR(st.st_mode) ) {
+        fprintf(stderr, "Could not read '%s'\n", filename);
+        fclose(in);
+        return NULL;
+    }
+
     yyscan_t scanner;
     aa_rx_wf_lex_init(&scanner);
     aa_rx_wf_set_in(in, scanner);
-- 
2.43.0


From 603f31a09e1b0d61541b76ebed2a0315689aed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 102/148] fix: setting the start of a motion plan again keeps
 the earlier start

---
 src/rx/mp/scene_ompl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 6e0acd9..e679ebd 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -110,11 +110,11 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
 
-    // FIXME: Seems that there are problems if this is called repeatedly
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
 
-    /* Add Start State */
+    /* Replace Start State */
+    mp->problem_definition->clearStartStates();
     amino::sgSpaceInformation::ScopedStateType state(si);
     ss->extract_state( q_all, state.get() );
     mp->problem_definition->addStartState(state);
-- 
2.43.0


From cd3b6416d0a06bf6cd7bada2e1dd18aa4a8b7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 103/148] fix: planning again returns earlier plans

---
 src/rx/mp/scene_ompl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index e679ebd..6a3dd32 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -220,6 +220,10 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
         ompl::base::PlannerPtr(new ompl::geometric::RRTConnect(si)) :
         mp->planner;
 
+    /* Discard the results of earlier plans */
+    pdef->clearSolutionPaths();
+    planner->clear();
+
     planner->setProblemDefinition(pdef);
     try {
         if( mp->lazy_samples ) {
-- 
2.43.0


From fa6656f78e9390ab61fd7b64dab87f313c3ce651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 104/148] fix: replaced workspace goals are used after they
 were freed

---
 src/rx/mp/scene_ompl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 6a3dd32..0a22b2d 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -165,6 +165,7 @@ aa_rx_mp_set_goal( struct aa_rx_mp *mp,
     mp->validity_checker->allow();
     if( si->isValid( state.get() ) ) {
         mp->problem_definition->setGoalState(state);
+        mp->lazy_samples = NULL;
         return AA_RX_OK;
     } else {
         return AA_RX_INVALID_STATE;
-- 
2.43.0


From 29cf2aa3c4db093f354707c8fbfb23ee197a6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 105/148] fix: motion plans ignore that a collision is no
 longer allowed

---
 src/rx/mp/scene_state_validity_checker.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 1ad7daf..d8c9cf9 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -95,7 +95,13 @@ void sgStateValidityChecker::set_start( size_t n_q, double *q_initial)
 
 void sgStateValidityChecker::allow( )
 {
-    aa_rx_cl_allow_set( cl, getTypedStateSpace()->allowed );
+    const struct aa_rx_cl_set *allowed = getTypedStateSpace()->allowed;
+    aa_rx_frame_id n = (aa_rx_frame_id)getTypedStateSpace()->frame_count();
+    for( aa_rx_frame_id i = 0; i < n; i ++ ) {
+        for( aa_rx_frame_id j = 0; j < i; j ++ ) {
+            aa_rx_cl_allow( cl, i, j, aa_rx_cl_set_get(allowed,i,j) );
+        }
+    }
 }
 
 } /* namespace amino */
-- 
2.43.0


From e3c83376d1cdc088cc08927e04c484774e0bc46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 106/148] fix: plan sequences leak their elements

---
 src/rx/mp_seq.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp_seq.cpp b/src/rx/mp_seq.cpp
index e81d68b..f17938c 100644
--- a/src/rx/mp_seq.cpp
+++ b/src/rx/mp_seq.cpp
@@ -70,6 +70,7 @@ aa_rx_mp_seq_destroy( struct aa_rx_mp_seq * obj)
 {
     for( struct aa_rx_mp_seq_elt *elt : obj->data ) {
         free( elt->path );
+        free( elt );
     }
     delete obj;
 }
-- 
2.43.0


From 99e1b41a7854863adf8a7f865e17f6b4959b0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 107/148] fix: motion plans to a goal outside of the joint
 limits

---
 src/rx/mp/scene_state_validity_checker.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index d8c9cf9..5aafaf3 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -71,6 +71,9 @@ bool sgStateValidityChecker::isValid(const ompl::base::State *state) const
     size_t n_f = space->frame_count();
     int is_collision;
 
+    // check limits
+    if( !space->satisfiesBounds(state) ) return false;
+
     // check collision
     {
         std::lock_guard<std::mutex> lock(mutex);
-- 
2.43.0


From b8bb19190f971e1cbca8b782e1a7142f57eb0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 108/148] fix: goals set before the start are checked with
 uninitialized joints

---
 src/rx/mp/scene_state_validity_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 5aafaf3..00a7dc9 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -52,7 +52,7 @@ namespace amino {
 sgStateValidityChecker::sgStateValidityChecker(sgSpaceInformation *si)
     :
     TypedStateValidityChecker(si),
-    q_all(new double[getTypedStateSpace()->config_count_all()]),
+    q_all(new double[getTypedStateSpace()->config_count_all()]()),
     cl(aa_rx_cl_create(getTypedStateSpace()->scene_graph)),
     collisions(NULL)
 {
-- 
2.43.0


From 26f0f1846d1c02cf225f9548d6cc65a584a82577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:41 +0000
Subject: [PATCH 109/148] fix: planning to a workspace goal without a start
 crashes

---
 src/rx/mp/scene_ompl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 0a22b2d..9536488 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -215,6 +215,9 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
     *n_path = 0;
     *p_path_all = NULL;
 
+    /* Need a start */
+    if( NULL == mp->config_start ) return AA_RX_NO_SOLUTION | AA_RX_NO_MP;
+
     ompl::base::ProblemDefinitionPtr &pdef = mp->problem_definition;
 
     ompl::base::PlannerPtr planner = (NULL == mp->planner.get()) ?
-- 
2.43.0


From c9a19cc0beadc37c5c66ac250caa6fbb63ab340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 110/148] fix: planner and goal sampling thread race on the
 scratch memory

---
 include/amino/rx/ompl/scene_state_space.h | 4 +---
 src/rx/mp/scene_state_space.cpp           | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/amino/rx/ompl/scene_state_space.h b/include/amino/rx/ompl/scene_state_space.h
index b3776eb..0cbfd98 100644
--- a/include/amino/rx/ompl/scene_state_space.h
+++ b/include/amino/rx/ompl/scene_state_space.h
@@ -75,7 +75,6 @@ public:
      * Destroy the state space.
      */
     virtual ~sgStateSpace() {
-        aa_mem_region_destroy(&reg);
         aa_rx_cl_set_destroy(allowed);
     }
 
@@ -147,13 +146,12 @@ public:
     double * get_tf_abs( const ompl::base::State *state);
 
     void region_pop( void * ptr) {
-        aa_mem_region_pop(&this->reg, ptr);
+        aa_mem_region_pop(aa_mem_region_local_get(), ptr);
     }
 
     const aa_rx_sg *scene_graph;
     const aa_rx_sg_sub *sub_scene_graph;
     struct aa_rx_cl_set *allowed;
-    struct aa_mem_region reg;
 };
 
 typedef ::ompl::base::TypedSpaceInformation<amino::sgStateSpace> sgSpaceInformation;
diff --git a/src/rx/mp/scene_state_space.cpp b/src/rx/mp/scene_state_space.cpp
index 0d6596a..3ec7d4f 100644
--- a/src/rx/mp/scene_state_space.cpp
+++ b/src/rx/mp/scene_state_space.cpp
@@ -56,8 +56,6 @@ sgStateSpace::sgStateSpace( const struct aa_rx_sg_sub *sub_sg ) :
         ompl::base::RealVectorStateSpace((unsigned)aa_rx_sg_sub_config_count(sub_sg)),
         allowed(aa_rx_cl_set_create(scene_graph)) {
 
-        aa_mem_region_init(&reg, 4000);
-
         // TODO: get actual bounds
         size_t n_configs = config_count_subset();
         ompl::base::RealVectorBounds vb( (unsigned int)n_configs );
@@ -110,7 +108,7 @@ double * sgStateSpace::get_tf_abs( const ompl::base::State *state_, const double
 
     // Find TFs
     double TF_rel[7*n_f];
-    double *TF_abs = AA_MEM_REGION_NEW_N(&this->reg, double, 7*n_f);
+    double *TF_abs = AA_MEM_REGION_NEW_N(aa_mem_region_local_get(), double, 7*n_f);
     aa_rx_sg_tf( this->scene_graph, n_q, q,
                  n_f,
                  TF_rel, 7,
-- 
2.43.0


From 1bfbf272f379bbe364042c5270b65c9fea458979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 111/148] fix: calls into the window thread race, take each
 other's results or deadlock

---
 src/rx/sdl_win.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index ce8d2d6..12076c1 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -75,6 +75,7 @@ static void *(*s_handler)(void*) = NULL;
 static void *s_handler_arg = NULL;
 static void *s_handler_result = NULL;
 static unsigned s_handler_done = 0;
+static unsigned s_handler_pending = 0; /* number of waiting calls */
 
 static void s_lock(void);
 static void s_unlock(void);
@@ -128,14 +129,16 @@ aa_rx_win_call( void *(*function)(void*),
         || (s_loop_running && pthread_equal(s_thread_run, self_thread))
         )
     {
-        void *result = function(context);
+        /* The function may itself call window functions */
         s_unlock();
-        return result;
+        return function(context);
     }
 
     /* Else, install the handler for the window thread */
+    s_handler_pending++;
 
-    while( NULL != s_handler ) {
+    /* Wait till other calls are done and their results are collected */
+    while( NULL != s_handler || s_handler_done ) {
         s_wait();
     }
 
@@ -156,6 +159,10 @@ aa_rx_win_call( void *(*function)(void*),
     void *result = s_handler_result;
     s_handler_result = NULL;
     s_handler_done = 0;
+    s_handler_pending--;
+
+    /* Wake other callers */
+    s_broadcast();
 
     s_unlock();
 
@@ -165,9 +172,16 @@ aa_rx_win_call( void *(*function)(void*),
 static void
 s_handle_call( )
 {
-    /* Must hold the window lock */
+    /* Must hold s_mutex, which is released while the function runs */
     if( s_handler ) {
-        s_handler_result = s_handler(s_handler_arg);
+        void *(*function)(void*) = s_handler;
+        void *arg = s_handler_arg;
+
+        s_unlock();
+        void *result = function(arg);
+        s_lock();
+
+        s_handler_result = result;
         s_handler = NULL;
         s_handler_arg = NULL;
         s_handler_done = 1;
@@ -543,7 +557,9 @@ static int win_display( void *cx_, struct aa_sdl_display_params *params )
 
     aa_rx_win_lock(win);
 
+    s_lock();
     s_handle_call();
+    s_unlock();
 
     r = win->display(win, win->display_cx, params );
 
-- 
2.43.0


From 0c848cc36e17764bf73f8dba91479ad4278a16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 112/148] fix: calls waiting when the display loop ends are
 never answered

---
 src/rx/sdl_win.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 12076c1..c1c3927 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -925,6 +925,14 @@ AA_API void aa_rx_win_run( )
     aa_rx_win_unlock(win);
 
     s_lock();
+    /* Answer the calls that still wait */
+    while( s_handler_pending ) {
+        if(s_handler) {
+            s_handle_call();
+        } else {
+            s_wait();
+        }
+    }
     s_loop_running = 0;
     s_unlock();
 }
-- 
2.43.0


From a97e9e2dba11f06fbd4a38cd85ba9bcc8c2d1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 113/148] fix: display loop never notices a window created
 after it started

---
 src/rx/sdl_win.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index c1c3927..1ba1d6f 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -64,6 +64,7 @@
 #include <pthread.h>
 
 static struct aa_rx_win *s_win = NULL;
+static int s_win_creating = 0;
 static int s_loop_running = 0;
 static pthread_t s_thread_async;
 static pthread_t s_thread_run;
@@ -200,9 +201,10 @@ aa_rx_win_create(
 {
     {
         s_lock();
-        struct aa_rx_win * tmp_win = s_win;
+        int exists = (NULL != s_win) || s_win_creating;
+        if( !exists ) s_win_creating = 1;
         s_unlock();
-        if( tmp_win ) {
+        if( exists ) {
             fprintf(stderr, "Window already created\n");
             return NULL;
         }
@@ -251,6 +253,9 @@ aa_rx_win_create(
     s_lock();
     s_thread_win = pthread_self();
     s_win = win;
+    s_win_creating = 0;
+    /* The display loop may wait for the window */
+    s_broadcast();
     s_unlock();
 
     return win;
-- 
2.43.0


From a9855f8416b87c71b3b1f5d2fdc846b07b7b03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 114/148] fix: setting the display function races with the
 display loop

---
 src/rx/sdl_win.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 1ba1d6f..ffe7e80 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -584,12 +584,14 @@ aa_rx_win_set_display( struct aa_rx_win * win,
                        void *context,
                        void (*destructor)(void*) )
 {
+    aa_rx_win_lock(win);
     if( win->destroy_cx ) {
         win->destroy_cx( win->display_cx );
     }
     win->display = display;
     win->display_cx = context;
     win->destroy_cx = destructor;
+    aa_rx_win_unlock(win);
 }
 
 struct mp_seq_display_cx {
-- 
2.43.0


From fb31200173dc34ab71896e2c2a51fbb0ee91202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 115/148] fix: destroyed window stays registered and is freed
 under the display loop

---
 src/rx/sdl_win.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index ffe7e80..f76af79 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -279,6 +279,17 @@ aa_rx_win_destroy( struct aa_rx_win *  win)
 {
     if( NULL == win ) return;
 
+    /* Wait for the display loop to end */
+    aa_rx_win_stop(win);
+    s_lock();
+    while( s_loop_running && s_win == win &&
+           ! pthread_equal(s_thread_run, pthread_self()) )
+    {
+        s_wait();
+    }
+    if( s_win == win ) s_win = NULL;
+    s_unlock();
+
     aa_rx_win_set_display( win, NULL, NULL, NULL );
 
     aa_gl_globals_destroy( win->gl_globals );
@@ -291,6 +302,7 @@ aa_rx_win_destroy( struct aa_rx_win *  win)
     SDL_GL_DeleteContext(win->gl_cx);
     SDL_DestroyWindow(win->window);
 
+    aa_checked_free(win->q);
     free(win);
 }
 
@@ -941,6 +953,7 @@ AA_API void aa_rx_win_run( )
         }
     }
     s_loop_running = 0;
+    s_broadcast();
     s_unlock();
 }
 
-- 
2.43.0


From b31c77278d9f5cbbf4bf2b27fc3c4128ef2e7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 116/148] fix: setting the scene graph of a window leaks its
 configuration

---
 src/rx/sdl_win.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index f76af79..8b2eef9 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -500,6 +500,7 @@ set_sg( struct aa_rx_win * win,
     cx->sg = sg;
     cx->sg_sub = sg_sub;
     win->n_q = aa_rx_sg_config_count(sg);
+    aa_checked_free(win->q);
     /* TODO: fill q with something reasonable */
     win->q = AA_NEW0_AR( double, win->n_q );
 
-- 
2.43.0


From 3f9ec474dd02face90e56dd6ec3d0d1457f6aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 117/148] fix: displaying a sequence that starts with an empty
 plan or is empty crashes

---
 src/rx/sdl_win.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 8b2eef9..d6d09f3 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -737,11 +737,17 @@ static int mp_seq_display( struct aa_rx_win *win, void *cx_, struct aa_sdl_displ
     }
     //printf("offset: %lu\n", offset );
 
+    // nothing to display
+    if( 0 == all_cnt ) return 0;
+
     // check last segment
     if( all_cnt < i1 ) {
         //printf("reset\n");
         memcpy( &cx->plan_t0, now, sizeof(cx->plan_t0) );
-        aa_rx_mp_seq_elt(cx->mp_seq, 0, &sg, &n_path, &q_all_path);
+        size_t i_mp = 0;
+        do {
+            aa_rx_mp_seq_elt(cx->mp_seq, i_mp++, &sg, &n_path, &q_all_path);
+        } while( 0 == n_path );
         offset = 0;
     }
 
-- 
2.43.0


From 25731b250e5090d6852d3ffdd919c73a52fb01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 118/148] fix: dragging in workspace from the first frame on
 gives NaN configurations

---
 src/rx/sdl_win.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index d6d09f3..da0e85a 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -371,6 +371,7 @@ struct default_display_cx {
     const struct aa_rx_sg_sub *sg_sub;
     struct aa_rx_win *win;
     double E_ref[7];
+    int has_ref;
 };
 
 static void destroy_default ( void *cx_ ) {
@@ -401,6 +402,11 @@ workspace_control(
     aa_rx_frame_id id_ee = aa_rx_sg_sub_frame( ssg, n_sq - 1 );
     double *Ea = TF_abs + 7*id_ee;
 
+    if( ! cx->has_ref ) {
+        AA_MEM_CPY(cx->E_ref, Ea, 7);
+        cx->has_ref = 1;
+    }
+
     if( s_dx_enable ) {
         double *J = AA_MEM_REGION_NEW_N(reg, double, 6*n_sq);
         double *J_star = AA_MEM_REGION_NEW_N(reg, double, 6*n_sq);
-- 
2.43.0


From b8ad10a2855d424befab393c394c8dd0e9563ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 119/148] fix: QuatTran of a transformation matrix writes a
 dual quaternion past its end

---
 include/amino/tf/spatial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/tf/spatial.hpp b/include/amino/tf/spatial.hpp
index 608113c..473b3ba 100644
--- a/include/amino/tf/spatial.hpp
+++ b/include/amino/tf/spatial.hpp
@@ -978,7 +978,7 @@ struct QuatTran : aa_tf_qv {
     static aa_tf_qv from_tfmat(const double t[12])
     {
         aa_tf_qv qv;
-        aa_tf_tfmat2duqu(t, qv.data);
+        aa_tf_tfmat2qutr(t, qv.data);
         return qv;
     }
 
-- 
2.43.0


From 2cdfd33f87da0a634676f5b67899e047c694b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 120/148] fix: DVec::slice uses the end index as the step

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 0bbdbb6..77506c0 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -452,7 +452,7 @@ public:
     // Slicing
     DVec slice(size_type start, size_type stop, size_type step = 1) {
         struct aa_dvec tmp;
-        aa_dvec_slice(this, start, stop, stop, &tmp);
+        aa_dvec_slice(this, start, stop, step, &tmp);
         return DVec(tmp);
     }
 
-- 
2.43.0


From b3edd553be08c8dd26e2af487e9b5b1fa5ce27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 121/148] fix: DVec::view of const data ignores the increment

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 77506c0..0b1c9a7 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -438,7 +438,7 @@ public:
     }
 
     static const DVec view(size_type len, const double *data, size_type inc = 1) {
-        return DVec::view(len, const_cast<double*>(data));
+        return DVec::view(len, const_cast<double*>(data), inc);
     }
 
     static DVec view(struct aa_dvec *x) {
-- 
2.43.0


From d129289f142c623bce2c9f3bc7619a585345ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 122/148] fix: DVec::init from a range does not compile

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 0b1c9a7..c353c0d 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -428,7 +428,7 @@ public:
     template <typename A, typename X>
     static DVec init(A a, const X &first, const X &last) {
         DVec v = DVec::alloc(a, last - first);
-        DVec::assign(v, first, last);
+        DVec::assign(&v, first, last);
         return v;
     }
 
-- 
2.43.0


From 09488abc712a2306f636fee170afb007c2aa1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 123/148] fix: stepping a row or column iterator other than by
 ++i does not compile

---
 include/amino/mat.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index c353c0d..30e7ac3 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -842,8 +842,8 @@ private:
         {}
 
 
-        C tmp () {
-            return C (vec.len(), vec.data(), vec.inc());
+        C tmp () const {
+            return *static_cast<const C*>(this);
         }
 
         double *&data() const {
@@ -901,7 +901,7 @@ private:
 
         C &operator-- () {
             this->data()--;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C operator-- (int) {
@@ -912,12 +912,12 @@ private:
 
         C &operator+= (size_type s) {
             this->data() += s;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C &operator-= (size_type s) {
             this->data() -= s;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
     };
 
@@ -969,7 +969,7 @@ private:
 
         C &operator-- () {
             this->data() -= ld;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C operator-- (int) {
@@ -980,12 +980,12 @@ private:
 
         C &operator+= (size_type s) {
             this->data() += s*ld;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
         C &operator-= (size_type s) {
             this->data() -= s*ld;
-            return this->vec;
+            return *static_cast<C*>(this);
         }
 
     protected:
-- 
2.43.0


From 5fab8b918c8f72a63ebe805737e11b14f6a7ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 124/148] fix: assigning a DMat to a DMat rebinds the view
 instead of copying

---
 include/amino/mat.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 30e7ac3..0f08a57 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -815,6 +815,11 @@ public:
         return DMatExpInverse(*this);
     }
 
+    DMat & operator= (DMat const  &rhs) {
+        MatEval<DMat>(rhs,*this);
+        return *this;
+    }
+
     void invert() {
         aa_dmat_inv(this);
     }
-- 
2.43.0


From 12147bb54da2b61ecd80d6d5d854a340af371ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 125/148] fix: vector sum assigned to its first operand is
 wrong

---
 include/amino/mat.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 0f08a57..c2eac37 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -202,8 +202,18 @@ public:
         alpha(alpha_), x(x_), y(y_) { }
 
     void eval( struct aa_dvec &target ) const {
-        VecEval(y,target);
-        la::axpy(alpha,&x,&target);
+        if( x.data == target.data ) {
+            /* evaluating y overwrites x, so keep its value */
+            struct aa_mem_region *reg = aa_mem_region_local_get();
+            struct aa_dvec *tmp = aa_dvec_alloc(reg, x.len);
+            la::copy(&x,tmp);
+            VecEval(y,target);
+            la::axpy(alpha,tmp,&target);
+            aa_mem_region_pop(reg,tmp);
+        } else {
+            VecEval(y,target);
+            la::axpy(alpha,&x,&target);
+        }
     }
 };
 
-- 
2.43.0


From 18739936900bdd4e30a76ba3aeb2aaa9b79077a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 126/148] fix: constructing a DualQuat recurses without end

---
 include/amino/tf/spatial.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/amino/tf/spatial.hpp b/include/amino/tf/spatial.hpp
index 473b3ba..95c4d3d 100644
--- a/include/amino/tf/spatial.hpp
+++ b/include/amino/tf/spatial.hpp
@@ -749,7 +749,7 @@ struct DualQuat : aa_tf_duqu {
                                 double w_real, double x_dual, double y_dual,
                                 double z_dual, double w_dual)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         S.real = Quat::from_xyzw(x_real, y_real, z_real, w_real);
         S.dual = Quat::from_xyzw(x_dual, y_dual, z_dual, w_dual);
         return S;
@@ -760,7 +760,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_duqu(const double s[8])
     {
-        DualQuat S;
+        aa_tf_duqu S;
         memcpy(S.data, s, 8 * sizeof(s[0]));
         return S;
     }
@@ -771,7 +771,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_qv(const double q[4], const double v[3])
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_qv2duqu(q, v, S.data);
         return S;
     }
@@ -781,7 +781,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_tfmat(const double T[12])
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_tfmat2duqu(T, S.data);
         return S;
     }
@@ -791,7 +791,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_xxyz(double theta, double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_xxyz2duqu(theta, x, y, z, S.data);
         return S;
     }
@@ -801,7 +801,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_yxyz(double theta, double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_yxyz2duqu(theta, x, y, z, S.data);
         return S;
     }
@@ -811,7 +811,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_zxyz(double theta, double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_zxyz2duqu(theta, x, y, z, S.data);
         return S;
     }
@@ -822,7 +822,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_xyz(double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_xyz2duqu(x, y, z, S.data);
         return S;
     }
@@ -833,7 +833,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_dx(double *s, double *dx)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_duqu_vel2diff(s, dx, S.data);
         return S;
     }
-- 
2.43.0


From 482a1d4cd897a695df94742d0be1df99cc2413d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:23 +0000
Subject: [PATCH 127/148] fix: subtracting from a Python vector view in place
 leaves the view unchanged

---
 python/amino/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index db5f909..c120ac6 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -191,7 +191,7 @@ class DVec(ctypes.Structure, VecMixin):
         """Add a scalar or vector to self"""
         return DVec(self).__iadd__(other)
 
-    def __isub(self, other):
+    def __isub__(self, other):
         """Subtract a scalar or vector from self"""
         if isinstance(other, DVec):
             return self.axpy(-1, other)
-- 
2.43.0


From b8c46f14302f337256b7b2c762098a6123a490df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 128/148] fix: Python views of a vector or matrix dangle once
 their parent is collected

---
 python/amino/mat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index c120ac6..0750f2b 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -153,6 +153,7 @@ class DVec(ctypes.Structure, VecMixin):
             stop = self._size if key.stop is None else key.stop
             x = DVec()
             libamino.aa_dvec_slice(self, start, stop, step, x)
+            x._base = self  # keep the viewed data alive
             return x
         if key < 0 or key >= len(self):
             raise IndexError(key)
@@ -319,6 +320,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         self._check_row(i)
         v = DVec()
         libamino.aa_dmat_row_vec(self, i, v)
+        v._base = self  # keep the viewed data alive
         return v
 
     def col_vec(self, j):
@@ -326,12 +328,14 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         self._check_col(j)
         v = DVec()
         libamino.aa_dmat_col_vec(self, j, v)
+        v._base = self  # keep the viewed data alive
         return v
 
     def diag_vec(self):
         """Returns the diagonal as a DVec."""
         v = DVec()
         libamino.aa_dmat_diag_vec(self, v)
+        v._base = self  # keep the viewed data alive
         return v
 
     def transpose(self):
@@ -426,6 +430,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
                 raise IndexError()
             M = DMat()
             libamino.aa_dmat_block(self, i.start, j.start, i.stop, j.stop, M)
+            M._base = self  # keep the viewed data alive
             return M
         self._check_index(i, j)
         return self._data[i + j * self._ld]
-- 
2.43.0


From 239f7a1c98effa19affbfba81c11f8f31e7259d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 129/148] fix: open or out of range slices of Python vectors
 and matrices fail or abort the process

---
 python/amino/mat.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index 0750f2b..62e9c23 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -148,10 +148,12 @@ class DVec(ctypes.Structure, VecMixin):
     def __getitem__(self, key):
         """Returns an item or slice of self"""
         if isinstance(key, slice):
-            step = 1 if key.step is None else key.step
-            start = 0 if key.start is None else key.start
-            stop = self._size if key.stop is None else key.stop
+            start, stop, step = key.indices(self._size)
+            if step < 1:
+                raise IndexError(key)
             x = DVec()
+            if start >= stop:
+                return x
             libamino.aa_dvec_slice(self, start, stop, step, x)
             x._base = self  # keep the viewed data alive
             return x
@@ -428,8 +430,13 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
                 raise IndexError()
             if not ((j.step is None) or j.step == 0):
                 raise IndexError()
+            row_start, row_stop, _ = slice(i.start, i.stop).indices(self._rows)
+            col_start, col_stop, _ = slice(j.start, j.stop).indices(self._cols)
+            if row_start >= row_stop or col_start >= col_stop:
+                raise IndexError(key)
             M = DMat()
-            libamino.aa_dmat_block(self, i.start, j.start, i.stop, j.stop, M)
+            libamino.aa_dmat_block(self, row_start, col_start, row_stop,
+                                   col_stop, M)
             M._base = self  # keep the viewed data alive
             return M
         self._check_index(i, j)
-- 
2.43.0


From 144b115994fc99cac463453847d5990128472384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 130/148] fix: operands of the wrong size in Python abort the
 process

---
 python/amino/mat.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index 62e9c23..179fb0c 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -102,6 +102,8 @@ class DVec(ctypes.Structure, VecMixin):
 
     def axpy(self, alpha, x):
         """self = alpha*x, where alpha is a scalar and x is a DVec"""
+        if len(self) != len(x):
+            raise IndexError()
         libamino.aa_dvec_axpy(alpha, x, self)
         return self
 
@@ -130,16 +132,20 @@ class DVec(ctypes.Structure, VecMixin):
         x -- a vector
         beta -- a scalar
         """
-        if A.rows != len(self):
+        rows, cols = A._op_size(trans)
+        if rows != len(self):
             raise IndexError()
-        if A.cols != len(x):
+        if cols != len(x):
             raise IndexError()
         libamino.aa_dmat_gemv(trans, alpha, A, x, beta, self)
         return self
 
     def ssd(self, other):
         """Sum of square differences"""
-        return libamino.aa_dvec_ssd(self, DVec.ensure(other))
+        other = DVec.ensure(other)
+        if len(self) != len(other):
+            raise IndexError()
+        return libamino.aa_dvec_ssd(self, other)
 
     def nrm2(self):
         """Euclidean norm of self"""
@@ -368,6 +374,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
 
     def ssd(self, other):
         """Returns Sum of square differences."""
+        self._check_size(other)
         return libamino.aa_dmat_ssd(self, other)
 
     def nrm2(self):
@@ -388,7 +395,9 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
             beta: scale factor for self
         """
         C = self
-        if (A.rows != C.rows or A.cols != B.rows or B.cols != C.cols):
+        rows_A, cols_A = A._op_size(transA)
+        rows_B, cols_B = B._op_size(transB)
+        if rows_A != C.rows or cols_A != rows_B or cols_B != C.cols:
             raise IndexError()
         libamino.aa_dmat_gemm(transA, transB, alpha, A, B, beta, C)
         return C
@@ -405,6 +414,8 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
 
     def inv(self):
         """Returns the inverse."""
+        if self.rows != self.cols:
+            raise IndexError()
         M = DMat(self)
         libamino.aa_dmat_inv(M)
         return M
@@ -417,6 +428,16 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         if (j < 0 or j >= self._cols):
             raise IndexError(j)
 
+    def _check_size(self, other):
+        if self.rows != other.rows or self.cols != other.cols:
+            raise IndexError()
+
+    def _op_size(self, trans):
+        """Size of the (transposed) matrix"""
+        if trans == CBLAS_NO_TRANS:
+            return self._rows, self._cols
+        return self._cols, self._rows
+
     def _check_index(self, i, j):
         self._check_row(i)
         self._check_col(j)
@@ -490,6 +511,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
             libamino.aa_dmat_inc(self, other)
             return self
         if isinstance(other, DMat):
+            self._check_size(other)
             libamino.aa_dmat_axpy(1, other, self)
             return self
         raise TypeError('Cannot increment matrix with %s' % type(other))
@@ -509,6 +531,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
             libamino.aa_dmat_inc(self, -other)
             return self
         if isinstance(other, DMat):
+            self._check_size(other)
             libamino.aa_dmat_axpy(-1, other, self)
             return self
         raise TypeError('Cannot increment matrix with %s' % type(other))
-- 
2.43.0


From 150465fb312e55cf230146bd2eb7c67f35394a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 131/148] fix: copying another kind of matrix to a Python DMat
 does nothing

---
 python/amino/mat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index 179fb0c..c4354dd 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -299,6 +299,10 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
             raise IndexError()
         if isinstance(src, DMat):
             libamino.aa_dmat_copy(src, self)
+        else:
+            for j in range(0, self.cols):
+                for i in range(0, self.rows):
+                    self[i, j] = src[i, j]
 
     @property
     def rows(self):
-- 
2.43.0


From 53730ba29d687a45940a4d52824fb62bf835f4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 132/148] fix: constructing Python Euler angles from a
 quaternion raises TypeError

---
 python/amino/tf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index 4d9cfc4..1c09420 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -511,12 +511,16 @@ class Quat(ctypes.Structure, VecMixin):
         """Converts to an axis-angle and store in a"""
         libamino.aa_tf_quat2axang(self, a)
 
-    def to_eulerzyx(self):
-        """Converts to an euler zyx angle representation"""
+    def to_eulerzyx(self, e=None):
+        """Converts to an euler zyx angle representation, stored in e if given"""
         ang = (ctypes.c_double * 3)()
         libamino.aa_tf_quat2eulerzyx(self, ang)
-        x = [ang[0], ang[1], ang[2]]
-        return EulerZYX(x)
+        if e is None:
+            e = EulerZYX()
+        e._z = ang[0]
+        e._y = ang[1]
+        e._x = ang[2]
+        return e
 
     def vector(self):
         """Returns the vector (xyz) part"""
-- 
2.43.0


From 48a8410d99e996d7587ebe393818a4804038c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 133/148] fix: Python EulerRPY of a YAngle or ZAngle loses the
 angle

---
 python/amino/tf.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index 1c09420..2521775 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -230,9 +230,9 @@ class XAngle(ctypes.Structure):
 
     def to_eulerzyx(self, e):
         """Converts to an Euler XYZ"""
-        e.x = self.value
-        e.y = 0
-        e.z = 0
+        e._x = self.value
+        e._y = 0
+        e._z = 0
 
     def __repr__(self):
         return 'XAngle(%f)' % (self.value)
@@ -256,9 +256,9 @@ class YAngle(ctypes.Structure):
 
     def to_eulerzyx(self, e):
         """Converts to an Euler XYZ and store in e"""
-        e.x = 0
-        e.y = self.value
-        e.z = 0
+        e._x = 0
+        e._y = self.value
+        e._z = 0
 
     def __repr__(self):
         return 'YAngle(%f)' % (self.value)
@@ -282,9 +282,9 @@ class ZAngle(ctypes.Structure):
 
     def to_eulerzyx(self, e):
         """Converts to an Euler XYZ and store in e"""
-        e.x = 0
-        e.y = 0
-        e.z = self.value
+        e._x = 0
+        e._y = 0
+        e._z = self.value
 
     def __repr__(self):
         return 'ZAngle(%f)' % (self.value)
-- 
2.43.0


From 8a5d511d565c2c09559c8597713d67a1b3f40c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 134/148] fix: multiplying a Python pose by None crashes

---
 python/amino/tf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index 2521775..a6813ce 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -837,7 +837,7 @@ class TfMat(ctypes.Structure, MatMixin):
     def __mul__(self, other):
         """Chains two TF matrices"""
         r = TfMat()
-        libamino.aa_tf_tfmat_mul(self, other, r)
+        libamino.aa_tf_tfmat_mul(self, TfMat.ensure(other), r)
         return r
 
     def set_identity(self):
@@ -949,7 +949,7 @@ class DualQuat(ctypes.Structure, CopyEltsMixin):
     def __mul__(self, other):
         """Chains two Dual Quaternions"""
         r = DualQuat()
-        libamino.aa_tf_duqu_mul(self, other, r)
+        libamino.aa_tf_duqu_mul(self, DualQuat.ensure(other), r)
         return r
 
     def conj(self):
@@ -1106,7 +1106,7 @@ class QuatTrans(ctypes.Structure, CopyEltsMixin):
     def __mul__(self, other):
         """Chains two Dual Quaternions"""
         r = QuatTrans()
-        libamino.aa_tf_qutr_mul(self, other, r)
+        libamino.aa_tf_qutr_mul(self, QuatTrans.ensure(other), r)
         return r
 
     def conj(self):
-- 
2.43.0


From 199010ec845878e3ed7492e171c74adca07852a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:01 +0000
Subject: [PATCH 135/148] fix: vectors made by Python TfVec.to_dvec share their
 elements

---
 python/amino/tf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index a6813ce..7c85fc9 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -1251,8 +1251,10 @@ class TfVec(ctypes.Structure):
         else:
             self._second()[key - 3] = item
 
-    def to_dvec(self, vec=DVec(6)):
+    def to_dvec(self, vec=None):
         """Copies self to a vec."""
+        if vec is None:
+            vec = DVec(6)
         vec.copy_from(self)
         return vec
 
-- 
2.43.0


From ee6f23091126c3ea996d9e9e98d549f3f7a5de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 136/148] fix: reading options of a Python GeomOpt raises
 AttributeError or crashes

---
 python/amino/scenegraph.py | 39 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 7b850ce..1529689 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -88,7 +88,7 @@ class GeomOpt:
         libamino.aa_rx_geom_opt_destroy(self._ptr)
 
     def _get_val(self, func):
-        return func(self._ptr).value
+        return func(self._ptr)
 
     def _get_val3(self, func0, func1, func2):
         return [
@@ -128,17 +128,17 @@ class GeomOpt:
 
     @property
     def color(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_color_red,
-                              libamino.aa_rx_geom_opt_get_color_blue,
-                              libamino.aa_rx_geom_opt_get_color_green)
+                              libamino.aa_rx_geom_opt_get_color_green,
+                              libamino.aa_rx_geom_opt_get_color_blue)
 
     @property
     def specular(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_specular_red,
-                              libamino.aa_rx_geom_opt_get_specular_blue,
-                              libamino.aa_rx_geom_opt_get_specular_green)
+                              libamino.aa_rx_geom_opt_get_specular_green,
+                              libamino.aa_rx_geom_opt_get_specular_blue)
 
     @visual.setter
     def visual(self, value):
@@ -271,29 +271,38 @@ libamino.aa_rx_geom_opt_set_scale.argtypes = [
     ctypes.POINTER(RxGeomOpt), ctypes.c_double
 ]
 
+libamino.aa_rx_geom_opt_get_no_shadow.argtypes = [ctypes.POINTER(RxGeomOpt)]
+libamino.aa_rx_geom_opt_get_no_shadow.restype = ctypes.c_int
+
+libamino.aa_rx_geom_opt_get_visual.argtypes = [ctypes.POINTER(RxGeomOpt)]
+libamino.aa_rx_geom_opt_get_visual.restype = ctypes.c_int
+
+libamino.aa_rx_geom_opt_get_collision.argtypes = [ctypes.POINTER(RxGeomOpt)]
+libamino.aa_rx_geom_opt_get_collision.restype = ctypes.c_int
+
 libamino.aa_rx_geom_opt_get_scale.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_scale.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_scale.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_alpha.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_alpha.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_alpha.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_color_red.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_red.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_red.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_color_blue.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_blue.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_blue.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_color_green.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_green.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_green.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_specular_red.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_specular_red.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_red.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_specular_blue.argtypes = [
     ctypes.POINTER(RxGeomOpt)
 ]
-libamino.aa_rx_geom_opt_get_specular_blue.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_blue.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_specular_green.argtypes = [
     ctypes.POINTER(RxGeomOpt)
 ]
-libamino.aa_rx_geom_opt_get_specular_green.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_green.restype = ctypes.c_double
 
 libamino.aa_rx_geom_box.argtypes = [
     ctypes.POINTER(RxGeomOpt), ctypes.POINTER(Vec3)
-- 
2.43.0


From e2b7c76b4d5aa878aae80cf4ec9cd6d6122444cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 137/148] fix: Python collision calls with the root frame's
 name raise TypeError

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 1529689..840f09c 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -559,7 +559,7 @@ class SceneGraph:
         """
         r = self.ensure_frame_id(value)
         if r < 0:
-            raise IndexError("Invalid frame id: %d" % value)
+            raise IndexError("Invalid frame id: %d" % r)
         return r
 
     def ensure_frame_name(self, value):
-- 
2.43.0


From 6d83a61d1b709a93b602323f4e907545e3885263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 138/148] fix: Python ensure_config_name gives a frame's name
 for a config id

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 840f09c..986eac7 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -528,7 +528,7 @@ class SceneGraph:
 
         if value >= self.config_count or value < 0:
             raise IndexError("Invalid config id: %d" % value)
-        return self.frame_name(value)
+        return self.config_name(value)
 
     def ensure_frame_id(self, value):
         """Ensures value is a frame id, converting strings if necessary.
-- 
2.43.0


From fb994be917517fd4f44a35c3b1560502a637ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 139/148] fix: Python SceneGraph.load ignores failures

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 986eac7..bc4e3b3 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -445,7 +445,7 @@ class SceneGraph:
         name = ensure_cstring(name)
         filename = ensure_cstring(filename)
         r = libamino.aa_rx_dl_sg_at(filename, name, self._ptr, root)
-        if r is None:
+        if not r:
             raise LookupError("Could not load scene %s:%s" % (filename, name))
 
     def init(self):
-- 
2.43.0


From f27462f69d4a32abe222234c6a2c49f01ad64ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 140/148] fix: Python reparent rejects poses that other methods
 accept

---
 python/amino/scenegraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index bc4e3b3..5ca5728 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -427,7 +427,8 @@ class SceneGraph:
         """Change the parent of frame in the scenegraph."""
         frame = ensure_cstring(frame)
         new_parent = ensure_cstring(new_parent)
-        libamino.aa_rx_sg_reparent_name(self._ptr, new_parent, frame, rel_tf)
+        libamino.aa_rx_sg_reparent_name(self._ptr, new_parent, frame,
+                                          QuatTrans.ensure(rel_tf))
 
 
     def load(self, filename, name, root=""):
-- 
2.43.0


From d633958d3e0282cde62b20bac0b5eeba78e2aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 141/148] fix: pose of the root frame in Python aborts the
 process

---
 python/amino/kinematics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/amino/kinematics.py b/python/amino/kinematics.py
index 5d53090..acc882e 100644
--- a/python/amino/kinematics.py
+++ b/python/amino/kinematics.py
@@ -38,7 +38,7 @@ import ctypes
 from amino.lib import libamino
 from amino.tf import QuatTrans
 from amino.mat import DVec, DMat
-from amino.scenegraph import RxSg, RxSgSub
+from amino.scenegraph import RxSg, RxSgSub, FRAME_ROOT
 
 ########################
 ## Forward Kinematics ##
@@ -74,6 +74,8 @@ class SceneFK:
             libamino.aa_rx_fk_get_rel_qutr(self._ptr, parent, child, E)
         else:
             key = self.scenegraph.ensure_frame_id(key)
+            if key == FRAME_ROOT:
+                return QuatTrans.identity()
             libamino.aa_rx_fk_get_abs_qutr(self._ptr, key, E)
         return E
 
-- 
2.43.0


From 92bd8a1568c5bf09698440f5ba0950a3ba8e581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 142/148] fix: configurations of the wrong size in Python abort
 the process

---
 python/amino/kinematics.py | 4 ++++
 python/amino/scenegraph.py | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/python/amino/kinematics.py b/python/amino/kinematics.py
index acc882e..b8d0599 100644
--- a/python/amino/kinematics.py
+++ b/python/amino/kinematics.py
@@ -204,6 +204,8 @@ class SceneDK:
 
         if dq is None:
             dq = DVec(self.ssg.config_count)
+        elif len(dq) != self.ssg.config_count:
+            raise IndexError("Mismatched configuration size")
 
         dx = self.dx
 
@@ -285,6 +287,8 @@ class SceneIK:
     def set_seed(self, config_sub):
         """Sets the optimization seed."""
         q = self.ssg.config_vector(config_sub)
+        if len(q) != self.ssg.config_count:
+            raise IndexError("Mismatched configuration size")
         libamino.aa_rx_ik_set_seed(self._ptr, q)
 
     def set_seed_center(self):
diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 5ca5728..7c6b76b 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -757,6 +757,11 @@ class SubSceneGraph:
         """Returns the number of configuration variables in the sub-scenegraph."""
         return libamino.aa_rx_sg_sub_config_count(self._ptr)
 
+    def _check_sizes(self, config_sub, config_all):
+        if (len(config_sub) != self.config_count
+                or len(config_all) != self.scenegraph.config_count):
+            raise IndexError("Mismatched configuration size")
+
     def scatter_config(self, config_sub, vector_all=None):
         """Copy elements of a sub-scenegraph config into the full config vector."""
         if isinstance(config_sub, dict):
@@ -765,6 +770,8 @@ class SubSceneGraph:
         if vector_all is None:
             vector_all = DVec(self.scenegraph.config_count)
 
+        config_sub = DVec.ensure(config_sub)
+        self._check_sizes(config_sub, vector_all)
         libamino.aa_rx_sg_sub_config_scatter(self._ptr, config_sub, vector_all)
         return vector_all
 
@@ -773,6 +780,8 @@ class SubSceneGraph:
         # TODO: convert dictionary
         if vector_sub is None:
             vector_sub = DVec(self.config_count)
+        config_all = DVec.ensure(config_all)
+        self._check_sizes(vector_sub, config_all)
         libamino.aa_rx_sg_sub_config_gather(self._ptr, config_all, vector_sub)
         return vector_sub
 
-- 
2.43.0


From f2e7873e629dc53a8fde1e3d9fb9b62d4a0b7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 143/148] fix: Python MotionPlan does not keep its scene alive

---
 python/amino/motionplanning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/amino/motionplanning.py b/python/amino/motionplanning.py
index e3ccfa9..3217c0f 100644
--- a/python/amino/motionplanning.py
+++ b/python/amino/motionplanning.py
@@ -48,9 +48,10 @@ class RxMp(ctypes.Structure):
 class MotionPlan(object):
     """Context object for motion planning."""
 
-    __slots__ = ["_ptr"]
+    __slots__ = ["_ptr", "ssg"]
 
     def __init__(self, ssg):
+        self.ssg = ssg
         self._ptr = LIBAMINOMP.aa_rx_mp_create(ssg._ptr)
 
 
-- 
2.43.0


From 17c931e9909ed9918a156ee6b68b8033539a9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:02 +0000
Subject: [PATCH 144/148] fix: Python motion plans read past a start or goal
 that is too short

---
 python/amino/motionplanning.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/amino/motionplanning.py b/python/amino/motionplanning.py
index 3217c0f..e3d5238 100644
--- a/python/amino/motionplanning.py
+++ b/python/amino/motionplanning.py
@@ -63,8 +63,10 @@ class MotionPlan(object):
         """Compute a motion plan.
 
         Args:
-          start: A list containing the current configuration space state
-          goal: A list containing the goal configuraiton space state
+          start: A list containing the current configuration of the
+            entire scene
+          goal: A list containing the goal configuration of the
+            sub-scenegraph
           timeout: Timout before a motion planning failure is declared
 
         Returns:
@@ -72,6 +74,10 @@ class MotionPlan(object):
           motion plan) otherwise.
         """
 
+        if (len(start) != self.ssg.scenegraph.config_count
+                or len(goal) != self.ssg.config_count):
+            raise IndexError("Mismatched configuration size")
+
         c_start = (ctypes.c_double * len(start))(*start)
         c_goal = (ctypes.c_double * len(goal))(*goal)
         LIBAMINOMP.aa_rx_mp_set_start(self._ptr, len(start), c_start)
-- 
2.43.0


From c3835c7e470e65d0f9650ef58295a10476971e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 145/148] fix: green and blue getters of geometry options are
 exchanged

---
 include/amino/rx/scene_geom.h | 2 +-
 src/rx/geom_opt.c             | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/amino/rx/scene_geom.h b/include/amino/rx/scene_geom.h
index 182186f..30bbeb4 100644
--- a/include/amino/rx/scene_geom.h
+++ b/include/amino/rx/scene_geom.h
@@ -136,7 +136,7 @@ aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt );
 AA_API void
 aa_rx_geom_opt_set_color3 (
     struct aa_rx_geom_opt *opt,
-    double red, double blue, double green );
+    double red, double green, double blue );
 
 /**
  * Set alpha (transparency) option
diff --git a/src/rx/geom_opt.c b/src/rx/geom_opt.c
index 57fa5eb..ec81e00 100644
--- a/src/rx/geom_opt.c
+++ b/src/rx/geom_opt.c
@@ -107,12 +107,12 @@ aa_rx_geom_opt_get_color_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_color_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[1];
+    return opt->color[2];
 }
 AA_API double
 aa_rx_geom_opt_get_color_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[2];
+    return opt->color[1];
 }
 AA_API double
 aa_rx_geom_opt_get_alpha ( const struct aa_rx_geom_opt *opt )
@@ -128,12 +128,12 @@ aa_rx_geom_opt_get_specular_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_specular_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[1];
+    return opt->specular[2];
 }
 AA_API double
 aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[2];
+    return opt->specular[1];
 }
 
 AA_API void
-- 
2.43.0


From 180c124a244c981d439f5cb9c5d2b629ba2a83a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 146/148] fix: plugins are unloaded while copies of their
 scenes exist or not at all

A copied scene shares the geometry of the original, and compiled meshes
point into the plugin that destroying the original unloaded.  Loading a
second scene into a graph replaced, and leaked, the handle of the first.
---
 include/amino/rx/scenegraph_internal.h | 11 +++++++++--
 src/rx/scenegraph.cpp                  |  7 -------
 src/rx/sg_api.cpp                      |  9 +++++++--
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index dece0e4..1658bd8 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -76,6 +76,7 @@ struct aa_rx_fk {
 
 #ifdef __cplusplus
 
+#include <memory>
 #include <vector>
 #include <string>
 #include <map>
@@ -208,8 +209,9 @@ struct SceneGraph  {
     std::vector<size_t> allowed_indices1;
     std::vector<size_t> allowed_indices2;
 
-    void (*destructor)(void *);
-    void *destructor_context;
+    /** User objects (e.g., plugins) to release with the scene graph,
+     * after its frames are deleted. */
+    std::vector<std::shared_ptr<void> > resources;
 
     /** Are the indices invalid? */
     unsigned dirty_indices : 1;
@@ -264,6 +266,11 @@ aa_rx_sg_ensure_clean_gl( const struct aa_rx_sg *scene_graph );
 AA_API void
 aa_rx_sg_ensure_clean_collision( const struct aa_rx_sg *scene_graph );
 
+/**
+ * Register a destructor to call when scene_graph and all its copies
+ * are destroyed.  May be called multiple times to register multiple
+ * destructors.
+ */
 AA_API void
 aa_rx_sg_set_destructor(
     const struct aa_rx_sg *scene_graph,
diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index c36f08d..98bf4fc 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -282,8 +282,6 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 
 SceneGraph::SceneGraph()
     : config_size(0),
-      destructor(NULL),
-      destructor_context(NULL),
       dirty_indices(0),
       dirty_collision(0),
       dirty_gl(0)
@@ -291,11 +289,6 @@ SceneGraph::SceneGraph()
 
 SceneGraph::~SceneGraph()
 {
-    /* User destructor(s) */
-    if( destructor ) {
-        destructor(destructor_context);
-    }
-
     /* Delete Frames */
     for( auto &pair : frame_map ) delete pair.second;
 
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index e059df8..0e5c084 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -688,8 +688,10 @@ aa_rx_sg_set_destructor(
     void (*destructor)(void*),
     void *context )
 {
-    scene_graph->sg->destructor = destructor;
-    scene_graph->sg->destructor_context = context;
+    if( destructor ) {
+        scene_graph->sg->resources.push_back(
+            std::shared_ptr<void>(context, destructor) );
+    }
 }
 
 AA_API void aa_rx_sg_rel_tf (
@@ -823,6 +825,9 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
         aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
+    // the geometry may refer to data in a plugin, keep it loaded
+    dest->sg->resources = orig->sg->resources;
+
     // initialize sg
     dest->sg->index();
 
-- 
2.43.0


From 04217d7972c88fd85882ce0098226928a35bb586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 147/148] fix: plugin without the requested symbol stays loaded

The commented out dlclose() failed because it was passed the address of
the handle.
---
 src/rx/plugin.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/rx/plugin.c b/src/rx/plugin.c
index aa940b3..8737f5b 100644
--- a/src/rx/plugin.c
+++ b/src/rx/plugin.c
@@ -67,12 +67,7 @@ rx_dlopen( const char *filename, const char *sym, void **handle )
     if( (err = dlerror()) ) {
         fprintf(stderr, "ERROR: %s\n", err );
 
-        /* dlcose() throws error:
-         *  `Inconsistency detected by ld.so: dl-close.c: 762: _dl_close: Assertion `map->l_init_called' failed!'
-         * Better to leak than crash.
-         */
-
-        /* dlclose(handle); */
+        dlclose(*handle);
         return NULL;
     }
     return result;
-- 
2.43.0


From 26dc0f35d00ffe208427f54abfc1df84d99e8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:59 +0000
Subject: [PATCH 148/148] fix: allowing a configuration moves the joints that
 are not planned for

The validity checker placed them at the configuration declared valid,
not at the start, so plans made afterwards pass through obstacles.
---
 src/rx/mp/scene_ompl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 9536488..187f356 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -109,6 +109,7 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
 {
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
+    mp->validity_checker->set_start(n_all, q_all);
 
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
@@ -134,7 +135,7 @@ aa_rx_mp_allow_config( struct aa_rx_mp *mp,
     amino::sgStateSpace *ss = si->getTypedStateSpace();
     ss->allow_config(q_all);
 
-    mp->validity_checker->set_start(n_all, q_all);
+    mp->validity_checker->allow();
 }
 
 
-- 
2.43.0

