From 27db63c37770e65e5c2d399128d509f9decc2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 01/90] fix: rotmg keeps a rescaled H when more than one
 rescaling step is needed

The rescaling loops overwrote h[1] and h[2] with the flag = 1 constants on
every iteration after the first, although flag was already -1.
---
 include/tlapack/blas/rotmg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..e9aaf86 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -161,7 +161,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
@@ -188,7 +188,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
-- 
2.43.0


From 14b7a56781067efba12e4c2e8ca72e4d4e69248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 02/90] fix: hemm2 overload without beta compiles and forwards
 transB

---
 include/tlapack/lapack/hemm2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hemm2.hpp b/include/tlapack/lapack/hemm2.hpp
index ea6454f..a40524b 100644
--- a/include/tlapack/lapack/hemm2.hpp
+++ b/include/tlapack/lapack/hemm2.hpp
@@ -399,7 +399,7 @@ template <TLAPACK_MATRIX matrixA_t,
           disable_if_allow_optblas_t<pair<matrixA_t, T>,
                                      pair<matrixB_t, T>,
                                      pair<matrixC_t, T>,
-                                     pair<alpha_t, T>>>
+                                     pair<alpha_t, T>> = 0>
 void hemm2(Side side,
            Uplo uplo,
            Op transB,
@@ -408,7 +408,7 @@ void hemm2(Side side,
            const matrixB_t& B,
            matrixC_t& C)
 {
-    return hemm2(side, uplo, alpha, A, B, StrongZero(), C);
+    return hemm2(side, uplo, transB, alpha, A, B, StrongZero(), C);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 7b116929d6b56b46a4209f6d83a98eaf91d9cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 03/90] fix: empty operands in trmm_out, trsm_tri, ul_mult and
 mult_hehe

---
 include/tlapack/lapack/mult_hehe.hpp | 5 ++++-
 include/tlapack/lapack/trmm_out.hpp  | 3 +++
 include/tlapack/lapack/trsm_tri.hpp  | 3 +++
 include/tlapack/lapack/ul_mult.hpp   | 2 +-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..fb5bad6 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -70,7 +70,10 @@ void mult_hehe(Uplo uplo,
 
     if (m != n) return;
 
-    if (n <= 1) {
+    // Quick return
+    if (n == 0) return;
+
+    if (n == 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
         return;
     }
diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..d204a40 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -99,6 +99,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // Quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..090337d 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -118,6 +118,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // Quick return
+    if (n == 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..d652105 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -44,7 +44,7 @@ int ul_mult(matrix_t& A)
     const idx_t n = ncols(A);
 
     // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From b0f7f1da7b9f5a89ba40eb5575da7a7329d1d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/90] fix: upper Hessenberg access past the last row in
 lascl, hasnan and hasinf

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 include/tlapack/lapack/lascl.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From 5f5e5da33981022ede8839fec37d173534a8d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 05/90] fix: rot_sequence3 applies its startup rotations once
 when A has more columns than one block

---
 include/tlapack/lapack/rot_sequence3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b5b0f34 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -133,7 +133,7 @@ void rot_sequence3(
                 for (idx_t ib = 0; ib < n; ib += nb) {
                     idx_t ib2 = std::min(ib + nb, n);
                     // Startup phase
-                    for (idx_t i1 = 0; i1 < n; ++i1) {
+                    for (idx_t i1 = ib; i1 < ib2; ++i1) {
                         for (idx_t j = 0; j < l - 1; ++j) {
                             for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                                 idx_t g = m - 2 - g2;
@@ -536,7 +536,7 @@ void rot_sequence3(
                     for (idx_t j = 0; j < l - 1; ++j) {
                         for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                             idx_t g = m - 2 - g2;
-                            for (idx_t i1 = 0; i1 < n; ++i1) {
+                            for (idx_t i1 = ib; i1 < ib2; ++i1) {
                                 T temp =
                                     C(g, i) * A(g, i1) + S(g, i) * A(g + 1, i1);
                                 A(g + 1, i1) = -conj(S(g, i)) * A(g, i1) +
-- 
2.43.0


From 75bca022871572d55879f51ed095cf89c700644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 06/90] fix: document the order in which rot_sequence and
 rot_sequence3 apply the rotations

---
 include/tlapack/lapack/rot_sequence.hpp  | 4 ++--
 include/tlapack/lapack/rot_sequence3.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index f370bb9..55c7080 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -33,11 +33,11 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1) * P(k-2) * ... * P(1) * P(0)
+ *    P = P(0) * P(1) * ... * P(k-2) * P(k-1)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0) * P(1) * ... * P(k-2) * P(k-1),
+ *    P = P(k-1) * P(k-2) * ... * P(1) * P(0),
  *
  * when P(i) is a plane rotation matrix defined as
  *
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index b5b0f34..6e8315a 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -31,13 +31,13 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
- *        * ... * P(k-1,0) * ... * P(0,0)
+ *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
+ *        * ... * P(0,0) * ... * P(k-1,0)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
- *        * ... * P(0,0) * ... * P(k-1,0)
+ *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
+ *        * ... * P(k-1,0) * ... * P(0,0)
  *
  * where P(i,j) is a plane rotation matrix defined as
  *
-- 
2.43.0


From 26c776c83e0df66a67f8896d4d66cb583593de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 07/90] fix: infnorm_*_colmajor compile for real and complex
 matrices and handle all shapes

---
 include/tlapack/lapack/infnorm_colmajor.hpp        |  7 +++++--
 .../tlapack/lapack/infnorm_hermitian_colmajor.hpp  |  9 ++++++---
 .../tlapack/lapack/infnorm_symmetric_colmajor.hpp  |  9 ++++++---
 .../tlapack/lapack/infnorm_triangular_colmajor.hpp | 14 +++++++-------
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..c9f8e81 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -95,6 +95,9 @@ auto infnorm_colmajor(const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // functor
+    Create<real_type<matrix_t>> new_matrix;
+
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
@@ -103,8 +106,8 @@ auto infnorm_colmajor(const matrix_t& A)
     if (m == 0 || n == 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_colmajor_worksize<T>(A);
-    std::vector<T> work_;
+    WorkInfo workinfo = infnorm_colmajor_worksize<real_t>(A);
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
     return infnorm_colmajor_work(A, work);
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..5dbdfb3 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -131,6 +131,9 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // functor
+    Create<real_type<matrix_t>> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
@@ -141,8 +144,8 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     if (n <= 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_hermitian_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
+    WorkInfo workinfo = infnorm_hermitian_colmajor_worksize<real_t>(uplo, A);
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
     return infnorm_hermitian_colmajor_work(uplo, A, work);
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..47365a4 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -131,6 +131,9 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // functor
+    Create<real_type<matrix_t>> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
@@ -141,8 +144,8 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     if (n <= 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_symmetric_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
+    WorkInfo workinfo = infnorm_symmetric_colmajor_worksize<real_t>(uplo, A);
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
     return infnorm_symmetric_colmajor_work(uplo, A, work);
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..6f1e242 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
@@ -118,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
@@ -165,6 +162,9 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // functor
+    Create<real_type<matrix_t>> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check_false(diag != Diag::NonUnit && diag != Diag::Unit);
@@ -177,11 +177,11 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     if (m == 0 || n == 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
+    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<real_t>(uplo, diag, A);
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 516e690e9b63447bcaf9300f0466ad6594832de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 08/90] fix: inv_house3 solves the singular system with the
 unknowns in pivot order

---
 include/tlapack/lapack/inv_house3.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 304cea9..83d373c 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -98,8 +98,9 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     real_t scale = (real_t)1;
     if (abs1(u22) < safemin) {
         v[0] = (T)0;
-        v[1] = (T)1;
-        v[2] = -u12 / u11;
+        v[1] = -u12 / u11;
+        v[2] = (T)1;
+        if (colswapped) std::swap(v[1], v[2]);
         larfg(FORWARD, COLUMNWISE_STORAGE, v, tau);
         return;
     }
-- 
2.43.0


From 1e73210a8ee950289dc644cf34b5ff8409848b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 09/90] fix: larf argument check compares the length of x with
 the right dimension

---
 include/tlapack/lapack/larf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From 31f7fa50e6771587174733b0b16074218412ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 10/90] fix: gelqt updates the rows below the last block when m
 > n

---
 include/tlapack/lapack/gelqt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 943b309..1017eaa 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -86,7 +86,7 @@ int gelqt_work(matrix_t& A, matrix_t& TT, work_t& work)
         // . . . H(j+ib-1)
         larft(FORWARD, ROWWISE_STORAGE, A11, tauw1, TT1);
 
-        if (j + ib < k) {
+        if (j + ib < m) {
             // Apply H to A(j+ib:m,j:n) from the right
             auto A12 = slice(A, range(j + ib, m), range(j, n));
             auto work1 = slice(TT, range(j + ib, m), range(0, ib));
-- 
2.43.0


From d2d31eae516e8fc838b2c0cdc185885fc209ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 11/90] fix: orthogonal factor routines accept empty matrices
 and k = 0 reflectors

---
 include/tlapack/lapack/gelq2.hpp       | 3 ++-
 include/tlapack/lapack/geql2.hpp       | 3 ++-
 include/tlapack/lapack/geqr2.hpp       | 3 ++-
 include/tlapack/lapack/gerq2.hpp       | 3 ++-
 include/tlapack/lapack/ung2l.hpp       | 2 +-
 include/tlapack/lapack/ung2r.hpp       | 2 +-
 include/tlapack/lapack/ungl2.hpp       | 2 +-
 include/tlapack/lapack/ungq.hpp        | 4 ++++
 include/tlapack/lapack/ungq_level2.hpp | 4 ++--
 include/tlapack/lapack/ungr2.hpp       | 2 +-
 include/tlapack/lapack/unm2l.hpp       | 3 +++
 include/tlapack/lapack/unm2r.hpp       | 3 +++
 include/tlapack/lapack/unml2.hpp       | 3 +++
 include/tlapack/lapack/unmq_level2.hpp | 3 +++
 include/tlapack/lapack/unmr2.hpp       | 3 +++
 15 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index 995959d..a5421a2 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gelq2_worksize(const matrix_t& A, const vector_t& tauw)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(A, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index 85e3684..a8a42ba 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geql2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 33da9e0..1278091 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geqr2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 2957910..7ab327b 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gerq2_worksize(const matrix_t& A, const vector_t& tau)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2l.hpp b/include/tlapack/lapack/ung2l.hpp
index 7995846..152e4ba 100644
--- a/include/tlapack/lapack/ung2l.hpp
+++ b/include/tlapack/lapack/ung2l.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2l_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2r.hpp b/include/tlapack/lapack/ung2r.hpp
index 3657fcd..646d2af 100644
--- a/include/tlapack/lapack/ung2r.hpp
+++ b/include/tlapack/lapack/ung2r.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2r_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ungl2.hpp b/include/tlapack/lapack/ungl2.hpp
index 52681a1..3346734 100644
--- a/include/tlapack/lapack/ungl2.hpp
+++ b/include/tlapack/lapack/ungl2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungl2_worksize(const matrix_t& Q, const vector_t& tauw)
     // constants
     const idx_t k = nrows(Q);
 
-    if (k > 1) {
+    if (k > 1 && size(tauw) > 0) {
         auto&& C = rows(Q, range{1, k});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(Q, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 304d7f5..51df861 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -72,6 +72,9 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
     const idx_t k = size(tau);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // quick return
+    if (k <= 0) return WorkInfo(0);
+
     WorkInfo workinfo;
     auto&& V = (storeMode == StoreV::Columnwise)
                    ? slice(A, range{0, m}, range{0, nb})
@@ -163,6 +166,7 @@ int ungq_work(direction_t direction,
 
     // quick return
     if (m <= 0 || n <= 0) return 0;
+    if (k <= 0) return ungq_level2_work(direction, storeMode, A, tau, work);
 
     // Matrix matrixT
     auto [matrixT, work1] =
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index 3b39478..e90142c 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -61,13 +61,13 @@ constexpr WorkInfo ungq_level2_worksize(direction_t direction,
     const idx_t n = ncols(A);
 
     if (storeMode == StoreV::Columnwise) {
-        return (n > 1)
+        return (n > 1 && size(tau) > 0)
                    ? larf_worksize<T>(LEFT_SIDE, direction, COLUMNWISE_STORAGE,
                                       col(A, 0), tau[0], cols(A, range{1, n}))
                    : WorkInfo(0);
     }
     else {
-        return (m > 1)
+        return (m > 1 && size(tau) > 0)
                    ? larf_worksize<T>(RIGHT_SIDE, direction, ROWWISE_STORAGE,
                                       row(A, 0), tau[0], rows(A, range{1, m}))
                    : WorkInfo(0);
diff --git a/include/tlapack/lapack/ungr2.hpp b/include/tlapack/lapack/ungr2.hpp
index 8a92e8f..b3df24b 100644
--- a/include/tlapack/lapack/ungr2.hpp
+++ b/include/tlapack/lapack/ungr2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/unm2l.hpp b/include/tlapack/lapack/unm2l.hpp
index d5979c4..ad7247f 100644
--- a/include/tlapack/lapack/unm2l.hpp
+++ b/include/tlapack/lapack/unm2l.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unm2l_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, BACKWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unm2r.hpp b/include/tlapack/lapack/unm2r.hpp
index 7c96fd4..5e882d5 100644
--- a/include/tlapack/lapack/unm2r.hpp
+++ b/include/tlapack/lapack/unm2r.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unm2r_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, FORWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unml2.hpp b/include/tlapack/lapack/unml2.hpp
index e7238c7..f6661fa 100644
--- a/include/tlapack/lapack/unml2.hpp
+++ b/include/tlapack/lapack/unml2.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unml2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, FORWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index ec34350..309bdbc 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -82,6 +82,9 @@ constexpr WorkInfo unmq_level2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nQ = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     if (storeMode == StoreV::Columnwise)
         return larf_worksize<T>(side, direction, storeMode,
                                 slice(V, range{0, nQ}, 0), tau[0], C);
diff --git a/include/tlapack/lapack/unmr2.hpp b/include/tlapack/lapack/unmr2.hpp
index d1818af..e8c873a 100644
--- a/include/tlapack/lapack/unmr2.hpp
+++ b/include/tlapack/lapack/unmr2.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unmr2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, BACKWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
-- 
2.43.0


From 85d7e101fd8a7d52dcb87bb1c281b5e095384625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 12/90] fix: getri_worksize compiles for every variant and
 getri_uxli accepts an empty matrix

---
 include/tlapack/lapack/getri.hpp      | 2 +-
 include/tlapack/lapack/getri_uxli.hpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..ccd0b2b 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
diff --git a/include/tlapack/lapack/getri_uxli.hpp b/include/tlapack/lapack/getri_uxli.hpp
index e778b59..ff745de 100644
--- a/include/tlapack/lapack/getri_uxli.hpp
+++ b/include/tlapack/lapack/getri_uxli.hpp
@@ -29,7 +29,7 @@ template <class T, TLAPACK_SMATRIX matrix_t>
 constexpr WorkInfo getri_uxli_worksize(const matrix_t& A)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(ncols(A) - 1);
+        return WorkInfo((ncols(A) > 0) ? ncols(A) - 1 : 0);
     else
         return WorkInfo(0);
 }
@@ -55,6 +55,9 @@ int getri_uxli_work(matrix_t& A, work_t& work)
     // check arguments
     tlapack_check(nrows(A) == n);
 
+    // quick return
+    if (n <= 0) return 0;
+
     // Vector W
     auto [W, work2] = reshape(work, n - 1);
 
-- 
2.43.0


From 21ea0837ea8b8704bcac7391856bd2fc2ae41692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 13/90] fix: pbtrf_with_workspace limits the block size to the
 band and accepts kd = 0

---
 .../tlapack/lapack/pbtrf_with_workspace.hpp   | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 07a0c00..58d602b 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -42,7 +42,8 @@ struct BlockedBandedCholeskyOpts : public EcOpts {
  * @param[in] kd The band size.
  *
  * @param[in] opts Options.
- *    - Define the size of the block, nb.
+ *    - Define the size of the block, nb. Blocks wider than the band are
+ *      reduced to the band size.
  *    - Default is nb = 32.
  *
  * @ingroup auxiliary
@@ -67,7 +68,8 @@ void pbtrf_with_workspace(uplo_t uplo,
 
     tlapack::Create<matrix_t> new_matrix;
 
-    const idx_t nb = opts.nb;
+    // a block may not be wider than the band
+    const idx_t nb = min<idx_t>(opts.nb, (kd > 0) ? kd : 1);
 
     idx_t n = nrows(A);
 
@@ -87,9 +89,12 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             if (i + ib < n) {
                 // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
+                idx_t i2 = (kd <= ib)      ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                idx_t i3 =
+                    (kd > 0 && n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
 
                 if (i2 > 0) {
                     auto A01 = slice(A, range(i, ib + i),
@@ -160,9 +165,12 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             if (i + ib <= n) {
                 // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
+                idx_t i2 = (kd <= ib)      ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                idx_t i3 =
+                    (kd > 0 && n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
 
                 if (i2 > 0) {
                     auto A10 =
-- 
2.43.0


From 4f3a5009645027fb9f1ab430dc781d3d6aaf1240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 14/90] fix: pttrf compiles with a real diagonal and a complex
 subdiagonal

---
 include/tlapack/lapack/pttrf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/pttrf.hpp b/include/tlapack/lapack/pttrf.hpp
index f49eead..cb3f77a 100644
--- a/include/tlapack/lapack/pttrf.hpp
+++ b/include/tlapack/lapack/pttrf.hpp
@@ -50,6 +50,7 @@ template <class d_t,
 int pttrf(d_t& D, e_t& E, const EcOpts& opts = {})
 {
     using T = type_t<d_t>;
+    using TE = type_t<e_t>;
     using real_t = real_type<T>;
     using idx_t = size_type<d_t>;
     // Constants
@@ -67,7 +68,7 @@ int pttrf(d_t& D, e_t& E, const EcOpts& opts = {})
                 " and the factorization could not be completed.");
             return i + 1;
         }
-        T Ei = E[i];
+        TE Ei = E[i];
         E[i] = Ei / real(D[i]);
         D[i + 1] -= real(E[i] * conj(Ei));
     }
-- 
2.43.0


From bf69913e7c1cd76bb1d11983c1a5f04afc124d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 15/90] fix: Hessenberg routines accept empty active blocks
 (ihi <= ilo + 1, ihi = 0) and empty matrices

---
 include/tlapack/lapack/gehd2.hpp |  6 +++---
 include/tlapack/lapack/gehrd.hpp |  4 ++--
 include/tlapack/lapack/unghr.hpp |  5 ++++-
 include/tlapack/lapack/unmhr.hpp | 10 ++++++++--
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index ef47ef2..1ec3486 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -87,12 +87,12 @@ int gehd2_work(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
 
-    for (idx_t i = ilo; i < ihi - 1; ++i) {
+    for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
 
@@ -166,7 +166,7 @@ int gehd2(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..e529785 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -123,7 +123,7 @@ int gehrd_work(size_type<matrix_t> ilo,
     tlapack_check_false((ilo < 0) or (ilo >= n));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
@@ -139,7 +139,7 @@ int gehrd_work(size_type<matrix_t> ilo,
     laset(GENERAL, zero, zero, Y);
 
     idx_t i = ilo;
-    for (; i + nx < ihi - 1; i = i + nb) {
+    for (; i + nx + 1 < ihi; i = i + nb) {
         const idx_t nb2 = min(nb, ihi - i - 1);
 
         auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index b1d0b17..ae6b200 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -87,13 +87,16 @@ int unghr_work(size_type<matrix_t> ilo,
     // check arguments
     tlapack_check_false((idx_t)size(tau) + 1 < min(m, n));
 
+    // quick return
+    if (n <= 0) return 0;
+
     // Shift the vectors which define the elementary reflectors one
     // column to the right, and set the first ilo and the last n-ihi
     // rows and columns to those of the unit matrix
 
     // This is currently optimised for column matrices, it may be interesting
     // to also write these loops for row matrices
-    for (idx_t j = ihi - 1; j > ilo; --j) {
+    for (idx_t j = ihi; j-- > ilo + 1;) {
         for (idx_t i = 0; i < j; ++i) {
             A(i, j) = zero;
         }
diff --git a/include/tlapack/lapack/unmhr.hpp b/include/tlapack/lapack/unmhr.hpp
index 0a0a5de..8a3f65b 100644
--- a/include/tlapack/lapack/unmhr.hpp
+++ b/include/tlapack/lapack/unmhr.hpp
@@ -59,6 +59,9 @@ constexpr WorkInfo unmhr_worksize(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity
+    if (ihi <= ilo + 1) return WorkInfo(0);
+
     auto&& A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto&& tau_s = slice(tau, range{ilo, ihi - 1});
     auto&& C_s = (side == Side::Left)
@@ -92,6 +95,9 @@ int unmhr_work(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // quick return, Q is the identity
+    if (ihi <= ilo + 1) return 0;
+
     auto A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto tau_s = slice(tau, range{ilo, ihi - 1});
     auto C_s = (side == Side::Left)
@@ -129,8 +135,8 @@ int unmhr_work(Side side,
  *      On exit, C is replaced by one of the following:
  *      - side = Side::Left  & trans = Op::NoTrans:    $C := Q C$;
  *      - side = Side::Right & trans = Op::NoTrans:    $C := C Q$;
- *      - side = Side::Left  & trans = Op::ConjTrans:  $C := C Q^H$;
- *      - side = Side::Right & trans = Op::ConjTrans:  $C := Q^H C$.
+ *      - side = Side::Left  & trans = Op::ConjTrans:  $C := Q^H C$;
+ *      - side = Side::Right & trans = Op::ConjTrans:  $C := C Q^H$.
  *
  * @ingroup alloc_workspace
  */
-- 
2.43.0


From e8eed6cfde23eaf3ab7ce77bca77f888bbfc5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 16/90] fix: gghd3 leaves Q and Z alone when wantq or wantz is
 false

---
 include/tlapack/lapack/gghd3.hpp | 46 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..6952be2 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -184,10 +184,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 = cols(Q, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -218,11 +220,14 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 =
-                cols(Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 =
+                    cols(Q, range(j + 1 + nnb * ib,
+                                   j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
 
         //
@@ -254,10 +259,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 = cols(Z, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -287,11 +294,14 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 =
-                cols(Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 =
+                    cols(Z, range(j + 1 + nnb * ib,
+                                   j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
     }
 
-- 
2.43.0


From 701ff621df7645e514b494aed2d3deacb8471e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 17/90] fix: gehrd slices tau within its n-1 elements

---
 include/tlapack/lapack/gehrd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index e529785..161ad45 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -144,7 +144,7 @@ int gehrd_work(size_type<matrix_t> ilo,
 
         auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
-        auto tau2 = slice(tau, range{i, ihi});
+        auto tau2 = slice(tau, range{i, ihi - 1});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
         auto Y_s = slice(Y, range{0, n}, range{0, nb2});
         lahr2(i, nb2, A2, tau2, T_s, Y_s);
-- 
2.43.0


From 913e285311c1cb10845c9aaa4b7e1672cca05aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 18/90] fix: lahqr_schur22 handles equal diagonals, opposite
 off-diagonals and a vanishing upper off-diagonal

---
 include/tlapack/lapack/lahqr_schur22.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index f2431bd..9319b76 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -92,7 +92,7 @@ void lahqr_schur22(T& a,
             // Real eigenvalues.
 
             // Compute a and d.
-            z = p + T(sgn(p)) * sqrt(scale) * sqrt(z);
+            z = p + ((p < zero) ? -one : one) * sqrt(scale) * sqrt(z);
             a = d + z;
             d = d - (bcmax / z) * bcmin;
             // Compute b and the rotation matrix
@@ -124,7 +124,7 @@ void lahqr_schur22(T& a,
             p = half * temp;
             T tau = lapy2(sigma, temp);
             cs = sqrt(half * (one + abs(sigma) / tau));
-            sn = -(p / (tau * cs)) * T(sgn(sigma));
+            sn = -(p / (tau * cs)) * ((sigma < zero) ? -one : one);
             //
             // Compute [aa bb] = [a b][cs -sn]
             //         [cc dd] = [c d][sn  cs]
@@ -165,6 +165,15 @@ void lahqr_schur22(T& a,
                         cs = temp;
                     }
                 }
+                else {
+                    // b is zero, swapping rows and columns results in
+                    // Schur form.
+                    b = -c;
+                    c = zero;
+                    temp = cs;
+                    cs = -sn;
+                    sn = temp;
+                }
             }
         }
     }
-- 
2.43.0


From 9201079f05807b9b20f9c12b2fb590f69340776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 19/90] fix: lahqr, lahqz and multishift_qz read only inside
 the active block in their deflation test

---
 include/tlapack/lapack/lahqr.hpp         | 4 ++--
 include/tlapack/lapack/lahqz.hpp         | 2 +-
 include/tlapack/lapack/multishift_qz.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/lahqr.hpp b/include/tlapack/lapack/lahqr.hpp
index c65af46..f38f4e0 100644
--- a/include/tlapack/lapack/lahqr.hpp
+++ b/include/tlapack/lapack/lahqr.hpp
@@ -170,7 +170,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
@@ -505,7 +505,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 3176bb8..7a6854f 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -182,7 +182,7 @@ int lahqz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 15c5d91..88d4ad7 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -204,7 +204,7 @@ int multishift_qz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From be24b0ae993054efff3afa068165e9e689ed429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 20/90] fix: multishift_qr computes its shifts within the
 active block

---
 include/tlapack/lapack/multishift_qr.hpp | 62 ++++++++++++++++--------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index a55cb43..8cacb0f 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -37,7 +37,8 @@ constexpr WorkInfo multishift_qr_worksize_sweep(bool want_t,
 
     const idx_t n = ncols(A);
     const idx_t nh = ihi - ilo;
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    const idx_t nsr = max<idx_t>(
+        2, min<idx_t>(opts.nshift_recommender(n, nh), (n - 3) / 6));
     auto&& shifts = slice(w, range{0, nsr});
 
     return multishift_QR_sweep_worksize<T>(want_t, want_z, ilo, ihi, A, shifts,
@@ -91,6 +92,12 @@ WorkInfo multishift_qr_worksize(bool want_t,
 
         workinfo = aggressive_early_deflation_worksize<T>(
             want_t, want_z, ilo, ihi, nw_max, A, w, Z, 0, 0, opts);
+
+        // The deflation window may also be smaller than the active block
+        if (ihi - ilo <= nw_max)
+            workinfo.minMax(
+                internal::aggressive_early_deflation_worksize_gehrd<T>(
+                    ilo, ihi, ihi - ilo - 1, A));
     }
 
     workinfo.minMax(multishift_qr_worksize_sweep<T>(want_t, want_z, ilo, ihi, A,
@@ -142,7 +149,10 @@ int multishift_qr_work(bool want_t,
     const idx_t nmin = opts.nmin;
 
     // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    // (at least two, and few enough for the shifts and the bulges to fit in
+    // the space below the subdiagonal)
+    const idx_t nsr = max<idx_t>(
+        2, min<idx_t>(opts.nshift_recommender(n, nh), (n - 3) / 6));
 
     // Recommended deflation window size
     const idx_t nwr = opts.deflation_window_recommender(n, nh);
@@ -257,15 +267,19 @@ int multishift_qr_work(bool want_t,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+
+        // Even number of shifts that fit in the remaining active block
+        idx_t ns = min(nsr, istop - istart - 1);
+        ns = ns - ns % 2;
 
         idx_t i_shifts = istop - ls;
 
         if (k_defl % non_convergence_limit_shift == 0) {
-            ns = nsr;
+            i_shifts = istop - ns;
             for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
-                real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
+                real_t ss = real_t(0);
+                if (i > istart) ss += abs1(A(i, i - 1));
+                if (i > istart + 1) ss += abs1(A(i - 1, i - 2));
                 TA aa = dat1 * ss + A(i, i);
                 TA bb = ss;
                 TA cc = dat2 * ss;
@@ -274,17 +288,23 @@ int multishift_qr_work(bool want_t,
             }
         }
         else {
-            if (ls < nsr / 2) {
-                // Got nsr/2 or fewer shifts? Then use multi/double shift qr to
-                // get more
-                auto temp = slice(A, range{n - nsr, n}, range{0, nsr});
-                auto shifts = slice(w, range{istop - nsr, istop});
-                auto Z_slice = slice(Z, range{0, nsr}, range{0, nsr});
-                int ierr = lahqr(false, false, 0, nsr, temp, shifts, Z_slice);
-
-                ns = nsr - ierr;
-
-                if (ns < 2) {
+            if (ls <= ns / 2) {
+                // Got ns/2 or fewer shifts? Then use multi/double shift qr on
+                // the trailing ns-by-ns block of the active block to get more
+                i_shifts = istop - ns;
+                auto temp = slice(A, range{n - ns, n}, range{0, ns});
+                for (idx_t j = 0; j < ns; ++j)
+                    for (idx_t i = 0; i < ns; ++i)
+                        temp(i, j) = (i <= j + 1)
+                                         ? A(i_shifts + i, i_shifts + j)
+                                         : TA(zero);
+                auto shifts = slice(w, range{i_shifts, istop});
+                auto Z_slice = slice(Z, range{0, ns}, range{0, ns});
+                idx_t ierr = lahqr(false, false, 0, ns, temp, shifts, Z_slice);
+
+                i_shifts = i_shifts + ierr;
+
+                if (istop - i_shifts < 2) {
                     // In case of a rare QR failure, use eigenvalues
                     // of the trailing 2x2 submatrix
                     TA aa = A(istop - 2, istop - 2);
@@ -292,10 +312,8 @@ int multishift_qr_work(bool want_t,
                     TA cc = A(istop - 1, istop - 2);
                     TA dd = A(istop - 1, istop - 1);
                     lahqr_eig22(aa, bb, cc, dd, w[istop - 2], w[istop - 1]);
-                    ns = 2;
+                    i_shifts = istop - 2;
                 }
-
-                i_shifts = istop - ns;
             }
 
             // Sort the shifts (helps a little)
@@ -331,9 +349,11 @@ int multishift_qr_work(bool want_t,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
-            if (ns % 2 == 1) ns = ns - 1;
+            ns = min(ns, istop - i_shifts);
+            ns = ns - ns % 2;
             i_shifts = istop - ns;
         }
+        if (ns < 2) continue;
 
         // If there are only two shifts and both are real
         // then use only one (helps avoid interference)
-- 
2.43.0


From e14e91fc41372a752ba52315f2da7c519eefed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 21/90] fix: aggressive_early_deflation's sorting loop
 terminates for eigenvalues of equal magnitude

---
 .../lapack/aggressive_early_deflation.hpp     | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 1d342e4..49daa4d 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -323,32 +323,28 @@ void aggressive_early_deflation_work(bool want_t,
     // sorting diagonal blocks of T improves accuracy for graded matrices.
     // Bubble sort deals well with exchange failures.
     bool sorted = false;
-    // Window to be checked (other eigenvalue are sorted)
-    idx_t sorting_window_size = jw;
+    // End of the window to be checked (the blocks after it are sorted).
+    // The window gets smaller in each pass, so the loop terminates.
+    idx_t sorting_window_end = jw;
     while (!sorted) {
         sorted = true;
 
-        // Index of last eigenvalue that was swapped
-        idx_t ilst = 0;
-
         // Index of the first block
         idx_t i1 = ns;
 
-        while (i1 + 1 < sorting_window_size) {
+        while (i1 < sorting_window_end) {
             // Size of the first block
             idx_t n1 = 1;
             if (is_real<T>)
-                if (TW(i1 + 1, i1) != zero) n1 = 2;
-
-            // Check if there is a next block
-            if (i1 + n1 == jw) {
-                ilst = ilst - n1;
-                break;
-            }
+                if (i1 + 1 < jw)
+                    if (TW(i1 + 1, i1) != zero) n1 = 2;
 
             // Index of the second block
             idx_t i2 = i1 + n1;
 
+            // Check if there is a next block
+            if (i2 >= sorting_window_end) break;
+
             // Size of the second block
             idx_t n2 = 1;
             if (is_real<T>)
@@ -367,7 +363,7 @@ void aggressive_early_deflation_work(bool want_t,
                 ev2 = abs(TW(i2, i2)) +
                       sqrt(abs(TW(i2 + 1, i2))) * sqrt(abs(TW(i2, i2 + 1)));
 
-            if (ev1 > ev2) {
+            if (ev1 >= ev2) {
                 i1 = i2;
             }
             else {
@@ -377,10 +373,9 @@ void aggressive_early_deflation_work(bool want_t,
                     i1 = i1 + n2;
                 else
                     i1 = i2;
-                ilst = i1;
             }
         }
-        sorting_window_size = ilst;
+        sorting_window_end = i1;
     }
 
     // Recalculate the eigenvalues
-- 
2.43.0


From 388272ffd14aca47a198e068e83a3b97342454b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 22/90] fix: move_bulge applies the whole reflector when it
 reintroduces a collapsed bulge

---
 include/tlapack/lapack/move_bulge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/move_bulge.hpp b/include/tlapack/lapack/move_bulge.hpp
index 5a6385d..461b94d 100644
--- a/include/tlapack/lapack/move_bulge.hpp
+++ b/include/tlapack/lapack/move_bulge.hpp
@@ -82,7 +82,7 @@ void move_bulge(matrix_t& H,
         larfg(FORWARD, COLUMNWISE_STORAGE, vt, tau);
         vt[0] = tau;
 
-        refsum = conj(vt[0]) * H(1, 0) + conj(vt[1]) * H(2, 0);
+        refsum = conj(vt[0]) * (H(1, 0) + conj(vt[1]) * H(2, 0));
         if (abs1(H(2, 0) - refsum * vt[1]) + abs1(refsum * vt[2]) >
             eps * (abs1(H(0, 0)) + abs1(H(1, 1)) + abs1(H(2, 2)))) {
             // Starting a new bulge here would create non-negligible fill. Use
-- 
2.43.0


From b5b2301c725a934659eaefc6730a08d6c195169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 23/90] fix: schur_swap, pbtrf_with_workspace and multishift_qr
 rely only on what their headers declare

---
 include/tlapack/lapack/multishift_qr.hpp        | 5 ++---
 include/tlapack/lapack/pbtrf_with_workspace.hpp | 1 +
 include/tlapack/lapack/schur_swap.hpp           | 1 +
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index 8cacb0f..76ad2a4 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -95,9 +95,8 @@ WorkInfo multishift_qr_worksize(bool want_t,
 
         // The deflation window may also be smaller than the active block
         if (ihi - ilo <= nw_max)
-            workinfo.minMax(
-                internal::aggressive_early_deflation_worksize_gehrd<T>(
-                    ilo, ihi, ihi - ilo - 1, A));
+            workinfo.minMax(aggressive_early_deflation_worksize<T>(
+                want_t, want_z, ilo, ihi, ihi - ilo - 1, A, w, Z, 0, 0, opts));
     }
 
     workinfo.minMax(multishift_qr_worksize_sweep<T>(want_t, want_z, ilo, ihi, A,
diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 58d602b..c516417 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -12,6 +12,7 @@
 #define TLAPACK_PBTRF_WITH_WORKSPACE_HH
 
 #include "tlapack/blas/trsm.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/mult_llh.hpp"
 #include "tlapack/lapack/mult_uhu.hpp"
 #include "tlapack/lapack/potrf.hpp"
diff --git a/include/tlapack/lapack/schur_swap.hpp b/include/tlapack/lapack/schur_swap.hpp
index 6b9e917..c177b81 100644
--- a/include/tlapack/lapack/schur_swap.hpp
+++ b/include/tlapack/lapack/schur_swap.hpp
@@ -17,6 +17,7 @@
 #include "tlapack/blas/rotg.hpp"
 #include "tlapack/blas/swap.hpp"
 #include "tlapack/lapack/lahqr_schur22.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lange.hpp"
 #include "tlapack/lapack/larfg.hpp"
 #include "tlapack/lapack/lasy2.hpp"
-- 
2.43.0


From 097f8a4ef72420a13e2e2b216bd9ccf36eaee9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 24/90] fix: the QZ headers include the headers of the routines
 they call

---
 .../lapack/aggressive_early_deflation_generalized.hpp       | 3 +++
 include/tlapack/lapack/generalized_schur_swap.hpp           | 3 +++
 include/tlapack/lapack/lahqz.hpp                            | 1 +
 include/tlapack/lapack/lahqz_eig22.hpp                      | 1 +
 include/tlapack/lapack/lahqz_schur22.hpp                    | 1 +
 include/tlapack/lapack/multishift_qz.hpp                    | 4 ++++
 include/tlapack/lapack/multishift_qz_sweep.hpp              | 6 ++++++
 7 files changed, 19 insertions(+)

diff --git a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
index 43de040..0aa427a 100644
--- a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
@@ -12,9 +12,12 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
+#include "tlapack/blas/rot.hpp"
+#include "tlapack/blas/rotg.hpp"
 #include "tlapack/lapack/FrancisOpts.hpp"
 #include "tlapack/lapack/generalized_schur_move.hpp"
 #include "tlapack/lapack/gghrd.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqz.hpp"
 #include "tlapack/lapack/lahqz_eig22.hpp"
 #include "tlapack/lapack/larf.hpp"
diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 83e1b76..12e2e59 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -20,10 +20,13 @@
 #include "tlapack/blas/trsv.hpp"
 #include "tlapack/lapack/getrf.hpp"
 #include "tlapack/lapack/inv_house3.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqz_eig22.hpp"
 #include "tlapack/lapack/lahqz_schur22.hpp"
 #include "tlapack/lapack/lange.hpp"
+#include "tlapack/lapack/lapy2.hpp"
 #include "tlapack/lapack/larfg.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/svd22.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 7a6854f..47bfac5 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -20,6 +20,7 @@
 #include "tlapack/lapack/inv_house3.hpp"
 #include "tlapack/lapack/lahqz_eig22.hpp"
 #include "tlapack/lapack/lahqz_shiftcolumn.hpp"
+#include "tlapack/lapack/larfg.hpp"
 #include "tlapack/lapack/svd22.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 311ce78..0c57757 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -13,6 +13,7 @@
 #define __TLAPACK_LAHQZ_EIG22_HH__
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/rotg.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/lahqz_schur22.hpp b/include/tlapack/lapack/lahqz_schur22.hpp
index 11bae40..e2ed6d3 100644
--- a/include/tlapack/lapack/lahqz_schur22.hpp
+++ b/include/tlapack/lapack/lahqz_schur22.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/rot.hpp"
 #include "tlapack/blas/rotg.hpp"
+#include "tlapack/lapack/lahqz_eig22.hpp"
 #include "tlapack/lapack/lapy2.hpp"
 #include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/svd22.hpp"
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 88d4ad7..5a6b225 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -13,11 +13,15 @@
 #define TLAPACK_MULTISHIFT_QZ_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/rot.hpp"
+#include "tlapack/blas/rotg.hpp"
 #include "tlapack/lapack/FrancisOpts.hpp"
 #include "tlapack/lapack/aggressive_early_deflation_generalized.hpp"
 #include "tlapack/lapack/lahqr_eig22.hpp"
 #include "tlapack/lapack/lahqz.hpp"
+#include "tlapack/lapack/lange.hpp"
 #include "tlapack/lapack/multishift_qz_sweep.hpp"
+#include "tlapack/lapack/svd22.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 3fceb60..668ac93 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -12,8 +12,14 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
+#include "tlapack/blas/rot.hpp"
+#include "tlapack/blas/rotg.hpp"
+#include "tlapack/lapack/inv_house3.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqr_shiftcolumn.hpp"
+#include "tlapack/lapack/lahqz_shiftcolumn.hpp"
 #include "tlapack/lapack/larfg.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/move_bulge.hpp"
 
 namespace tlapack {
-- 
2.43.0


From b0be578192a4e5a3c3aed37ecf347f4d461228e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 25/90] fix: lahqz_shiftcolumn does not divide by a scale
 factor it did not apply

---
 include/tlapack/lapack/lahqz_shiftcolumn.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tlapack/lapack/lahqz_shiftcolumn.hpp b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
index c150c4d..57407d0 100644
--- a/include/tlapack/lapack/lahqz_shiftcolumn.hpp
+++ b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_LAHQZ_SHIFTCOLUMN_HH
 #define TLAPACK_LAHQZ_SHIFTCOLUMN_HH
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 namespace tlapack {
@@ -92,6 +93,9 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale1;
             w2 = w2 / scale1;
         }
+        else {
+            scale1 = real_t(1);
+        }
         // Solve linear system
         w2 = w2 / B(1, 1);
         w1 = (w1 - B(0, 1) * w2) / B(0, 0);
@@ -100,6 +104,9 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale2;
             w2 = w2 / scale2;
         }
+        else {
+            scale2 = real_t(1);
+        }
         // Apply second shift
         v[0] = beta2 * (A(0, 0) * w1 + A(0, 1) * w2) -
                real(s2) * (B(0, 0) * w1 + B(0, 1) * w2);
-- 
2.43.0


From 925cdb5efcf9b25944dae7a2f23ddd5439d93c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 26/90] fix: lahqz_eig22 handles double and cancelling complex
 eigenvalues and a zero A

---
 include/tlapack/lapack/lahqz_eig22.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 0c57757..28494e6 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -108,10 +108,10 @@ void lahqz_eig22(const A_t& A,
             }
         }
 
-        alpha1 = a00;
-        alpha2 = a11;
+        alpha1 = a00 * anorm;
+        alpha2 = a11 * anorm;
         beta1 = zero;
-        beta2 = real(b11) * ascale;
+        beta2 = real(b11);
         return;
     }
 
@@ -147,9 +147,9 @@ void lahqz_eig22(const A_t& A,
             }
         }
 
-        alpha1 = a00;
-        alpha2 = a11;
-        beta1 = real(b00) * ascale;
+        alpha1 = a00 * anorm;
+        alpha2 = a11 * anorm;
+        beta1 = real(b00);
         beta2 = zero;
         return;
     }
@@ -217,9 +217,18 @@ void lahqz_eig22(const A_t& A,
         else {
             mu_big = pp - root;
         }
-        TA mu_small = -qq / mu_big;
+        TA mu_small = (mu_big != zero) ? -qq / mu_big : TA(0);
         alpha1 = shift + mu_big;
         alpha2 = shift + mu_small;
+        //
+        // Recompute the smaller eigenvalue from the determinant
+        // if there may have been cancellation
+        //
+        const TA wdet = (a00 * a11 - a01 * a10) * (binv00 * binv11);
+        if (half * abs1(alpha1) > max<real_t>(abs1(alpha2), safmin))
+            alpha2 = wdet / alpha1;
+        else if (half * abs1(alpha2) > max<real_t>(abs1(alpha1), safmin))
+            alpha1 = wdet / alpha2;
     }
     else {
         //
-- 
2.43.0


From 94fa28a44be73b7f6ca8885010a055abf10cd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 27/90] fix: lahqz and multishift_qz keep a diagonal entry of B
 that is already positive

---
 include/tlapack/lapack/lahqz.hpp         | 10 +++++-----
 include/tlapack/lapack/multishift_qz.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 47bfac5..6e0fa7f 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -315,8 +315,11 @@ int lahqz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
+                if (absB <= small_num) {
+                    B(istart, istart) = zero;
+                }
+                else if (imag(B(istart, istart)) != zero or
+                         real(B(istart, istart)) < zero) {
                     TA scal = conj(B(istart, istart) / absB);
                     for (idx_t i = istart_m; i <= istart; ++i) {
                         B(i, istart) = scal * B(i, istart);
@@ -329,9 +332,6 @@ int lahqz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
-                    B(istart, istart) = zero;
-                }
             }
             alpha[istart] = A(istart, istart);
             beta[istart] = B(istart, istart);
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 5a6b225..907529f 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -340,8 +340,11 @@ int multishift_qz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
+                if (absB <= small_num) {
+                    B(istart, istart) = zero;
+                }
+                else if (imag(B(istart, istart)) != zero or
+                         real(B(istart, istart)) < zero) {
                     TA scal = conj(B(istart, istart) / absB);
                     for (idx_t i = istart_m; i <= istart; ++i) {
                         B(i, istart) = scal * B(i, istart);
@@ -354,9 +357,6 @@ int multishift_qz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
-                    B(istart, istart) = zero;
-                }
             }
             alpha[istart] = A(istart, istart);
             beta[istart] = B(istart, istart);
-- 
2.43.0


From bdd40a81ba41cb2e3ae0d06472e65be598ae9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 28/90] fix: multishift_qz computes its shifts within the
 active block

---
 include/tlapack/lapack/multishift_qz.hpp | 33 +++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 907529f..91ce5ec 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -99,7 +99,10 @@ int multishift_qz(bool want_s,
     const idx_t nmin = opts.nmin;
 
     // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    // (at least two, and few enough for the shifts and the bulges to fit in
+    // the space below the subdiagonal)
+    const idx_t nsr = max<idx_t>(
+        2, min<idx_t>(opts.nshift_recommender(n, nh), (n - 3) / 6));
 
     // Recommended deflation window size
     const idx_t nwr = opts.deflation_window_recommender(n, nh);
@@ -478,17 +481,22 @@ int multishift_qz(bool want_s,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+
+        // Even number of shifts that fit in the remaining active block
+        idx_t ns = min(nsr, istop - istart - 1);
+        ns = ns - ns % 2;
+        if (ns < 2) continue;
 
         idx_t i_shifts = istop - ls;
 
         if (k_defl % non_convergence_limit_shift == 0) {
             // This exceptional shift closely resembles the QR exceptional shift
             // This is nice for easy maintenance, but is not guaranteed to work.
-            ns = nsr;
+            i_shifts = istop - ns;
             for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
-                real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
+                real_t ss = real_t(0);
+                if (i > istart) ss += abs1(A(i, i - 1));
+                if (i > istart + 1) ss += abs1(A(i - 1, i - 2));
                 TA aa = dat1 * ss + A(i, i);
                 TA bb = ss;
                 TA cc = dat2 * ss;
@@ -499,6 +507,18 @@ int multishift_qz(bool want_s,
             }
         }
         else {
+            if (ls < 2) {
+                // Not enough shifts? Then use the eigenvalues of the trailing
+                // 2x2 subpencil
+                i_shifts = istop - 2;
+                auto A22 = slice(A, range(i_shifts, istop),
+                                 range(i_shifts, istop));
+                auto B22 = slice(B, range(i_shifts, istop),
+                                 range(i_shifts, istop));
+                lahqz_eig22(A22, B22, alpha[i_shifts], alpha[i_shifts + 1],
+                            beta[i_shifts], beta[i_shifts + 1]);
+            }
+
             // Sort the shifts (helps a little)
             // Bubble sort keeps complex conjugate pairs together
             bool sorted = false;
@@ -540,7 +560,8 @@ int multishift_qz(bool want_s,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
-            if (ns % 2 == 1) ns = ns - 1;
+            ns = min(ns, istop - i_shifts);
+            ns = ns - ns % 2;
             i_shifts = istop - ns;
         }
 
-- 
2.43.0


From e0fb318a11b36cd7d61c3991cb8fe6bcce8f12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 29/90] fix: multishift_QZ_sweep updates the rest of the pencil
 also when Z is not requested

---
 include/tlapack/lapack/multishift_qz_sweep.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 668ac93..3b128c2 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -660,11 +660,9 @@ void multishift_QZ_sweep(bool want_t,
                         auto a1 = col(A2, i);
                         auto a2 = col(A2, i + 1);
                         rot(a1, a2, c2, conj(s2));
-                        if (want_z) {
-                            auto z1 = col(Zc2, i);
-                            auto z2 = col(Zc2, i + 1);
-                            rot(z1, z2, c2, conj(s2));
-                        }
+                        auto z1 = col(Zc2, i);
+                        auto z2 = col(Zc2, i + 1);
+                        rot(z1, z2, c2, conj(s2));
                     }
                 }
 
-- 
2.43.0


From 07ad49ffff03b4b4660c5b429099b5817371e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 30/90] fix: aggressive_early_deflation_generalized clears the
 workspace below the diagonal of B after a recursive QZ

---
 .../tlapack/lapack/aggressive_early_deflation_generalized.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
index 0aa427a..aeb9c6a 100644
--- a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
@@ -213,6 +213,9 @@ void aggressive_early_deflation_generalized(bool want_s,
         for (idx_t j = 0; j < jw; ++j)
             for (idx_t i = j + 2; i < jw; ++i)
                 Aw(i, j) = zero;
+        for (idx_t j = 0; j < jw; ++j)
+            for (idx_t i = j + 1; i < jw; ++i)
+                Bw(i, j) = zero;
     }
 
     // TODO: use multishift_qz recursively
-- 
2.43.0


From 57d7639dedc6a19616439147595b4b8537a61d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 31/90] fix: generalized_schur_swap does not touch Q and Z when
 they are not requested

---
 .../tlapack/lapack/generalized_schur_swap.hpp | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 12e2e59..67f7b23 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -951,7 +951,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_q) {
             auto Q_slice = slice(Q, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Q_slice, QQ, StrongZero(T(0)),
@@ -977,7 +977,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_z) {
             auto Z_slice = slice(Z, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Z_slice, ZZ, StrongZero(T(0)),
@@ -1032,9 +1032,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0, range(j2, n));
             auto b2 = slice(B, j1, range(j2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0);
-            auto q1 = col(Q, j1);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0);
+                auto q1 = col(Q, j1);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation and scaling
         {
@@ -1044,20 +1046,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0), j0);
             auto b2 = slice(B, range(0, j0), j1);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0);
-            auto z1 = col(Z, j1);
-            rot(z0, z1, cr, sr);
+            if (want_z) {
+                auto z0 = col(Z, j0);
+                auto z1 = col(Z, j1);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
+            }
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
             }
         }
     }
@@ -1094,9 +1098,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0 + n2, range(j2 + n2, n));
             auto b2 = slice(B, j1 + n2, range(j2 + n2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0 + n2);
-            auto q1 = col(Q, j1 + n2);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0 + n2);
+                auto q1 = col(Q, j1 + n2);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation
         {
@@ -1106,20 +1112,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0 + n2), j0 + n2);
             auto b2 = slice(B, range(0, j0 + n2), j1 + n2);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0 + n2);
-            auto z1 = col(Z, j1 + n2);
-            rot(z0, z1, cr, sr);
+            if (want_z) {
+                auto z0 = col(Z, j0 + n2);
+                auto z1 = col(Z, j1 + n2);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
+            }
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
             }
         }
     }
-- 
2.43.0


From 5a96361e3137dbc6881fea8ae52360f5e7d057ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 32/90] fix: lahqz_shiftcolumn also resets the column when it
 contains NaN

---
 include/tlapack/lapack/lahqz_shiftcolumn.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_shiftcolumn.hpp b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
index 57407d0..48f4a1c 100644
--- a/include/tlapack/lapack/lahqz_shiftcolumn.hpp
+++ b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
@@ -116,8 +116,9 @@ int lahqz_shiftcolumn(const matrix_t& A,
                real(s2) * (B(2, 0) * w1 + B(2, 1) * w2);
         // Account for imaginary part
         v[0] = v[0] + imag(s1) * imag(s1) * B(0, 0) / scale1 / scale2;
-        // Check for overflow
-        if (abs(v[0]) > safmax or abs(v[1]) > safmax or abs(v[2]) > safmax) {
+        // Check for overflow and NaN
+        if (not(abs(v[0]) <= safmax and abs(v[1]) <= safmax and
+                abs(v[2]) <= safmax)) {
             v[0] = zero;
             v[1] = zero;
             v[2] = zero;
@@ -183,8 +184,9 @@ int lahqz_shiftcolumn(const matrix_t& A,
                s2 * (B(1, 0) * w1 + B(1, 1) * w2);
         v[2] = beta2 * (A(2, 0) * w1 + A(2, 1) * w2) -
                s2 * (B(2, 0) * w1 + B(2, 1) * w2);
-        // Check for overflow
-        if (abs1(v[0]) > safmax or abs1(v[1]) > safmax or abs1(v[2]) > safmax) {
+        // Check for overflow and NaN
+        if (not(abs1(v[0]) <= safmax and abs1(v[1]) <= safmax and
+                abs1(v[2]) <= safmax)) {
             v[0] = zero;
             v[1] = zero;
             v[2] = zero;
-- 
2.43.0


From e6dfd8e4b0144748d8420a35dcfdceed58437e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 33/90] fix: trevc3.hpp uses its own include guard and shares
 HowMny with trevc.hpp

Both headers used TLAPACK_TREVC_HH, so that including both hid the second
one, and both defined HowMny.
---
 include/tlapack/lapack/trevc3.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d436e95..a866424 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -9,12 +9,15 @@
 // <T>LAPACK is free software: you can redistribute it and/or modify it under
 // the terms of the BSD 3-Clause license. See the accompanying LICENSE file.
 
-#ifndef TLAPACK_TREVC_HH
-#define TLAPACK_TREVC_HH
+#ifndef TLAPACK_TREVC3_HH
+#define TLAPACK_TREVC3_HH
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
-#include "tlapack/blas/gemv.hpp"
+#include "tlapack/blas/gemm.hpp"
+#include "tlapack/blas/iamax.hpp"
+#include "tlapack/lapack/lacpy.hpp"
+#include "tlapack/lapack/trevc.hpp"
 #include "tlapack/lapack/trevc3_backsolve.hpp"
 #include "tlapack/lapack/trevc3_forwardsolve.hpp"
 
@@ -30,12 +33,6 @@ struct Trevc3Opts {
     size_t block_size_solve = 64;
 };
 
-enum class HowMny : char {
-    All = 'A',    ///< all eigenvectors
-    Back = 'B',   ///< all eigenvectors, backtransformed by input matrix
-    Select = 'S'  ///< selected eigenvectors
-};
-
 /** Worspace query of TREVC3()
  *
  * @param[in] side tlapack::Side
@@ -524,4 +521,4 @@ int trevc3(const side_t side,
 }
 }  // namespace tlapack
 
-#endif  // TLAPACK_TREVC_HH
+#endif  // TLAPACK_TREVC3_HH
-- 
2.43.0


From f7aae30d7959a34999a0db630b94152d5847fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 34/90] fix: trevc solves perturb zero denominators and pivots
 like LAPACK

For repeated eigenvalues the shifted diagonal blocks are exactly singular
and the eigenvectors were filled with NaN.
---
 include/tlapack/lapack/trevc_backsolve.hpp    | 30 ++++++---
 include/tlapack/lapack/trevc_forwardsolve.hpp | 31 +++++++---
 include/tlapack/lapack/trevc_protect.hpp      | 62 ++++++++++++++++++-
 3 files changed, 104 insertions(+), 19 deletions(-)

diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index d897916..71dddf2 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -107,6 +107,9 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest denominator to use in the solve
+    const real_t smin = trevc_smin(abs1(w), n);
+
     // Backsubstitution to solve the system
     auto T11 = slice(T, range(0, k), range(0, k));
     auto v1 = slice(v, range(0, k));
@@ -136,7 +139,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             real_t scale1;
             trevc_2x2solve(a, b, c, d, v1[i - 1], v1[i], scale1, sf_min,
-                           sf_max);
+                           sf_max, smin);
 
             // Apply scale1 to all of v1
             if (scale1 != real_t(1)) {
@@ -192,7 +195,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
             // not just if the matrix is ill-conditioned.
             // The equations to take the scaling into account also don't
             // seem fully correct.
-            TT denom = T11(i, i) - w;
+            TT denom = trevc_perturb(T11(i, i) - w, smin);
             // Scale factor so that we can safely calculate v1[i] / (T11(i, i) -
             // w)
             real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
@@ -288,13 +291,16 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest denominator to use in the solve
+    const real_t smin = trevc_smin(abs1(w), n);
+
     // Backsubstitution to solve the system
     auto T11 = slice(T, range(0, k), range(0, k));
     auto v1 = slice(v, range(0, k));
 
     for (idx_t ii = 0; ii < k; ++ii) {
         idx_t i = k - 1 - ii;
-        TT denom = T11(i, i) - w;
+        TT denom = trevc_perturb(T11(i, i) - w, smin);
         // Scale factor so that we can safely calculate v1[i] / (T11(i, i) - w)
         real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
 
@@ -441,6 +447,9 @@ void trevc_backsolve_double(const matrix_T_t& T,
     // imaginary part of eigenvalue
     TT wi = sqrt(abs(beta)) * sqrt(abs(gamma));
 
+    // Smallest denominator to use in the solve
+    const TT smin = trevc_smin(abs(wr) + wi, n);
+
     // Depending of whether beta or gamma is bigger, we set x2 = 1 or x3 = i
     TT x2, x3;
     if (abs(beta) >= abs(gamma)) {
@@ -511,7 +520,7 @@ void trevc_backsolve_double(const matrix_T_t& T,
 
             TT scale1;
             trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0), a22r, a22i, b1r,
-                           b1i, b2r, b2i, scale1, sf_min, sf_max);
+                           b1i, b2r, b2i, scale1, sf_min, sf_max, smin);
 
             v1_r[i - 1] = b1r;
             v1_i[i - 1] = b1i;
@@ -588,11 +597,16 @@ void trevc_backsolve_double(const matrix_T_t& T,
             // 1x1 block
 
             // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
-            TT scale1 = trevc_protectdiv(v1_r[i], v1_i[i], T11(i, i) - wr, -wi,
-                                         sf_min, sf_max);
+            TT dr = T11(i, i) - wr;
+            TT di = -wi;
+            if (abs(dr) + abs(di) < smin) {
+                dr = smin;
+                di = TT(0);
+            }
+            TT scale1 =
+                trevc_protectdiv(v1_r[i], v1_i[i], dr, di, sf_min, sf_max);
             TT a, b;
-            ladiv(scale1 * v1_r[i], scale1 * v1_i[i], T11(i, i) - wr, -wi, a,
-                  b);
+            ladiv(scale1 * v1_r[i], scale1 * v1_i[i], dr, di, a, b);
             v1_r[i] = a;
             v1_i[i] = b;
 
diff --git a/include/tlapack/lapack/trevc_forwardsolve.hpp b/include/tlapack/lapack/trevc_forwardsolve.hpp
index 4c6dd65..6d98798 100644
--- a/include/tlapack/lapack/trevc_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc_forwardsolve.hpp
@@ -14,6 +14,7 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
+#include "tlapack/blas/iamax.hpp"
 #include "tlapack/lapack/ladiv.hpp"
 #include "tlapack/lapack/trevc_protect.hpp"
 
@@ -102,6 +103,9 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest denominator to use in the solve
+    const real_t smin = trevc_smin(abs1(w), n);
+
     // Forward substitution to solve the system
     auto T33 = slice(T, range(k + 1, n), range(k + 1, n));
     auto v3 = slice(v, range(k + 1, n));
@@ -157,7 +161,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
             TT scale2;
             trevc_2x2solve(a, b, c, d, v3[i], v3[i + 1], scale2, sf_min,
-                           sf_max);
+                           sf_max, smin);
 
             // Apply scale2 to all of v3
             if (scale2 != real_t(1)) {
@@ -199,7 +203,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
             // Step 2: division
 
-            real_t denom = T33(i, i) - w;
+            real_t denom = trevc_perturb(T33(i, i) - w, smin);
             real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
             v3[i] = (scale2 * v3[i]) / denom;
 
@@ -261,6 +265,9 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest denominator to use in the solve
+    const real_t smin = trevc_smin(abs1(w), n);
+
     // Forward substitution to solve the system
     auto T33 = slice(T, range(k + 1, n), range(k + 1, n));
     auto v3 = slice(v, range(k + 1, n));
@@ -290,7 +297,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
         // Step 2: division
 
-        TT denom = conj(T33(i, i) - w);
+        TT denom = trevc_perturb(conj(T33(i, i) - w), smin);
         real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
         v3[i] = ladiv(scale2 * v3[i], denom);
 
@@ -397,6 +404,9 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
     // imaginary part of eigenvalue
     TT wi = sqrt(abs(beta)) * sqrt(abs(gamma));
 
+    // Smallest denominator to use in the solve
+    const TT smin = trevc_smin(abs(wr) + wi, n);
+
     // Depending of whether beta or gamma is bigger, we set y2 = 1 or y3 = i
     TT y2, y3;
     if (abs(gamma) >= abs(beta)) {
@@ -500,7 +510,7 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
             TT scale2;
             trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0), a22r, a22i,
                            v4_r[i], v4_i[i], v4_r[i + 1], v4_i[i + 1], scale2,
-                           sf_min, sf_max);
+                           sf_min, sf_max, smin);
 
             if (scale2 != TT(1)) {
                 // Apply scale2 to all of v4_r and v4_i
@@ -549,12 +559,17 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
 
             // Do the complex division:
             // (v4_r[i] + i*v4_i[i]) / (T44(i, i) - (wr + i*wi))
-            TT scale2 = trevc_protectdiv(v4_r[i], v4_i[i], T44(i, i) - wr, wi,
-                                         sf_min, sf_max);
+            TT dr = T44(i, i) - wr;
+            TT di = wi;
+            if (abs(dr) + abs(di) < smin) {
+                dr = smin;
+                di = TT(0);
+            }
+            TT scale2 =
+                trevc_protectdiv(v4_r[i], v4_i[i], dr, di, sf_min, sf_max);
 
             TT tr, ti;
-            ladiv(scale2 * v4_r[i], scale2 * v4_i[i], T44(i, i) - wr, wi, tr,
-                  ti);
+            ladiv(scale2 * v4_r[i], scale2 * v4_i[i], dr, di, tr, ti);
             v4_r[i] = tr;
             v4_i[i] = ti;
 
diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index 7b89251..9aaa420 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -18,6 +18,34 @@
 
 namespace tlapack {
 
+/**
+ * Replace a denominator that is smaller than smin by smin.
+ *
+ * The shifted diagonal elements (T - w*I) are (nearly) zero when w is a
+ * repeated eigenvalue. As in LAPACK, such elements are perturbed to a small
+ * multiple of the eigenvalue so that the solve can continue.
+ *
+ * @param d     Denominator
+ * @param smin  Smallest allowed value for the (1-norm) absolute value of d
+ */
+template <TLAPACK_SCALAR T>
+T trevc_perturb(T d, real_type<T> smin)
+{
+    return (abs1(d) < smin) ? T(smin) : d;
+}
+
+/**
+ * Smallest denominator to use in the solve with T - w*I
+ *
+ * @param wabs  1-norm absolute value of the eigenvalue w
+ * @param n     Size of the matrix T
+ */
+template <TLAPACK_SCALAR T, class idx_t, enable_if_t<is_real<T>, int> = 0>
+T trevc_smin(T wabs, idx_t n)
+{
+    return max(ulp<T>() * wabs, safe_min<T>() * (T(n) / ulp<T>()));
+}
+
 /**
  * Given two numbers a and b, calculate a scaling factor alpha in (0, 1] such
  * that the division (a * alpha) / (b) cannot be larger than the threshold
@@ -208,11 +236,12 @@ real_type<T> trevc_protectsum(T a, T b, real_type<T> sf_max)
  * @param scale On output: Scaling factor to avoid overflow
  * @param sf_min Safe minimum threshold
  * @param sf_max Safe maximum threshold
+ * @param smin Smallest allowed pivot, smaller pivots are replaced by smin
  *
  */
 template <TLAPACK_SCALAR T, enable_if_t<is_real<T>, int> = 0>
 void trevc_2x2solve(
-    T a, T b, T c, T d, T& x1, T& x2, T& scale, T sf_min, T sf_max)
+    T a, T b, T c, T d, T& x1, T& x2, T& scale, T sf_min, T sf_max, T smin = T(0))
 {
     //
     // Step 1: compute LU factorization with complete pivoting
@@ -241,6 +270,15 @@ void trevc_2x2solve(
         largest = abs_d;
     }
 
+    // If the matrix is (nearly) zero, use smin*I instead
+    if (largest < smin) {
+        a = smin;
+        b = T(0);
+        c = T(0);
+        d = smin;
+        ilargest = 0;
+    }
+
     // Swap rows and columns to have the largest element in a
     bool col_swapped;
     if (ilargest == 0) {
@@ -288,7 +326,7 @@ void trevc_2x2solve(
     T l10 = c / a;
     T u00 = a;
     T u01 = b;
-    T u11 = d - l10 * u01;
+    T u11 = trevc_perturb(d - l10 * u01, smin);
 
     // Step 3: Solve Ly = scale1 * rhs
     T scale1 = trevc_protectupdate(abs(x2), abs(l10), abs(x1), sf_max);
@@ -336,7 +374,8 @@ void trevc_2x2solve(T ar,
                     T& x2i,
                     T& scale,
                     T sf_min,
-                    T sf_max)
+                    T sf_max,
+                    T smin = T(0))
 {
     //
     // Step 1: compute LU factorization with complete pivoting
@@ -365,6 +404,19 @@ void trevc_2x2solve(T ar,
         largest = abs_d;
     }
 
+    // If the matrix is (nearly) zero, use smin*I instead
+    if (largest < smin) {
+        ar = smin;
+        ai = T(0);
+        br = T(0);
+        bi = T(0);
+        cr = T(0);
+        ci = T(0);
+        dr = smin;
+        di = T(0);
+        ilargest = 0;
+    }
+
     // Swap rows and columns to have the largest element in a
     bool col_swapped;
     if (ilargest == 0) {
@@ -432,6 +484,10 @@ void trevc_2x2solve(T ar,
     // u11 = d - l10 * u01
     T u11r = dr - (l10r * u01r - l10i * u01i);
     T u11i = di - (l10r * u01i + l10i * u01r);
+    if (abs(u11r) + abs(u11i) < smin) {
+        u11r = smin;
+        u11i = T(0);
+    }
 
     // Step 3: Solve Ly = scale1 * rhs
     // y1 = scale1 * rhs1
-- 
2.43.0


From e6d983c6c2314a142aba86f232a38c03b7e1710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 35/90] fix: trevc3 visits exactly the selected eigenvalues

The block loops read uninitialized bounds when no further eigenvalue was
selected, did not skip the unselected ones in front of a block, and could
exceed the block size that the workspace was allocated for.
---
 include/tlapack/lapack/trevc3.hpp | 66 ++++++++++---------------------
 1 file changed, 21 insertions(+), 45 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index a866424..4c7a7a5 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -265,29 +265,16 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
-                for (idx_t jj = 0; jj < i + 1; jj++) {
-                    idx_t j = i - jj;
-                    if (select[j]) {
-                        i_end = j;
-                        break;
-                    }
-                }
+                while (i > 0 && !select[i])
+                    --i;
+                if (!select[i]) break;
+                i_end = i;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
-                i_start = 0;
-                for (idx_t jj = 0; jj < i_end + 1; jj++) {
-                    idx_t j = i_end - jj;
-                    if (jj >= nb) {
-                        // Don't make the block too big
-                        i_start = j + 1;
-                        break;
-                    }
-                    bool pair = false;
-                    if (!select[j]) {
-                        i_start = j + 1;
-                        break;
-                    }
-                }
+                i_start = i_end;
+                while (i_start > 0 && i_end - i_start + 1 < nb &&
+                       select[i_start - 1])
+                    --i_start;
             }
             else {
                 i_end = i;
@@ -330,7 +317,7 @@ int trevc3_work(const side_t side,
                 iVr -= nb2;
             }
 
-            ii += nb2;
+            ii = n - i_start;
         }
     }
 
@@ -346,29 +333,18 @@ int trevc3_work(const side_t side,
             idx_t i_end;
 
             if (howmny == HowMny::Select) {
-                // Find the first eigenvalue with index <= i with select ==
+                // Find the first eigenvalue with index >= i with select ==
                 // true
-                for (idx_t j = i; j < n; j++) {
-                    if (select[j]) {
-                        i_start = j;
-                        break;
-                    }
-                }
-                // Find the last eigenvalue with index <= i_end with select ==
-                // true
-                i_end = n - 1;
-                for (idx_t j = i_start + 1; j < n; j++) {
-                    if (j > i_start + nb) {
-                        // Don't make the block too big
-                        i_end = j - 1;
-                        break;
-                    }
-                    bool pair = false;
-                    if (!select[j]) {
-                        i_end = j - 1;
-                        break;
-                    }
-                }
+                while (i < n && !select[i])
+                    ++i;
+                if (i == n) break;
+                i_start = i;
+                // Find the last eigenvalue with index >= i_start with select
+                // == true
+                i_end = i_start;
+                while (i_end + 1 < n && i_end - i_start + 1 < nb &&
+                       select[i_end + 1])
+                    ++i_end;
             }
             else {
                 i_start = i;
@@ -410,7 +386,7 @@ int trevc3_work(const side_t side,
                 iVl += nb2;
             }
 
-            i += nb2;
+            i = i_end + 1;
         }
     }
 
-- 
2.43.0


From 5ff231e9cfb0bba677116f5e37efab30cecfab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 36/90] fix: trevc3 does not read the uninitialized workspace
 in the back-transformation

---
 include/tlapack/lapack/trevc3.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 4c7a7a5..353d5fd 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -302,8 +302,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(0, i_end + 1), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vr_block =
                     slice(Vr, range(0, n), range(i_start, i_end + 1));
@@ -372,8 +371,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(i_start, n), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vl_block =
                     slice(Vl, range(0, n), range(i_start, i_end + 1));
-- 
2.43.0


From de637a8c64875a70ee9fec667a496511378650eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 37/90] fix: trevc_2x2solve applies the last scaling factor to
 both components of the solution

---
 include/tlapack/lapack/trevc_protect.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index 9aaa420..70ffe5a 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -344,6 +344,7 @@ void trevc_2x2solve(
     y1 = y1 - u01 * x2;
     T scale4 = trevc_protectdiv(y1, u00, sf_min, sf_max);
     x1 = (scale4 * y1) / u00;
+    x2 = scale4 * x2;
 
     // Step 5: undo column swap
     if (col_swapped) std::swap(x1, x2);
@@ -521,6 +522,8 @@ void trevc_2x2solve(T ar,
     // x1 = temp / u00
     T scale4 = trevc_protectdiv(tempr, tempi, u00r, u00i, sf_min, sf_max);
     ladiv(scale4 * tempr, scale4 * tempi, u00r, u00i, x1r, x1i);
+    x2r = scale4 * x2r;
+    x2i = scale4 * x2i;
 
     // Step 5: undo column swap
     if (col_swapped) {
-- 
2.43.0


From 4f8fc88476b732d96dcdbc3c0b88ab32cbab29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:11 +0000
Subject: [PATCH 38/90] fix: trevc3 blocked solves are protected against
 overflow and singular blocks

The updates above and below the current block divided by exact zeros for
repeated eigenvalues and used Cramer's rule without any scaling, which
returned NaN for e.g. the identity matrix when n exceeds the block size.
---
 include/tlapack/lapack/trevc3.hpp             |   7 +-
 include/tlapack/lapack/trevc3_backsolve.hpp   | 294 +++++++++---------
 .../tlapack/lapack/trevc3_forwardsolve.hpp    | 275 ++++++++--------
 3 files changed, 292 insertions(+), 284 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 353d5fd..911eed0 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -245,15 +245,11 @@ int trevc3_work(const side_t side,
 
     auto [colN, rwork2] = reshape(rwork, n);
 
-    for (idx_t j = 0; j < n; ++j) {
-        auto itmax = iamax(slice(col(T, j), range(0, n)));
-        colN[j] = abs1(T(itmax, j));
-    }
-
     if (side == Side::Right || side == Side::Both) {
         //
         // Compute right eigenvectors.
         //
+        trevc_colnorms(Norm::Inf, T, colN);
         idx_t iVr = m - 1;  // current column of Vr to store the eigenvector
         for (idx_t ii = 0; ii < n;) {
             idx_t i = n - 1 - ii;
@@ -324,6 +320,7 @@ int trevc3_work(const side_t side,
         //
         // Compute left eigenvectors.
         //
+        trevc_colnorms(Norm::One, T, colN);
         idx_t iVl = 0;
         for (idx_t i = 0; i < n;) {
             // First eigenvector to compute within this block
diff --git a/include/tlapack/lapack/trevc3_backsolve.hpp b/include/tlapack/lapack/trevc3_backsolve.hpp
index ce5b1c9..af7b2ab 100644
--- a/include/tlapack/lapack/trevc3_backsolve.hpp
+++ b/include/tlapack/lapack/trevc3_backsolve.hpp
@@ -49,6 +49,45 @@ void trevc3_backsolve(const matrix_T_t& T,
     idx_t nk = ke - ks;
     auto [shifts, work2] = reshape(work, nk);
 
+    const real_t sf_max = safe_max<real_t>();
+    const real_t sf_min = safe_min<real_t>();
+
+    // Scale the columns k to k + cnt - 1 of X
+    auto scale_X = [&](idx_t k, idx_t cnt, real_t s) {
+        if (s != real_t(1)) {
+            for (idx_t j = k; j < k + cnt; ++j)
+                for (idx_t i = 0; i < n; ++i)
+                    X(i, j) = s * X(i, j);
+        }
+    };
+    // Infinity norm of rows rs to re - 1 of columns k to k + cnt - 1 of X
+    auto norm_X = [&](idx_t rs, idx_t re, idx_t k, idx_t cnt) {
+        real_t nrm(0);
+        for (idx_t j = k; j < k + cnt; ++j)
+            for (idx_t i = rs; i < re; ++i)
+                nrm = max(nrm, real_t(abs1(X(i, j))));
+        return nrm;
+    };
+    // Scale X such that X(ds:de, :) can be updated with the product of a part
+    // of columns ts to te - 1 of T and X(ss:se, :)
+    auto protect_gemm = [&](idx_t ds, idx_t de, idx_t ss, idx_t se, idx_t ts,
+                            idx_t te) {
+        if (ds >= de) return;
+        real_t tnorm(0);
+        for (idx_t j = ts; j < te; ++j)
+            tnorm = tnorm + colN[j];
+        for (idx_t k = 0; k < nk;) {
+            idx_t cnt = 1;
+            if constexpr (is_real<TT>) {
+                if (k + 1 < nk && T(ks + k + 1, ks + k) != TT(0)) cnt = 2;
+            }
+            scale_X(k, cnt,
+                    trevc_protectupdate(norm_X(ds, de, k, cnt), tnorm,
+                                        norm_X(ss, se, k, cnt), sf_max));
+            k += cnt;
+        }
+    };
+
     laset(Uplo::General, TT(0), TT(0), X);
 
     // Step 1: Calculate the eigenvectors of the ks:ke submatrix
@@ -103,6 +142,7 @@ void trevc3_backsolve(const matrix_T_t& T,
             }
         }
 
+        protect_gemm(0, ks, ks, ke, ks, ke);
         auto T_ij = slice(T, range(0, ks), range(ks, ke));
         auto X_i = slice(X, range(0, ks), range(0, nk));
         // This is where you might think to initialize X_i as -T_ij
@@ -146,177 +186,139 @@ void trevc3_backsolve(const matrix_T_t& T,
             }
 
             if (pair) {
-                TT wr = shifts[k];
-                TT wi = shifts[k + 1];
+                if constexpr (is_real<TT>) {
+                    const TT wr = shifts[k];
+                    const TT wi = shifts[k + 1];
+                    const TT smin = trevc_smin(abs(wr) + wi, n);
 
-                for (idx_t ii = 0; ii < nb;) {
-                    idx_t i = nb - 1 - ii;
-                    bool is_2x2_block = false;
-                    auto v1_r = col(X_ii, k);
-                    auto v1_i = col(X_ii, k + 1);
-                    if (i > 0) {
-                        if (T_ii(i, i - 1) != TT(0)) {
-                            is_2x2_block = true;
+                    for (idx_t ii = 0; ii < nb;) {
+                        const idx_t i = nb - 1 - ii;
+                        const bool is_2x2_block =
+                            (i > 0) && (T_ii(i, i - 1) != TT(0));
+                        // First row of the diagonal block
+                        const idx_t i0 = is_2x2_block ? i - 1 : i;
+
+                        TT x1r = X_ii(i0, k);
+                        TT x1i = X_ii(i0, k + 1);
+                        TT x2r = X_ii(i, k);
+                        TT x2i = X_ii(i, k + 1);
+                        TT scale1;
+                        if (is_2x2_block) {
+                            // Solve the complex 2x2 system with the matrix
+                            // [T_ii(i-1,i-1)-(wr+i*wi)  T_ii(i-1,i)         ]
+                            // [T_ii(i,i-1)              T_ii(i,i)-(wr+i*wi) ]
+                            trevc_2x2solve(T_ii(i - 1, i - 1) - wr, -wi,
+                                           T_ii(i - 1, i), TT(0),
+                                           T_ii(i, i - 1), TT(0),
+                                           T_ii(i, i) - wr, -wi, x1r, x1i, x2r,
+                                           x2i, scale1, sf_min, sf_max, smin);
                         }
-                    }
-
-                    if (is_2x2_block) {
-                        // 2x2 block
-
-                        // Solve the complex 2x2 system:
-                        // [T11(i-1,i-1)- (wr + i*wi)   T11(i-1,i)            ]
-                        // [T11(i,  i-1)               T11(i,  i)- (wr + i*wi)]
-                        // *
-                        // x
-                        // =
-                        // [v1_r[i-1] + i*v1_i[i-1]]
-                        // [v1_r[i]   + i*v1_i[i]  ]
-                        // Using real arithmetic only with Cramer's rule
-
-                        TT a11r = T_ii(i - 1, i - 1) - wr;
-                        TT a11i = -wi;
-                        TT a12 = T_ii(i - 1, i);
-                        TT a21 = T_ii(i, i - 1);
-                        TT a22r = T_ii(i, i) - wr;
-                        TT a22i = -wi;
-
-                        TT b1r = v1_r[i - 1];
-                        TT b1i = v1_i[i - 1];
-                        TT b2r = v1_r[i];
-                        TT b2i = v1_i[i];
-
-                        TT detr = a11r * a22r - a11i * a22i - a12 * a21;
-                        TT deti = a11r * a22i + a11i * a22r;
-
-                        TT denom = detr * detr + deti * deti;
-
-                        TT c1r = a22r * b1r - a22i * b1i - a12 * b2r;
-                        TT c1i = a22r * b1i + a22i * b1r - a12 * b2i;
-                        TT x1r = (c1r * detr + c1i * deti) / denom;
-                        TT x1i = (c1i * detr - c1r * deti) / denom;
-
-                        TT c2r = (a11r * b2r - a11i * b2i) - (a21 * b1r);
-                        TT c2i = (a11r * b2i + a11i * b2r) - (a21 * b1i);
-                        TT x2r = (c2r * detr + c2i * deti) / denom;
-                        TT x2i = (c2i * detr - c2r * deti) / denom;
-
-                        v1_r[i - 1] = x1r;
-                        v1_i[i - 1] = x1i;
-                        v1_r[i] = x2r;
-                        v1_i[i] = x2i;
-
-                        // Update the right-hand side
-                        for (idx_t j = 0; j + 1 < i; ++j) {
-                            // Real part
-                            v1_r[j] -= T_ii(j, i - 1) * v1_r[i - 1];
-                            v1_r[j] -= T_ii(j, i) * v1_r[i];
-
-                            // Imaginary part
-                            v1_i[j] -= T_ii(j, i - 1) * v1_i[i - 1];
-                            v1_i[j] -= T_ii(j, i) * v1_i[i];
+                        else {
+                            TT dr = T_ii(i, i) - wr;
+                            TT di = -wi;
+                            if (abs(dr) + abs(di) < smin) {
+                                dr = smin;
+                                di = TT(0);
+                            }
+                            scale1 = trevc_protectdiv(x2r, x2i, dr, di, sf_min,
+                                                      sf_max);
+                            ladiv(scale1 * x2r, scale1 * x2i, dr, di, x1r, x1i);
+                            x2r = x1r;
+                            x2i = x1i;
                         }
-
-                        ii += 2;
-                    }
-                    else {
-                        // 1x1 block
-
-                        // Do the complex division:
-                        // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
-                        // in real arithmetic only
-                        TT a = v1_r[i];
-                        TT b = v1_i[i];
-                        TT c = T_ii(i, i) - wr;
-                        TT d = -wi;
-                        TT denom = c * c + d * d;
-                        v1_r[i] = (a * c + b * d) / denom;
-                        v1_i[i] = (b * c - a * d) / denom;
+                        scale_X(k, 2, scale1);
+                        X_ii(i0, k) = x1r;
+                        X_ii(i0, k + 1) = x1i;
+                        X_ii(i, k) = x2r;
+                        X_ii(i, k + 1) = x2i;
 
                         // Update the right-hand side
-                        for (idx_t j = 0; j < i; ++j) {
-                            v1_r[j] -= T_ii(j, i) * v1_r[i];
-                            v1_i[j] -= T_ii(j, i) * v1_i[i];
+                        real_t tnorm = colN[bs + i];
+                        real_t xnorm = norm_X(bs + i, bs + i + 1, k, 2);
+                        if (is_2x2_block) {
+                            tnorm += colN[bs + i - 1];
+                            xnorm = norm_X(bs + i - 1, bs + i + 1, k, 2);
+                        }
+                        scale_X(k, 2,
+                                trevc_protectupdate(norm_X(bs, bs + i0, k, 2),
+                                                    tnorm, xnorm, sf_max));
+                        for (idx_t j = 0; j < i0; ++j) {
+                            X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
+                            X_ii(j, k + 1) -= T_ii(j, i) * X_ii(i, k + 1);
+                            if (is_2x2_block) {
+                                X_ii(j, k) -= T_ii(j, i - 1) * X_ii(i - 1, k);
+                                X_ii(j, k + 1) -=
+                                    T_ii(j, i - 1) * X_ii(i - 1, k + 1);
+                            }
                         }
 
-                        ii += 1;
+                        ii += is_2x2_block ? 2 : 1;
                     }
                 }
 
                 k += 2;
             }
             else {
-                TT w = shifts[k];
-
-                if constexpr (is_complex<TT>) {
-                    // The matrix is complex, so there are no two-by-two blocks
-                    // to consider
-
-                    for (idx_t ii = 0; ii < nb; ++ii) {
-                        idx_t i = nb - 1 - ii;
-
-                        X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
+                const TT w = shifts[k];
+                const real_t smin = trevc_smin(abs1(w), n);
 
-                        for (idx_t j = 0; j < i; ++j) {
-                            X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
-                        }
+                for (idx_t ii = 0; ii < nb;) {
+                    const idx_t i = nb - 1 - ii;
+                    bool is_2x2_block = false;
+                    if constexpr (is_real<TT>) {
+                        is_2x2_block = (i > 0) && (T_ii(i, i - 1) != TT(0));
                     }
-                }
-                else {
-                    // The matrix is real, so we need to consider potential
-                    // 2x2 blocks
-
-                    for (idx_t ii = 0; ii < nb;) {
-                        idx_t i = nb - 1 - ii;
-                        bool is_2x2_block = false;
-                        if (i > 0) {
-                            if (T_ii(i, i - 1) != TT(0)) {
-                                is_2x2_block = true;
-                            }
-                        }
-
-                        if (is_2x2_block) {
-                            // 2x2 block
-                            // Solve the 2x2 system:
-                            // [T_ii(i-1,i-1)-w  T_ii(i-1,i)    ] [v1[i-1]] =
-                            // [rhs1] [T_ii(i,  i-1)    T_ii(i,  i)-w  ] [v1[i]
-                            // ] [rhs2]
-                            TT rhs1 = X_ii(i - 1, k);
-                            TT rhs2 = X_ii(i, k);
-
-                            TT a = T_ii(i - 1, i - 1) - w;
-                            TT b = T_ii(i - 1, i);
-                            TT c = T_ii(i, i - 1);
-                            TT d = T_ii(i, i) - w;
-
-                            TT det = a * d - b * c;
-
-                            X_ii(i - 1, k) = (d * rhs1 - b * rhs2) / det;
-                            X_ii(i, k) = (-c * rhs1 + a * rhs2) / det;
+                    // First row of the diagonal block
+                    const idx_t i0 = is_2x2_block ? i - 1 : i;
 
-                            for (idx_t j = 0; j + 1 < i; ++j) {
-                                X_ii(j, k) -= T_ii(j, i - 1) * X_ii(i - 1, k);
-                                X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
-                            }
-
-                            ii += 2;
+                    TT x1 = X_ii(i0, k);
+                    TT x2 = X_ii(i, k);
+                    real_t scale1(1);
+                    if (is_2x2_block) {
+                        if constexpr (is_real<TT>) {
+                            trevc_2x2solve(T_ii(i - 1, i - 1) - w,
+                                           T_ii(i - 1, i), T_ii(i, i - 1),
+                                           T_ii(i, i) - w, x1, x2, scale1,
+                                           sf_min, sf_max, smin);
                         }
-                        else {
-                            // 1x1 block
-                            X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
-
-                            for (idx_t j = 0; j < i; ++j) {
-                                X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
-                            }
+                    }
+                    else {
+                        const TT denom = trevc_perturb(T_ii(i, i) - w, smin);
+                        scale1 = trevc_protectdiv(x2, denom, sf_min, sf_max);
+                        if constexpr (is_complex<TT>)
+                            x2 = ladiv(scale1 * x2, denom);
+                        else
+                            x2 = (scale1 * x2) / denom;
+                        x1 = x2;
+                    }
+                    scale_X(k, 1, scale1);
+                    X_ii(i0, k) = x1;
+                    X_ii(i, k) = x2;
 
-                            ii += 1;
-                        }
+                    // Update the right-hand side
+                    real_t tnorm = colN[bs + i];
+                    real_t xnorm = abs1(x2);
+                    if (is_2x2_block) {
+                        tnorm += colN[bs + i - 1];
+                        xnorm = max(xnorm, real_t(abs1(x1)));
+                    }
+                    scale_X(k, 1,
+                            trevc_protectupdate(norm_X(bs, bs + i0, k, 1),
+                                                tnorm, xnorm, sf_max));
+                    for (idx_t j = 0; j < i0; ++j) {
+                        X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
+                        if (is_2x2_block)
+                            X_ii(j, k) -= T_ii(j, i - 1) * X_ii(i - 1, k);
                     }
+
+                    ii += is_2x2_block ? 2 : 1;
                 }
 
                 k += 1;
             }
         }
 
+        protect_gemm(0, bs, bs, be, bs, be);
         auto T_ij = slice(T, range(0, bs), range(bs, be));
         auto X_i = slice(X, range(0, bs), range(0, nk));
         gemm(Op::NoTrans, Op::NoTrans, TT(-1), T_ij, X_ii, TT(1), X_i);
diff --git a/include/tlapack/lapack/trevc3_forwardsolve.hpp b/include/tlapack/lapack/trevc3_forwardsolve.hpp
index 7756470..a162f9d 100644
--- a/include/tlapack/lapack/trevc3_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc3_forwardsolve.hpp
@@ -48,6 +48,45 @@ void trevc3_forwardsolve(const matrix_T_t& T,
     idx_t nk = ke - ks;
     auto [shifts, work2] = reshape(work, nk);
 
+    const real_t sf_max = safe_max<real_t>();
+    const real_t sf_min = safe_min<real_t>();
+
+    // Scale the columns k to k + cnt - 1 of X
+    auto scale_X = [&](idx_t k, idx_t cnt, real_t s) {
+        if (s != real_t(1)) {
+            for (idx_t j = k; j < k + cnt; ++j)
+                for (idx_t i = 0; i < n; ++i)
+                    X(i, j) = s * X(i, j);
+        }
+    };
+    // Infinity norm of rows rs to re - 1 of columns k to k + cnt - 1 of X
+    auto norm_X = [&](idx_t rs, idx_t re, idx_t k, idx_t cnt) {
+        real_t nrm(0);
+        for (idx_t j = k; j < k + cnt; ++j)
+            for (idx_t i = rs; i < re; ++i)
+                nrm = max(nrm, real_t(abs1(X(i, j))));
+        return nrm;
+    };
+    // Scale X such that X(ds:de, :) can be updated with the product of a part
+    // of columns ts to te - 1 of T and X(ss:se, :)
+    auto protect_gemm = [&](idx_t ds, idx_t de, idx_t ss, idx_t se, idx_t ts,
+                            idx_t te) {
+        if (ds >= de) return;
+        real_t tnorm(0);
+        for (idx_t j = ts; j < te; ++j)
+            tnorm = max(tnorm, real_t(colN[j]));
+        for (idx_t k = 0; k < nk;) {
+            idx_t cnt = 1;
+            if constexpr (is_real<TT>) {
+                if (k + 1 < nk && T(ks + k + 1, ks + k) != TT(0)) cnt = 2;
+            }
+            scale_X(k, cnt,
+                    trevc_protectupdate(norm_X(ds, de, k, cnt), tnorm,
+                                        norm_X(ss, se, k, cnt), sf_max));
+            k += cnt;
+        }
+    };
+
     laset(Uplo::General, TT(0), TT(0), X);
 
     // Step 1: Calculate the eigenvectors of the ks:ke submatrix
@@ -102,6 +141,7 @@ void trevc3_forwardsolve(const matrix_T_t& T,
             }
         }
 
+        protect_gemm(ke, n, ks, ke, ke, n);
         auto T_ij = slice(T, range(ks, ke), range(ke, n));
         auto X_i = slice(X, range(ke, n), range(0, nk));
         // This is where you might think to initialize X_i as -T_ij
@@ -145,162 +185,131 @@ void trevc3_forwardsolve(const matrix_T_t& T,
             }
 
             if (pair) {
-                TT wr = shifts[k];
-                TT wi = shifts[k + 1];
-
-                for (idx_t i = 0; i < nb;) {
-                    bool is_2x2_block = false;
-                    if (i + 1 < nb) {
-                        if (T_ii(i + 1, i) != TT(0)) {
-                            is_2x2_block = true;
+                if constexpr (is_real<TT>) {
+                    const TT wr = shifts[k];
+                    const TT wi = shifts[k + 1];
+                    const TT smin = trevc_smin(abs(wr) + wi, n);
+
+                    for (idx_t i = 0; i < nb;) {
+                        const bool is_2x2_block =
+                            (i + 1 < nb) && (T_ii(i + 1, i) != TT(0));
+                        // Last row of the diagonal block
+                        const idx_t i1 = is_2x2_block ? i + 1 : i;
+
+                        // Update the right-hand side
+                        real_t tnorm = colN[bs + i];
+                        if (is_2x2_block)
+                            tnorm = max(tnorm, real_t(colN[bs + i1]));
+                        scale_X(k, 2,
+                                trevc_protectupdate(
+                                    norm_X(bs + i, bs + i1 + 1, k, 2), tnorm,
+                                    norm_X(bs, bs + i, k, 2), sf_max));
+                        for (idx_t ib = i; ib <= i1; ++ib) {
+                            for (idx_t j = 0; j < i; ++j) {
+                                X_ii(ib, k) -= T_ii(j, ib) * X_ii(j, k);
+                                X_ii(ib, k + 1) -=
+                                    T_ii(j, ib) * X_ii(j, k + 1);
+                            }
                         }
-                    }
 
-                    if (is_2x2_block) {
-                        // 2x2 block
-
-                        for (idx_t j = 0; j < i; ++j) {
-                            X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
-                            X_ii(i, k + 1) -= T_ii(j, i) * X_ii(j, k + 1);
-                            X_ii(i + 1, k) -= T_ii(j, i + 1) * X_ii(j, k);
-                            X_ii(i + 1, k + 1) -=
-                                T_ii(j, i + 1) * X_ii(j, k + 1);
+                        TT x1r = X_ii(i, k);
+                        TT x1i = X_ii(i, k + 1);
+                        TT x2r = X_ii(i1, k);
+                        TT x2i = X_ii(i1, k + 1);
+                        TT scale1;
+                        if (is_2x2_block) {
+                            // Solve the complex (transposed) 2x2 system
+                            trevc_2x2solve(T_ii(i, i) - wr, wi, T_ii(i + 1, i),
+                                           TT(0), T_ii(i, i + 1), TT(0),
+                                           T_ii(i + 1, i + 1) - wr, wi, x1r,
+                                           x1i, x2r, x2i, scale1, sf_min,
+                                           sf_max, smin);
                         }
-
-                        // Solve the complex 2x2 system
-                        // Using real arithmetic only with Cramer's rule
-
-                        TT a11r = T_ii(i, i) - wr;
-                        TT a11i = wi;
-                        // a12 and a21 are switched to transpose the system
-                        TT a12 = T_ii(i + 1, i);
-                        TT a21 = T_ii(i, i + 1);
-                        TT a22r = T_ii(i + 1, i + 1) - wr;
-                        TT a22i = wi;
-
-                        TT b1r = X_ii(i, k);
-                        TT b1i = X_ii(i, k + 1);
-                        TT b2r = X_ii(i + 1, k);
-                        TT b2i = X_ii(i + 1, k + 1);
-
-                        TT detr = a11r * a22r - a11i * a22i - a12 * a21;
-                        TT deti = a11r * a22i + a11i * a22r;
-
-                        TT denom = detr * detr + deti * deti;
-
-                        TT c1r = a22r * b1r - a22i * b1i - a12 * b2r;
-                        TT c1i = a22r * b1i + a22i * b1r - a12 * b2i;
-                        TT x1r = (c1r * detr + c1i * deti) / denom;
-                        TT x1i = (c1i * detr - c1r * deti) / denom;
-
-                        TT c2r = (a11r * b2r - a11i * b2i) - (a21 * b1r);
-                        TT c2i = (a11r * b2i + a11i * b2r) - (a21 * b1i);
-                        TT x2r = (c2r * detr + c2i * deti) / denom;
-                        TT x2i = (c2i * detr - c2r * deti) / denom;
-
+                        else {
+                            TT dr = T_ii(i, i) - wr;
+                            TT di = wi;
+                            if (abs(dr) + abs(di) < smin) {
+                                dr = smin;
+                                di = TT(0);
+                            }
+                            scale1 = trevc_protectdiv(x1r, x1i, dr, di, sf_min,
+                                                      sf_max);
+                            ladiv(scale1 * x1r, scale1 * x1i, dr, di, x2r, x2i);
+                            x1r = x2r;
+                            x1i = x2i;
+                        }
+                        scale_X(k, 2, scale1);
                         X_ii(i, k) = x1r;
                         X_ii(i, k + 1) = x1i;
-                        X_ii(i + 1, k) = x2r;
-                        X_ii(i + 1, k + 1) = x2i;
-
-                        i += 2;
-                    }
-                    else {
-                        // 1x1 block
-                        for (idx_t j = 0; j < i; ++j) {
-                            X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
-                            X_ii(i, k + 1) -= T_ii(j, i) * X_ii(j, k + 1);
-                        }
+                        X_ii(i1, k) = x2r;
+                        X_ii(i1, k + 1) = x2i;
 
-                        // Do the complex division:
-                        // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
-                        // in real arithmetic only
-                        TT a = X_ii(i, k);
-                        TT b = X_ii(i, k + 1);
-                        TT c = T_ii(i, i) - wr;
-                        TT d = wi;
-                        TT denom = c * c + d * d;
-                        X_ii(i, k) = (a * c + b * d) / denom;
-                        X_ii(i, k + 1) = (b * c - a * d) / denom;
-
-                        i += 1;
+                        i = i1 + 1;
                     }
                 }
 
                 k += 2;
             }
             else {
-                TT w = shifts[k];
-
-                if constexpr (is_complex<TT>) {
-                    // The matrix is complex, so there are no two-by-two blocks
-                    // to consider
-
-                    for (idx_t i = 0; i < nb; ++i) {
-                        for (idx_t j = 0; j < i; ++j) {
-                            X_ii(i, k) -= conj(T_ii(j, i)) * X_ii(j, k);
-                        }
+                const TT w = shifts[k];
+                const real_t smin = trevc_smin(abs1(w), n);
 
-                        X_ii(i, k) = X_ii(i, k) / conj(T_ii(i, i) - w);
+                for (idx_t i = 0; i < nb;) {
+                    bool is_2x2_block = false;
+                    if constexpr (is_real<TT>) {
+                        is_2x2_block =
+                            (i + 1 < nb) && (T_ii(i + 1, i) != TT(0));
+                    }
+                    // Last row of the diagonal block
+                    const idx_t i1 = is_2x2_block ? i + 1 : i;
+
+                    // Update the right-hand side
+                    real_t tnorm = colN[bs + i];
+                    if (is_2x2_block)
+                        tnorm = max(tnorm, real_t(colN[bs + i1]));
+                    scale_X(k, 1,
+                            trevc_protectupdate(
+                                norm_X(bs + i, bs + i1 + 1, k, 1), tnorm,
+                                norm_X(bs, bs + i, k, 1), sf_max));
+                    for (idx_t ib = i; ib <= i1; ++ib) {
+                        for (idx_t j = 0; j < i; ++j)
+                            X_ii(ib, k) -= conj(T_ii(j, ib)) * X_ii(j, k);
                     }
-                }
-                else {
-                    // The matrix is real, so we need to consider potential
-                    // 2x2 blocks
-                    // The matrix is real, so we need to consider potential
-                    // 2x2 blocks for complex conjugate eigenvalue pairs
-                    idx_t i = 0;
-                    while (i < nb) {
-                        bool is_2x2_block = false;
-                        if (i + 1 < nb) {
-                            if (T_ii(i + 1, i) != TT(0)) {
-                                is_2x2_block = true;
-                            }
-                        }
-
-                        if (is_2x2_block) {
-                            // 2x2 block
-
-                            for (idx_t j = 0; j < i; ++j) {
-                                X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
-                                X_ii(i + 1, k) -= T_ii(j, i + 1) * X_ii(j, k);
-                            }
-
-                            // Solve the 2x2 (transposed) system:
-                            // [T33(i,i)-w   T33(i+1,i)    ] [v3[i]  ] = [rhs1]
-                            // [T33(i,i+1)   T33(i+1,i+1)-w] [v3[i+1]]   [rhs2]
-                            TT rhs1 = X_ii(i, k);
-                            TT rhs2 = X_ii(i + 1, k);
-
-                            TT a = T_ii(i, i) - w;
-                            TT b = T_ii(i + 1, i);
-                            TT c = T_ii(i, i + 1);
-                            TT d = T_ii(i + 1, i + 1) - w;
-
-                            TT det = a * d - b * c;
-
-                            X_ii(i, k) = (d * rhs1 - b * rhs2) / det;
-                            X_ii(i + 1, k) = (-c * rhs1 + a * rhs2) / det;
-
-                            i += 2;
-                        }
-                        else {
-                            // 1x1 block
-                            for (idx_t j = 0; j < i; ++j) {
-                                X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
-                            }
-
-                            X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
 
-                            i += 1;
+                    TT x1 = X_ii(i, k);
+                    TT x2 = X_ii(i1, k);
+                    real_t scale1(1);
+                    if (is_2x2_block) {
+                        if constexpr (is_real<TT>) {
+                            // Solve the transposed 2x2 system
+                            trevc_2x2solve(T_ii(i, i) - w, T_ii(i + 1, i),
+                                           T_ii(i, i + 1),
+                                           T_ii(i + 1, i + 1) - w, x1, x2,
+                                           scale1, sf_min, sf_max, smin);
                         }
                     }
+                    else {
+                        const TT denom =
+                            trevc_perturb(TT(conj(T_ii(i, i) - w)), smin);
+                        scale1 = trevc_protectdiv(x1, denom, sf_min, sf_max);
+                        if constexpr (is_complex<TT>)
+                            x1 = ladiv(scale1 * x1, denom);
+                        else
+                            x1 = (scale1 * x1) / denom;
+                        x2 = x1;
+                    }
+                    scale_X(k, 1, scale1);
+                    X_ii(i, k) = x1;
+                    X_ii(i1, k) = x2;
+
+                    i = i1 + 1;
                 }
 
                 k += 1;
             }
         }
 
+        protect_gemm(be, n, bs, be, be, n);
         auto T_ij = slice(T, range(bs, be), range(be, n));
         auto X_i = slice(X, range(be, n), range(0, nk));
         gemm(Op::ConjTrans, Op::NoTrans, TT(-1), T_ij, X_ii, TT(1), X_i);
-- 
2.43.0


From f23a889c1db7dbf3c81e18213383372360cbd3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 39/90] fix: labrd sets the last scalar factor when there is no
 reflector to generate

---
 include/tlapack/lapack/labrd.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/labrd.hpp b/include/tlapack/lapack/labrd.hpp
index 457eab4..bc84c09 100644
--- a/include/tlapack/lapack/labrd.hpp
+++ b/include/tlapack/lapack/labrd.hpp
@@ -188,6 +188,9 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
                 A(i, i) = d;
                 A(i, i + 1) = e;
             }
+            else {
+                taup[i] = TA(0);
+            }
         }
     }
     else {
@@ -307,6 +310,7 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
             }
             else {
                 conjugate(w);
+                tauq[i] = TA(0);
             }
         }
     }
-- 
2.43.0


From 0a23deaab73e67c2e5b97f1ddb48194ff9fdda3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 40/90] fix: gebd2, ungbr_q and ungbr_p accept empty matrices

---
 include/tlapack/lapack/gebd2.hpp |  2 +-
 include/tlapack/lapack/ungbr.hpp | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index ad4fb98..18a6c39 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -45,7 +45,7 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t n = ncols(A);
 
     WorkInfo workinfo;
-    if (n > 1) {
+    if (m > 0 && n > 1) {
         auto&& A11 = cols(A, range{1, n});
         workinfo = larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                     col(A, 0), tauv[0], A11);
diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..fecffbf 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m <= 0) return WorkInfo();
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n <= 0) return WorkInfo();
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m <= 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n <= 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
-- 
2.43.0


From 219f5d90141ffd9bb767dda6c3f1a4ef77a2bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 41/90] fix: hetd2 accepts an empty matrix

---
 include/tlapack/lapack/hetd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/hetd2.hpp b/include/tlapack/lapack/hetd2.hpp
index 76892a7..b89bb0c 100644
--- a/include/tlapack/lapack/hetd2.hpp
+++ b/include/tlapack/lapack/hetd2.hpp
@@ -60,7 +60,7 @@ int hetd2(uplo_t uplo, A_t& A, tau_t& tau)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check((idx_t)size(tau) >= n - 1);
+    tlapack_check((idx_t)size(tau) + 1 >= n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 0c6cf506ba2bc3ee4cef4da7350abab3381cecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 42/90] fix: steqr computes a finite shift when the trailing
 diagonal entries are equal

---
 include/tlapack/lapack/steqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..ae9bde2 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -177,7 +177,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istop - 1];
             real_t g = (d[istop - 2] - p) / (two * e[istop - 2]);
             real_t r = lapy2(g, one);
-            g = d[istart] - p + e[istop - 2] / (real_t)(g + (sgn(g) * r));
+            g = d[istart] - p + e[istop - 2] / (real_t)(g + ((g >= zero) ? r : -r));
 
             real_t s = one;
             real_t c = one;
@@ -211,7 +211,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istart];
             real_t g = (d[istart + 1] - p) / (two * e[istart]);
             real_t r = lapy2(g, one);
-            g = d[istop - 1] - p + e[istart] / (real_t)(g + (sgn(g) * r));
+            g = d[istop - 1] - p + e[istart] / (real_t)(g + ((g >= zero) ? r : -r));
 
             real_t s = one;
             real_t c = one;
-- 
2.43.0


From 87550721788a3e8ed664f6d629bf74c370ba4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 43/90] fix: steqr reports that it did not converge

---
 include/tlapack/lapack/steqr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index ae9bde2..9ac8504 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -112,7 +112,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     bool forwarddirection = true;
 
     // Main loop
-    for (idx_t iter = 0; iter < itmax; iter++) {
+    for (idx_t iter = 0; iter <= itmax; iter++) {
         if (iter == itmax) {
             // The QR algorithm failed to converge, return with error.
             return istop;
-- 
2.43.0


From bad69c451f0b9bf54f6c9d920b0864a77e5efab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 44/90] fix: steqr scales matrices whose entries cannot be
 squared safely

---
 include/tlapack/lapack/steqr.hpp | 34 ++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 9ac8504..00493b2 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -93,6 +93,28 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     const real_t eps = ulp<real_t>();
     const real_t eps2 = square(eps);
     const real_t safmin = safe_min<real_t>();
+    const real_t ssfmax = sqrt(one / safmin) / real_t(3);
+    const real_t ssfmin = sqrt(safmin) / eps2;
+
+    // Scale the matrix if its entries are so large or so small that squaring
+    // them would overflow or underflow.
+    real_t anorm = zero;
+    for (idx_t i = 0; i < n; ++i)
+        anorm = max(anorm, abs(d[i]));
+    for (idx_t i = 0; i < n - 1; ++i)
+        anorm = max(anorm, abs(e[i]));
+    real_t scale = one;
+    if (anorm > ssfmax)
+        scale = ssfmax;
+    else if (anorm > zero && anorm < ssfmin)
+        scale = ssfmin;
+    const bool scaled = (scale != one);
+    if (scaled) {
+        for (idx_t i = 0; i < n; ++i)
+            d[i] = (d[i] / anorm) * scale;
+        for (idx_t i = 0; i < n - 1; ++i)
+            e[i] = (e[i] / anorm) * scale;
+    }
 
     // Compute the eigenvalues and eigenvectors of the tridiagonal
     // matrix.
@@ -115,6 +137,12 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     for (idx_t iter = 0; iter <= itmax; iter++) {
         if (iter == itmax) {
             // The QR algorithm failed to converge, return with error.
+            if (scaled) {
+                for (idx_t i = 0; i < n; ++i)
+                    d[i] = (d[i] / scale) * anorm;
+                for (idx_t i = 0; i < n - 1; ++i)
+                    e[i] = (e[i] / scale) * anorm;
+            }
             return istop;
         }
 
@@ -240,6 +268,12 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
         }
     }
 
+    // Undo the scaling
+    if (scaled) {
+        for (idx_t i = 0; i < n; ++i)
+            d[i] = (d[i] / scale) * anorm;
+    }
+
     // Order eigenvalues and eigenvectors
     if (!want_z) {
         // Use quick sort
-- 
2.43.0


From b30bf338a830fc2dd2ee84177730156ab23d4941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:22 +0000
Subject: [PATCH 45/90] fix: laed4.hpp and laed6.hpp include the constants they
 use

---
 include/tlapack/lapack/laed4.hpp | 1 +
 include/tlapack/lapack/laed6.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/tlapack/lapack/laed4.hpp b/include/tlapack/lapack/laed4.hpp
index f2d340a..3bd9d6d 100644
--- a/include/tlapack/lapack/laed4.hpp
+++ b/include/tlapack/lapack/laed4.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_LAED4_HH
 
 //
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 //
diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index b840692..5035f80 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_LAED6_HH
 
 //
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 namespace tlapack {
-- 
2.43.0


From df7f8843abdc7ff123c976d8870ceab3e8222ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:22 +0000
Subject: [PATCH 46/90] fix: laed4 goes on when laed6 succeeds

---
 include/tlapack/lapack/laed4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/laed4.hpp b/include/tlapack/lapack/laed4.hpp
index 3bd9d6d..cd6394a 100644
--- a/include/tlapack/lapack/laed4.hpp
+++ b/include/tlapack/lapack/laed4.hpp
@@ -610,7 +610,7 @@ int laed4(
             std::vector<real_t> sub(delta.begin() + iim1, delta.end());
             info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-            if (info == 0) {
+            if (info != 0) {
                 return info;
             }
         }
@@ -796,7 +796,7 @@ int laed4(
                 std::vector<real_t> sub(delta.begin() + iim1, delta.end());
                 info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-                if (info == 0) {
+                if (info != 0) {
                     return info;
                 }
             }
-- 
2.43.0


From ce8698022f537722698fd70dbb6f4fe5a36c19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 47/90] fix: laed6 scales the quadratic coefficient c

---
 include/tlapack/lapack/laed6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index 5035f80..dfc5ab9 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -279,7 +279,7 @@ int laed6(idx_t kniter,
         temp = max(max(abs(a), abs(b)), abs(c));
         a = a / temp;
         b = b / temp;
-        c = b / temp;
+        c = c / temp;
 
         if (c == 0.0) {
             eta = b / a;
-- 
2.43.0


From 85af783a78f47692c9fd434d6c3218370c4d73b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 48/90] fix: tik_svd and tik_bidiag_elden accept a matrix
 without columns

---
 include/tlapack/lapack/tik_bidiag_elden.hpp | 3 +++
 include/tlapack/lapack/tik_svd.hpp          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index 4659d9a..b624d5d 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -63,6 +63,9 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n <= 0) return;
+
     // Bidiagonal decomposition
     std::vector<T> tauv(n);
     std::vector<T> tauw(n);
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index ff8e0f4..a86711b 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -46,6 +46,9 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n <= 0) return;
+
     using range = pair<idx_t, idx_t>;
 
     std::vector<T> tauv(n);
-- 
2.43.0


From 2e54c4a9b37fd668786da8e7795e3655ae687515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 49/90] fix: tik_svd.hpp includes unmlq.hpp

---
 include/tlapack/lapack/tik_svd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index a86711b..5342a37 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -17,6 +17,7 @@
 #include <tlapack/lapack/laset.hpp>
 #include <tlapack/lapack/svd_qr.hpp>
 #include <tlapack/lapack/ungbr.hpp>
+#include <tlapack/lapack/unmlq.hpp>
 #include <tlapack/lapack/unmqr.hpp>
 
 /**
-- 
2.43.0


From 2fd8562d9e49aac08a02d94a54d343768c689fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 50/90] fix: hetrf stores the updated zero column, the last
 pivot and its info

---
 include/tlapack/lapack/hetf3.hpp         |  5 +++--
 include/tlapack/lapack/hetrf_blocked.hpp | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 0a4b965..3dc3854 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -154,9 +154,10 @@ int hetf3(uplo_t uplo,
             auto i_colmax = tlapack::iamax(slice(W, range{0, j}, jW));
             auto colmax = abs1(W(i_colmax, jW));
             if (max(colmax, abs_Ajj) == 0) {
+                // The updated column is zero: there is nothing to eliminate.
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                if (hermitian) A(j, j) = real(A(j, j));
+                copy_(col(Wj0, jW), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
@@ -365,7 +366,7 @@ int hetf3(uplo_t uplo,
             if (max(colmax, abs_Ajj) == 0) {
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                A(j, j) = real(A(j, j));
+                copy_(col(Wj0, j), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 41517ad..e3ebbe4 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -84,7 +84,12 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j -= step;
         }
-        ipiv[0] = min(0, ipiv[0]);
+        if (j == 1) {
+            // The first column is a pivot of rank 1 that needs no swap
+            ipiv[0] = 0;
+            if (opts.invariant == Op::ConjTrans) A(0, 0) = real(A(0, 0));
+            if (info == 0 && A(0, 0) == T(0)) info = 1;
+        }
     }
     else if (uplo == Uplo::Lower) {
         int j = 0;
@@ -111,7 +116,13 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j += step;
         }
-        if (ipiv[n - 1] >= 0) ipiv[n - 1] = n - 1;
+        if (j == (int)(n)-1) {
+            // The last column is a pivot of rank 1 that needs no swap
+            ipiv[n - 1] = n - 1;
+            if (opts.invariant == Op::ConjTrans)
+                A(n - 1, n - 1) = real(A(n - 1, n - 1));
+            if (info == 0 && A(n - 1, n - 1) == T(0)) info = n;
+        }
     }
     return info;
 }
-- 
2.43.0


From 5ed7658b6b01a9b56606e144cb091f5af5c0b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 51/90] fix: hetf3 bounds rowmax by colmax and avoids overflow
 in the pivot test

---
 include/tlapack/lapack/hetf3.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 3dc3854..8e96861 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -200,7 +200,9 @@ int hetf3(uplo_t uplo,
                             slice(W, range{0, i_colmax}, jW - 1));
                         rowmax = max(rowmax, abs1(W(i_rowmax, jW - 1)));
                     }
-                    if (abs_Ajj >= alpha * colmax * colmax / rowmax) {
+                    // That row contains colmax, up to rounding errors.
+                    rowmax = max(rowmax, colmax);
+                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, jW - 1)) >= alpha * rowmax) {
@@ -406,7 +408,9 @@ int hetf3(uplo_t uplo,
                                        slice(W, range{i_colmax + 1, n}, j + 1));
                         rowmax = max(rowmax, abs1(W(i_rowmax, j + 1)));
                     }
-                    if (abs_Ajj >= alpha * colmax * colmax / rowmax) {
+                    // That row contains colmax, up to rounding errors.
+                    rowmax = max(rowmax, colmax);
+                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, j + 1)) >= alpha * rowmax) {
-- 
2.43.0


From 53773a30c9a3c57f07002a0941fe94acdf7ee7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 52/90] fix: hetf3.hpp does not include hetrf_blocked.hpp,
 which needs its options

---
 include/tlapack/lapack/hetf3.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 8e96861..eb2a476 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -19,7 +19,6 @@
 #include "tlapack/blas/iamax.hpp"
 #include "tlapack/blas/swap.hpp"
 #include "tlapack/blas/syr2k.hpp"
-#include "tlapack/lapack/hetrf_blocked.hpp"
 #include "tlapack/lapack/rscl.hpp"
 
 namespace tlapack {
-- 
2.43.0


From c57ce46df37c002d23b63850c7dc6c32ae011d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 53/90] fix: hetf3 checks that the block size is at least 2 (it
 never returned for 1)

---
 include/tlapack/lapack/hetf3.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index eb2a476..6f3758a 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -26,7 +26,7 @@ namespace tlapack {
 struct BlockedLDLOpts : public EcOpts {
     constexpr BlockedLDLOpts(const EcOpts& opts = {}) : EcOpts(opts){};
 
-    size_t nb = 32;  ///< Block size
+    size_t nb = 32;  ///< Block size, at least 2
     Op invariant = Op::Trans;
 };
 
@@ -78,6 +78,7 @@ int hetf3(uplo_t uplo,
     tlapack_check(nrows(A) == size(ipiv));
     tlapack_check(opts.invariant == Op::Trans ||
                   opts.invariant == Op::ConjTrans);
+    tlapack_check(nb >= 2);
 
     // Quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 74f71171e98364709a5832b596eed45ad2f9ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 54/90] fix: hetf3 pivot test does not underflow for tiny
 columns

---
 include/tlapack/lapack/hetf3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 6f3758a..e53020d 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -202,7 +202,7 @@ int hetf3(uplo_t uplo,
                     }
                     // That row contains colmax, up to rounding errors.
                     rowmax = max(rowmax, colmax);
-                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
+                    if (abs_Ajj * (rowmax / colmax) >= alpha * colmax) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, jW - 1)) >= alpha * rowmax) {
@@ -410,7 +410,7 @@ int hetf3(uplo_t uplo,
                     }
                     // That row contains colmax, up to rounding errors.
                     rowmax = max(rowmax, colmax);
-                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
+                    if (abs_Ajj * (rowmax / colmax) >= alpha * colmax) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, j + 1)) >= alpha * rowmax) {
-- 
2.43.0


From 23f71f25cdbc3c54a49e7683e7664c2233bd1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 55/90] fix: larnv distribution 5 is on the unit circle in the
 working precision

---
 include/tlapack/lapack/larnv.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larnv.hpp b/include/tlapack/lapack/larnv.hpp
index 45689f9..13f66ae 100644
--- a/include/tlapack/lapack/larnv.hpp
+++ b/include/tlapack/lapack/larnv.hpp
@@ -47,6 +47,9 @@ void larnv(iseed_t& iseed, vector_t& x)
     using T = type_t<vector_t>;
     using real_t = real_type<T>;
 
+    using std::cos;
+    using std::sin;
+
     // Constants
     const idx_t n = size(x);
     const double twopi(8 * std::atan(1.0));
@@ -95,8 +98,9 @@ void larnv(iseed_t& iseed, vector_t& x)
         else if constexpr (idist == 5) {
             std::uniform_real_distribution<> d5(0, 1);
             for (idx_t i = 0; i < n; ++i) {
-                double theta = twopi * d5(generator);
-                x[i] = T(real_t(cos(theta)), real_t(sin(theta)));
+                // the point lies on the unit circle in the precision of T
+                const real_t theta(twopi * d5(generator));
+                x[i] = T(cos(theta), sin(theta));
             }
         }
     }
-- 
2.43.0


From b129b43a497eaa677b9687cd307e7111933820e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 56/90] fix: trevc_backsolve stores the index of the largest
 entry as an index

---
 include/tlapack/lapack/trevc_backsolve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index 71dddf2..2b5f775 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -154,7 +154,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Safely update the right-hand side
             if (i > 1) {
-                real_t ivmax = iamax(slice(v1, range(0, i - 1)));
+                idx_t ivmax = iamax(slice(v1, range(0, i - 1)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i - 1];
@@ -216,7 +216,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
             if (i > 0) {
-                real_t ivmax = iamax(slice(v1, range(0, i)));
+                idx_t ivmax = iamax(slice(v1, range(0, i)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i];  // use precomputed column norms
@@ -320,7 +320,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
         // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
         if (i > 0) {
-            real_t ivmax = iamax(slice(v1, range(0, i)));
+            idx_t ivmax = iamax(slice(v1, range(0, i)));
             real_t vmax = abs1(v1[ivmax]);
 
             real_t tmax = colN[i];  // use precomputed column norms
-- 
2.43.0


From 3150a83385aa6bac1b78ccd0cbf14ce57e3a76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 57/90] fix: rotmg assigns an integer to its integer flag

---
 include/tlapack/blas/rotmg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index e9aaf86..ecded86 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -127,7 +127,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
             const T q1 = p1 * a;
 
             if (abs(q1) > abs(q2)) {
-                flag = zero;
+                flag = 0;
                 h[1] = -b / a;
                 h[2] = p2 / p1;
                 const T u = one - h[2] * h[1];
-- 
2.43.0


From 5b7c8ff6e19880fefd4f41f245c414626d0bf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 58/90] fix: legacy gemv does not write to its input vector
 (row-major, conjugate transpose)

---
 include/tlapack/legacy_api/blas/gemv.hpp | 41 ++++++------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/gemv.hpp b/include/tlapack/legacy_api/blas/gemv.hpp
index 1bf5ec8..f949db4 100644
--- a/include/tlapack/legacy_api/blas/gemv.hpp
+++ b/include/tlapack/legacy_api/blas/gemv.hpp
@@ -117,30 +117,19 @@ namespace legacy {
             return;
 
         // Transpose if Row Major
-        bool doConj = false;
         if (layout == Layout::RowMajor) {
-            // A => A^T; A^T => A; A^H => A & doConj
+            // A => A^T; A^T => A; A^H => conj(A)
             std::swap(m, n);
             if (trans == Op::NoTrans)
                 trans = Op::Trans;
-            else {
-                if (trans == Op::ConjTrans) doConj = true;
-                trans = Op::NoTrans;
-            }
+            else
+                trans = (trans == Op::ConjTrans) ? Op::Conj : Op::NoTrans;
         }
 
         // Initialize indexes
-        const idx_t lenx = ((trans == Op::NoTrans) ? n : m);
-        const idx_t leny = ((trans == Op::NoTrans) ? m : n);
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
-        }
+        const bool isTrans = (trans == Op::Trans || trans == Op::ConjTrans);
+        const idx_t lenx = isTrans ? m : n;
+        const idx_t leny = isTrans ? n : m;
 
         // Matrix views
         const auto A_ = create_matrix<TA>((TA*)A, m, n, lda);
@@ -150,25 +139,13 @@ namespace legacy {
                 y_, TY, leny, y, incy,
                 if (beta == scalar_t(0)) for (idx_t i = 0; i < leny; ++i)
                     y_[i] = TY(0);
-                else for (idx_t i = 0; i < leny; ++i) y_[i] *=
-                (doConj) ? conj(beta) : beta);
+                else for (idx_t i = 0; i < leny; ++i) y_[i] *= beta);
         }
         else {
             tlapack_expr_with_2vectors(
                 x_, TX, lenx, x, incx, y_, TY, leny, y, incy,
-                if (beta == scalar_t(0))
-                    gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_, y_);
-                else gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_,
-                          (doConj) ? conj(beta) : beta, y_));
-        }
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
+                if (beta == scalar_t(0)) gemv(trans, alpha, A_, x_, y_);
+                else gemv(trans, alpha, A_, x_, beta, y_));
         }
     }
 
-- 
2.43.0


From f02d7c3fb4a161858f4e6a6815ebf24540745983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 59/90] fix: legacy her and her2 update row-major matrices
 without conjugating the result

---
 include/tlapack/legacy_api/blas/her.hpp  | 20 +++++++++++++-------
 include/tlapack/legacy_api/blas/her2.hpp | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her.hpp b/include/tlapack/legacy_api/blas/her.hpp
index db2fb72..b51b789 100644
--- a/include/tlapack/legacy_api/blas/her.hpp
+++ b/include/tlapack/legacy_api/blas/her.hpp
@@ -71,6 +71,7 @@ namespace legacy {
              idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using real_t = real_type<TA, TX>;
 
         // check arguments
@@ -84,15 +85,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == real_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_vector(x_, TX, n, x, incx, her(uplo, alpha, x_, A_));
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
+        }
     }
 
 }  // namespace legacy
diff --git a/include/tlapack/legacy_api/blas/her2.hpp b/include/tlapack/legacy_api/blas/her2.hpp
index 6a3e02c..c87c20b 100644
--- a/include/tlapack/legacy_api/blas/her2.hpp
+++ b/include/tlapack/legacy_api/blas/her2.hpp
@@ -80,6 +80,7 @@ namespace legacy {
               idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX>;
 
         // check arguments
@@ -94,16 +95,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == scalar_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
-                                   return her2(uplo, alpha, x_, y_, A_));
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
     }
 
 }  // namespace legacy
-- 
2.43.0


From 319270d060189c35af7eefbf47e069a44f39c75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 60/90] fix: legacy rank-k updates with alpha = 0 leave the
 opposite triangle alone

---
 include/tlapack/legacy_api/blas/her2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/herk.hpp  | 6 ++++--
 include/tlapack/legacy_api/blas/syr2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/syrk.hpp  | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..33baee2 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..013c2a1 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -140,12 +140,14 @@ namespace legacy {
         if (alpha == real_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..6a8e743 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..3afa469 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -142,12 +142,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
-- 
2.43.0


From 5028e23f22c950746e214f191bba477f515f7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 61/90] fix: legacy herk and her2k with alpha = 0 keep the
 diagonal real

---
 include/tlapack/legacy_api/blas/her2k.hpp | 4 +++-
 include/tlapack/legacy_api/blas/herk.hpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index 33baee2..8362efb 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -167,10 +167,12 @@ namespace legacy {
                         C_(i, j) = TC(0);
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
+                for (idx_t j = 0; j < n; ++j) {
                     for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
                          i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index 013c2a1..4b53654 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -145,10 +145,12 @@ namespace legacy {
                         C_(i, j) = TC(0);
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
+                for (idx_t j = 0; j < n; ++j) {
                     for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
                          i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
-- 
2.43.0


From 890193b7bf057e88a1753454383ac8e220314066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 62/90] fix: legacy rotm rejects invalid flags

---
 include/tlapack/legacy_api/blas/rotm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/blas/rotm.hpp b/include/tlapack/legacy_api/blas/rotm.hpp
index c69aaec..ad57fb5 100644
--- a/include/tlapack/legacy_api/blas/rotm.hpp
+++ b/include/tlapack/legacy_api/blas/rotm.hpp
@@ -67,7 +67,7 @@ namespace legacy {
         // check arguments
         tlapack_check_false(incx == 0);
         tlapack_check_false(incy == 0);
-        tlapack_check_false(flag < -2 && flag > 1);
+        tlapack_check_false(flag < -2 || flag > 1);
 
         // quick return
         if (n <= 0) return;
-- 
2.43.0


From e9fbaf50171db6159a42bdb3a7e008cdfaeac514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 63/90] fix: slice of a backward LegacyVector addresses the
 named elements

---
 include/tlapack/plugins/legacyArray.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..d11898f 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -381,7 +381,10 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward) ? &v.ptr[rows.first * v.inc]
+                                          : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -569,7 +572,10 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward) ? &v.ptr[rows.first * v.inc]
+                                          : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // Reshape LegacyMatrix
-- 
2.43.0


From 866e1e87491b1b3e4bc01e538e58e70b9d9e4d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 64/90] fix: reshape of a backward LegacyVector into a matrix
 is rejected

---
 include/tlapack/plugins/legacyArray.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index d11898f..ff2f1bb 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -687,12 +687,13 @@ auto reshape(LegacyVector<T, idx_t, int_t, direction>& v,
     // constants
     const idx_t new_size = m * n;
     const idx_t s = v.n - new_size;
-    const bool is_contiguous = (v.inc == 1) || (v.n <= 1);
+    const bool is_contiguous =
+        (direction == Direction::Forward && v.inc == 1) || (v.n <= 1);
 
     // Check arguments
     if (new_size > v.n)
         throw std::domain_error("New size is larger than current size");
-    if (!is_contiguous && m > 1)
+    if (!is_contiguous && (m > 1 || direction == Direction::Backward))
         throw std::domain_error(
             "New sizes are not compatible with the current vector.");
 
-- 
2.43.0


From c41d7498de8272a14e027d9f800e4d017973516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 65/90] fix: reshape of a non-contiguous matrix to an empty one
 has the requested sizes

---
 include/tlapack/plugins/legacyArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index ff2f1bb..7c53082 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -606,10 +606,12 @@ auto reshape(LegacyMatrix<T, idx_t, layout>& A,
                 : matrix_t(1, size - new_size, &A.ptr[0] + new_size));
     }
     else {
-        if (m == A.m || n == 0)
+        if (new_size == 0)
+            return std::make_pair(matrix_t(m, n, &A.ptr[0]), A);
+        else if (m == A.m)
             return std::make_pair(cols(A, std::pair{(idx_t)0, n}),
                                   cols(A, std::pair{n, A.n}));
-        else if (n == A.n || m == 0)
+        else if (n == A.n)
             return std::make_pair(rows(A, std::pair{(idx_t)0, m}),
                                   rows(A, std::pair{m, A.m}));
         else
-- 
2.43.0


From 890a174f835ef9b55b7662c1bbfa9d38fc0afe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 66/90] fix: rotmg terminates when the scaled weights overflow
 or underflow

---
 include/tlapack/blas/rotmg.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index ecded86..4ce3a0f 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -137,7 +137,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                     a *= u;
                 }
             }
-            else if (q2 < zero) {
+            else if (q2 < zero || (q2 == zero && d2 < zero)) {
                 flag = -1;
                 d1 = zero;
                 d2 = zero;
@@ -155,7 +155,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
             }
 
             if (d1 != zero) {
-                while ((d1 <= rgamsq) || (d1 >= gamsq)) {
+                while ((d1 <= rgamsq) || ((d1 >= gamsq) && !isinf(d1))) {
                     if (flag == 0) {
                         h[0] = one;
                         h[3] = one;
@@ -182,7 +182,8 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
             }
 
             if (d2 != zero) {
-                while ((abs(d2) <= rgamsq) || (abs(d2) >= gamsq)) {
+                while ((abs(d2) <= rgamsq) ||
+                       ((abs(d2) >= gamsq) && !isinf(d2))) {
                     if (flag == 0) {
                         h[0] = one;
                         h[3] = one;
-- 
2.43.0


From a563fb60cfba39f527582cf068812cc1f0ff4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 67/90] fix: division by StrongZero yields infinity for complex
 types

---
 include/tlapack/base/StrongZero.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/base/StrongZero.hpp b/include/tlapack/base/StrongZero.hpp
index 3e1e46f..0c63718 100644
--- a/include/tlapack/base/StrongZero.hpp
+++ b/include/tlapack/base/StrongZero.hpp
@@ -89,7 +89,7 @@ struct StrongZero {
     template <typename T>
     friend constexpr T& operator/=(T& lhs, StrongZero) noexcept
     {
-        return (lhs = std::numeric_limits<T>::infinity());
+        return (lhs = T(std::numeric_limits<real_type<T>>::infinity()));
     }
 
     // Arithmetic operators
@@ -159,7 +159,7 @@ struct StrongZero {
     template <typename T>
     friend constexpr T operator/(const T&, StrongZero) noexcept
     {
-        return std::numeric_limits<T>::infinity();
+        return T(std::numeric_limits<real_type<T>>::infinity());
     }
 
     // Change of sign
-- 
2.43.0


From dd8c9828791ae069a3327b1783e33f4dbac0c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 68/90] fix: gemmtr rejects a C with only one matching
 dimension

---
 include/tlapack/lapack/gemmtr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gemmtr.hpp b/include/tlapack/lapack/gemmtr.hpp
index 14f2fb8..6e513a9 100644
--- a/include/tlapack/lapack/gemmtr.hpp
+++ b/include/tlapack/lapack/gemmtr.hpp
@@ -82,7 +82,7 @@ void gemmtr(Uplo uplo,
                         transA != Op::ConjTrans);
     tlapack_check_false(transB != Op::NoTrans && transB != Op::Trans &&
                         transB != Op::ConjTrans);
-    tlapack_check_false((idx_t)ncols(C) != n && (idx_t)nrows(C) != n);
+    tlapack_check_false((idx_t)ncols(C) != n || (idx_t)nrows(C) != n);
     tlapack_check_false(
         (idx_t)((transA == Op::NoTrans) ? ncols(A) : nrows(A)) != k);
     tlapack_check_false(
-- 
2.43.0


From 5cfb957078c71e174c0a059d22624053556ff415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 69/90] fix: larfb checks the number of reflectors stored in V

---
 include/tlapack/lapack/larfb.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/larfb.hpp b/include/tlapack/lapack/larfb.hpp
index 35f9a11..42e3a19 100644
--- a/include/tlapack/lapack/larfb.hpp
+++ b/include/tlapack/lapack/larfb.hpp
@@ -140,10 +140,10 @@ int larfb_work(side_t side,
                         storeMode != StoreV::Rowwise);
     tlapack_check(
         (storeMode == StoreV::Columnwise)
-            ? ((ncols(V) == k) && (side == Side::Left) ? (nrows(V) == m)
-                                                       : (nrows(V) == n))
-            : ((nrows(V) == k) && (side == Side::Left) ? (ncols(V) == m)
-                                                       : (ncols(V) == n)));
+            ? ((ncols(V) == k) &&
+               ((side == Side::Left) ? (nrows(V) == m) : (nrows(V) == n)))
+            : ((nrows(V) == k) &&
+               ((side == Side::Left) ? (ncols(V) == m) : (ncols(V) == n))));
     tlapack_check(nrows(Tmatrix) == ncols(Tmatrix));
 
     // Quick return
-- 
2.43.0


From ac24ee79d8b58b879afe3fec66cb6f2e5e60dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 70/90] fix: QR-type factorizations check the length of tau
 before using it in the workspace query

---
 include/tlapack/lapack/gelq2.hpp | 3 +++
 include/tlapack/lapack/gelqf.hpp | 3 +++
 include/tlapack/lapack/geql2.hpp | 3 +++
 include/tlapack/lapack/geqlf.hpp | 3 +++
 include/tlapack/lapack/geqr2.hpp | 3 +++
 include/tlapack/lapack/geqrf.hpp | 3 +++
 include/tlapack/lapack/gerq2.hpp | 3 +++
 include/tlapack/lapack/gerqf.hpp | 3 +++
 8 files changed, 24 insertions(+)

diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index a5421a2..cf74ba0 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -38,6 +38,9 @@ constexpr WorkInfo gelq2_worksize(const matrix_t& A, const vector_t& tauw)
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tauw) < min(m, n));
+
     if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(A, 0),
diff --git a/include/tlapack/lapack/gelqf.hpp b/include/tlapack/lapack/gelqf.hpp
index 61501ec..89cf649 100644
--- a/include/tlapack/lapack/gelqf.hpp
+++ b/include/tlapack/lapack/gelqf.hpp
@@ -52,6 +52,9 @@ constexpr WorkInfo gelqf_worksize(const A_t& A,
     const idx_t k = min(m, n);
     const idx_t nb = min<idx_t>(opts.nb, k);
 
+    // check arguments
+    tlapack_check((idx_t)size(tau) >= k);
+
     auto&& A11 = rows(A, range(0, nb));
     auto&& tauw1 = slice(tau, range(0, nb));
     WorkInfo workinfo = gelq2_worksize<T>(A11, tauw1);
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index a8a42ba..b596a96 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -38,6 +38,9 @@ constexpr WorkInfo geql2_worksize(const matrix_t& A, const vector_t& tau)
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tau) < min(m, n));
+
     if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
diff --git a/include/tlapack/lapack/geqlf.hpp b/include/tlapack/lapack/geqlf.hpp
index bcc1ba9..95824ac 100644
--- a/include/tlapack/lapack/geqlf.hpp
+++ b/include/tlapack/lapack/geqlf.hpp
@@ -52,6 +52,9 @@ constexpr WorkInfo geqlf_worksize(const A_t& A,
     const idx_t k = min(m, n);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // check arguments
+    tlapack_check((idx_t)size(tau) >= k);
+
     auto&& A11 = cols(A, range(0, nb));
     auto&& tauw1 = slice(tau, range(0, nb));
     WorkInfo workinfo = geql2_worksize<T>(A11, tauw1);
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 1278091..70980ff 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -38,6 +38,9 @@ constexpr WorkInfo geqr2_worksize(const matrix_t& A, const vector_t& tau)
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tau) < min(m, n));
+
     if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
diff --git a/include/tlapack/lapack/geqrf.hpp b/include/tlapack/lapack/geqrf.hpp
index 14c8fa9..1d82454 100644
--- a/include/tlapack/lapack/geqrf.hpp
+++ b/include/tlapack/lapack/geqrf.hpp
@@ -52,6 +52,9 @@ constexpr WorkInfo geqrf_worksize(const A_t& A,
     const idx_t k = min(m, n);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // check arguments
+    tlapack_check((idx_t)size(tau) >= k);
+
     auto&& A11 = cols(A, range(0, nb));
     auto&& tauw1 = slice(tau, range(0, nb));
     WorkInfo workinfo = geqr2_worksize<T>(A11, tauw1);
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 7ab327b..a586483 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -38,6 +38,9 @@ constexpr WorkInfo gerq2_worksize(const matrix_t& A, const vector_t& tau)
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tau) < min(m, n));
+
     if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
diff --git a/include/tlapack/lapack/gerqf.hpp b/include/tlapack/lapack/gerqf.hpp
index dcc8293..a4b9520 100644
--- a/include/tlapack/lapack/gerqf.hpp
+++ b/include/tlapack/lapack/gerqf.hpp
@@ -52,6 +52,9 @@ constexpr WorkInfo gerqf_worksize(const A_t& A,
     const idx_t k = min(m, n);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // check arguments
+    tlapack_check((idx_t)size(tau) >= k);
+
     auto&& A11 = rows(A, range(0, nb));
     auto&& tauw1 = slice(tau, range(0, nb));
     WorkInfo workinfo = gerq2_worksize<T>(A11, tauw1);
-- 
2.43.0


From 4456771b3784315c47ac918c127593e96a489643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 71/90] fix: larfb, unmq, ungq check their arguments before
 quick return and workspace query

---
 include/tlapack/lapack/larfb.hpp       | 14 ++++++++++++++
 include/tlapack/lapack/ungq.hpp        |  7 +++++++
 include/tlapack/lapack/ungq_level2.hpp |  7 +++++++
 include/tlapack/lapack/unmq.hpp        | 13 +++++++++++++
 include/tlapack/lapack/unmq_level2.hpp | 13 +++++++++++++
 5 files changed, 54 insertions(+)

diff --git a/include/tlapack/lapack/larfb.hpp b/include/tlapack/lapack/larfb.hpp
index 42e3a19..7eb6511 100644
--- a/include/tlapack/lapack/larfb.hpp
+++ b/include/tlapack/lapack/larfb.hpp
@@ -531,6 +531,20 @@ int larfb(side_t side,
 
     // check arguments
     tlapack_check_false(side != Side::Left && side != Side::Right);
+    tlapack_check_false(
+        trans != Op::NoTrans && trans != Op::ConjTrans &&
+        ((trans != Op::Trans) || is_complex<type_t<matrixV_t>>));
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    tlapack_check_false(storeMode != StoreV::Columnwise &&
+                        storeMode != StoreV::Rowwise);
+    tlapack_check(
+        (storeMode == StoreV::Columnwise)
+            ? ((ncols(V) == k) &&
+               ((side == Side::Left) ? (nrows(V) == m) : (nrows(V) == n)))
+            : ((nrows(V) == k) &&
+               ((side == Side::Left) ? (ncols(V) == m) : (ncols(V) == n))));
+    tlapack_check(nrows(Tmatrix) == ncols(Tmatrix));
 
     // Quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 51df861..cccf48d 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -370,6 +370,13 @@ int ungq(direction_t direction,
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? (m >= n && n >= (idx_t)size(tau))
+                      : (n >= m && m >= (idx_t)size(tau)));
+
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index e90142c..9b007e3 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -301,6 +301,13 @@ int ungq_level2(direction_t direction,
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? (m >= n && n >= (idx_t)size(tau))
+                      : (n >= m && m >= (idx_t)size(tau)));
+
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
diff --git a/include/tlapack/lapack/unmq.hpp b/include/tlapack/lapack/unmq.hpp
index 90247af..035b266 100644
--- a/include/tlapack/lapack/unmq.hpp
+++ b/include/tlapack/lapack/unmq.hpp
@@ -300,6 +300,19 @@ int unmq(side_t side,
     const idx_t n = ncols(C);
     const idx_t k = size(tau);
 
+    // check arguments
+    tlapack_check_false(side != Side::Left && side != Side::Right);
+    tlapack_check_false(
+        trans != Op::NoTrans && trans != Op::ConjTrans &&
+        ((trans != Op::Trans) || is_complex<type_t<matrixV_t>>));
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? ((ncols(V) == k) &&
+                         (nrows(V) == ((side == Side::Left) ? m : n)))
+                      : ((nrows(V) == k) &&
+                         (ncols(V) == ((side == Side::Left) ? m : n))));
+
     // quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
 
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index 309bdbc..09b3e08 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -328,6 +328,19 @@ int unmq_level2(side_t side,
     const idx_t n = ncols(C);
     const idx_t k = size(tau);
 
+    // check arguments
+    tlapack_check_false(side != Side::Left && side != Side::Right);
+    tlapack_check_false(
+        trans != Op::NoTrans && trans != Op::ConjTrans &&
+        ((trans != Op::Trans) || is_complex<type_t<matrixV_t>>));
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? ((ncols(V) == k) &&
+                         (nrows(V) == ((side == Side::Left) ? m : n)))
+                      : ((nrows(V) == k) &&
+                         (ncols(V) == ((side == Side::Left) ? m : n))));
+
     // quick return
     if ((m <= 0) || (n <= 0) || (k <= 0)) return 0;
 
-- 
2.43.0


From c0d3b114a149f075c97ad047d66fc7fa3daa149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 72/90] fix: gehrd and unghr check their arguments before the
 workspace query

---
 include/tlapack/lapack/gehrd.hpp | 8 ++++++++
 include/tlapack/lapack/unghr.hpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 161ad45..2415714 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -235,9 +235,17 @@ int gehrd(size_type<matrix_t> ilo,
     // constants
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false(ncols(A) != nrows(A));
+
     // quick return
     if (n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ihi < 0) or (ihi > n));
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
+
     // Allocates workspace
     WorkInfo workinfo = gehrd_worksize<T>(ilo, ihi, A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index ae6b200..11d3768 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -157,10 +157,14 @@ int unghr(size_type<matrix_t> ilo,
           const vector_t& tau)
 {
     using T = type_t<matrix_t>;
+    using idx_t = size_type<matrix_t>;
 
     // Functor
     Create<matrix_t> new_matrix;
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tau) + 1 < min(nrows(A), ncols(A)));
+
     // Allocates workspace
     WorkInfo workinfo = unghr_worksize<T>(ilo, ihi, A, tau);
     std::vector<T> work_;
-- 
2.43.0


From 7305b291662c05dd98b83e25092c233e7419a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 73/90] fix: aggressive_early_deflation checks its arguments
 before the workspace query

---
 include/tlapack/lapack/aggressive_early_deflation.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 49daa4d..1034fc2 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -620,6 +620,14 @@ void aggressive_early_deflation(bool want_t,
     // First row index in the deflation window
     const idx_t kwtop = ihi - jw;
 
+    // check arguments
+    tlapack_check(nrows(A) == n);
+    if (want_z) {
+        tlapack_check(ncols(Z) == n);
+        tlapack_check(nrows(Z) == n);
+    }
+    tlapack_check((idx_t)size(s) == n);
+
     // s is the value just outside the window. It determines the spike
     // together with the orthogonal schur factors.
     T s_spike;
-- 
2.43.0


From 724f015c35eadbde52e430ea56b36c155aab6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 74/90] fix: gelqt checks TT before using it in the workspace
 query

---
 include/tlapack/lapack/gelqt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 1017eaa..b4fb585 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -41,6 +41,9 @@ constexpr WorkInfo gelqt_worksize(const matrix_t& A, const matrix_t& TT)
     const idx_t k = min(m, n);
     const idx_t nb = min((idx_t)ncols(TT), k);
 
+    // check arguments
+    tlapack_check_false(nrows(TT) < m);
+
     auto&& TT1 = slice(TT, range(0, nb), range(0, nb));
     auto&& A11 = rows(A, range(0, nb));
     auto&& tauw1 = diag(TT1);
-- 
2.43.0


From 96e69addc322ea233a8a45066b22dd34eb998387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 75/90] fix: multishift_qr checks its arguments before
 accessing w

---
 include/tlapack/lapack/multishift_qr.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index 76ad2a4..8f6096a 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -486,6 +486,13 @@ int multishift_qr(bool want_t,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = opts.nmin;
 
+    // check arguments
+    tlapack_check_false(n != nrows(A));
+    tlapack_check_false((idx_t)size(w) != n);
+    if (want_z) {
+        tlapack_check_false((n != ncols(Z)) or (n != nrows(Z)));
+    }
+
     // quick return
     if (nh <= 0) return 0;
     if (nh == 1) w[ilo] = A(ilo, ilo);
-- 
2.43.0


From bfbbca3b5f9b2f55f3f6993105c9a45be9b9c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 76/90] fix: unmq rejects more reflectors than the order of Q

---
 include/tlapack/lapack/unmq.hpp        | 2 ++
 include/tlapack/lapack/unmq_level2.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/unmq.hpp b/include/tlapack/lapack/unmq.hpp
index 035b266..ed4fe48 100644
--- a/include/tlapack/lapack/unmq.hpp
+++ b/include/tlapack/lapack/unmq.hpp
@@ -158,6 +158,7 @@ int unmq_work(side_t side,
     tlapack_check((storeMode == StoreV::Columnwise)
                       ? ((ncols(V) == k) && (nrows(V) == nQ))
                       : ((nrows(V) == k) && (ncols(V) == nQ)));
+    tlapack_check(k <= nQ);
 
     // quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
@@ -312,6 +313,7 @@ int unmq(side_t side,
                          (nrows(V) == ((side == Side::Left) ? m : n)))
                       : ((nrows(V) == k) &&
                          (ncols(V) == ((side == Side::Left) ? m : n))));
+    tlapack_check(k <= ((side == Side::Left) ? m : n));
 
     // quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index 09b3e08..9e9b07d 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -137,6 +137,7 @@ int unmq_level2_work(side_t side,
     tlapack_check((storeMode == StoreV::Columnwise)
                       ? ((ncols(V) == k) && (nrows(V) == nQ))
                       : ((nrows(V) == k) && (ncols(V) == nQ)));
+    tlapack_check(k <= nQ);
 
     // quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
@@ -340,6 +341,7 @@ int unmq_level2(side_t side,
                          (nrows(V) == ((side == Side::Left) ? m : n)))
                       : ((nrows(V) == k) &&
                          (ncols(V) == ((side == Side::Left) ? m : n))));
+    tlapack_check(k <= ((side == Side::Left) ? m : n));
 
     // quick return
     if ((m <= 0) || (n <= 0) || (k <= 0)) return 0;
-- 
2.43.0


From 5b002086af44f9b710b87f1d993521f96ad39ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 77/90] fix: gebd2 checks tauv and tauw before using them in
 the workspace query

---
 include/tlapack/lapack/gebd2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index 18a6c39..56de3c6 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -44,6 +44,10 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tauv) < min(m, n));
+    tlapack_check_false((idx_t)size(tauw) < min(m, n));
+
     WorkInfo workinfo;
     if (m > 0 && n > 1) {
         auto&& A11 = cols(A, range{1, n});
-- 
2.43.0


From cb3dba5e3693d6040979a98a5d1bf0b9a70b02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 78/90] fix: WorkInfo::transpose keeps the contiguity
 requirement

---
 include/tlapack/base/workspace.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/base/workspace.hpp b/include/tlapack/base/workspace.hpp
index fd6b2f7..a117c01 100644
--- a/include/tlapack/base/workspace.hpp
+++ b/include/tlapack/base/workspace.hpp
@@ -159,7 +159,8 @@ struct WorkInfo {
 
     constexpr WorkInfo transpose() const noexcept
     {
-        if (size() == 0 || isVector)
+        // A contiguous workspace has no shape to be transposed
+        if (size() == 0 || isVector || isContiguous)
             return *this;
         else
             return WorkInfo(n, m);
-- 
2.43.0


From 804e2a1637df31db85a4a97afe842fdb5150427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 79/90] fix: lascl with an infinite numerator and a negative
 denominator returns the right sign

---
 include/tlapack/lapack/lascl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index d17cf00..6b7e949 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -99,9 +99,9 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
             a1 = a_ / big;
             if (a1 == a_) {
                 // a is either 0 or an infinity number:
-                //  in both cases, c = a serves as the correct multiplication
-                //  factor.
-                c = a_;
+                //  in both cases, c = a with the sign of a/b serves as the
+                //  correct multiplication factor.
+                c = (b_ < real_t(0)) ? -a_ : a_;
                 done = true;
             }
             else if ((abs(b1) > abs(a_)) && (a_ != real_t(0))) {
@@ -230,9 +230,9 @@ int lascl(BandAccess accessType, const b_type& b, const a_type& a, matrix_t& A)
             a1 = a_ / big;
             if (a1 == a_) {
                 // a is either 0 or an infinity number:
-                //  in both cases, c = a serves as the correct multiplication
-                //  factor.
-                c = a_;
+                //  in both cases, c = a with the sign of a/b serves as the
+                //  correct multiplication factor.
+                c = (b_ < real_t(0)) ? -a_ : a_;
                 done = true;
             }
             else if ((abs(b1) > abs(a_)) && (a_ != real_t(0))) {
-- 
2.43.0


From fb6f4d87c08a1613b0f8e90c636db2563d6c04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:05 +0000
Subject: [PATCH 80/90] fix: hetf3 applies the inverse of a 2-by-2 pivot
 without overflow

---
 include/tlapack/lapack/hetf3.hpp | 46 ++++++++++++++------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index e53020d..f66bb2b 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -261,21 +261,18 @@ int hetf3(uplo_t uplo,
                     // A. We use an optimized 2-by-2 inversion algorithm that
                     // minimizes the number of operations by pulling out factors
                     // to set the antidiagonals to -1.
-                    T D21 = W(j - 1, jW);
-                    T D11 = W(j, jW) / (hermitian ? conj(D21) : D21);
+                    // D21 is applied by division, since 1 / D21 may overflow.
+                    const T D21 = W(j - 1, jW);
+                    const T D12 = hermitian ? conj(D21) : D21;
+                    T D11 = W(j, jW) / D12;
                     T D22 = W(j - 1, jW - 1) / D21;
-                    if (hermitian) {
-                        real_t d = real_t(1) / (real(D11 * D22) - real_t(1));
-                        D21 = d / D21;
-                    }
-                    else {
-                        T d = T(1) / (D11 * D22 - T(1));
-                        D21 = d / D21;
-                    }
+                    T d = D11 * D22;
+                    if (hermitian) d = real(d);
+                    d = T(1) / (d - T(1));
                     for (int k = 0; k < s; ++k) {
-                        A(k, j - 1) = D21 * (D11 * W(k, jW - 1) - W(k, jW));
-                        A(k, j) = (hermitian ? conj(D21) : D21) *
-                                  (D22 * W(k, jW) - W(k, jW - 1));
+                        A(k, j - 1) =
+                            d * ((D11 * W(k, jW - 1) - W(k, jW)) / D21);
+                        A(k, j) = d * ((D22 * W(k, jW) - W(k, jW - 1)) / D12);
                     }
                     A(j, j) = W(j, jW);
                     A(j - 1, j) = W(j - 1, jW);
@@ -443,21 +440,18 @@ int hetf3(uplo_t uplo,
                               slice(A, range{j + 1, n}, j));
                 }
                 else {
-                    T D21 = W(j + 1, j);
-                    T D22 = W(j, j) / (hermitian ? conj(D21) : D21);
+                    // D21 is applied by division, since 1 / D21 may overflow.
+                    const T D21 = W(j + 1, j);
+                    const T D12 = hermitian ? conj(D21) : D21;
+                    T D22 = W(j, j) / D12;
                     T D11 = W(j + 1, j + 1) / D21;
-                    if (hermitian) {
-                        real_t d = real_t(1) / (real(D11 * D22) - real_t(1));
-                        D21 = d / D21;
-                    }
-                    else {
-                        T d = T(1) / (D11 * D22 - T(1));
-                        D21 = d / D21;
-                    }
+                    T d = D11 * D22;
+                    if (hermitian) d = real(d);
+                    d = T(1) / (d - T(1));
                     for (int k = j + 2; k < n; ++k) {
-                        A(k, j) = (hermitian ? conj(D21) : D21) *
-                                  (D11 * W(k, j) - W(k, j + 1));
-                        A(k, j + 1) = D21 * (D22 * W(k, j + 1) - W(k, j));
+                        A(k, j) = d * ((D11 * W(k, j) - W(k, j + 1)) / D12);
+                        A(k, j + 1) =
+                            d * ((D22 * W(k, j + 1) - W(k, j)) / D21);
                     }
                     A(j, j) = W(j, j);
                     A(j + 1, j) = W(j + 1, j);
-- 
2.43.0


From ba618813bbbc829fe787c9632ddb8d4324b7e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:08 +0000
Subject: [PATCH 81/90] fix: creation of Eigen row vectors and of static Eigen
 vectors

---
 include/tlapack/plugins/eigen.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/plugins/eigen.hpp b/include/tlapack/plugins/eigen.hpp
index 8c87065..f1acb14 100644
--- a/include/tlapack/plugins/eigen.hpp
+++ b/include/tlapack/plugins/eigen.hpp
@@ -134,7 +134,11 @@ namespace traits {
         {
             assert(m >= 0 && n >= 0);
             v.resize(0);
-            return Eigen::Matrix<T, Rows_, Cols_, Options_>(m, n);
+            if constexpr (Rows_ == 1 && Cols_ != 1)
+                // row vector with m*n entries, whether m is its size or 1
+                return Eigen::Matrix<T, Rows_, Cols_, Options_>(1, m * n);
+            else
+                return Eigen::Matrix<T, Rows_, Cols_, Options_>(m, n);
         }
     };
 
@@ -145,14 +149,18 @@ namespace traits {
         m,
         n,
         typename std::enable_if<is_eigen_type<U>, int>::type> {
+        static constexpr int Cols_ = (n == -1) ? 1 : n;
+        // Eigen vectors have only one valid storage order
         static constexpr int Options_ =
-            (U::IsRowMajor) ? Eigen::RowMajor : Eigen::ColMajor;
+            (Cols_ == 1 && m != 1)   ? Eigen::ColMajor
+            : (m == 1 && Cols_ != 1) ? Eigen::RowMajor
+            : (U::IsRowMajor)        ? Eigen::RowMajor
+                                     : Eigen::ColMajor;
         static_assert(m >= 0 && n >= -1);
 
         template <typename T>
         constexpr auto operator()(T* v) const
         {
-            constexpr int Cols_ = (n == -1) ? 1 : n;
             return Eigen::Matrix<T, m, Cols_, Options_, m, Cols_>();
         }
     };
-- 
2.43.0


From 67f8ffe67976650000126a29e3e728d9f34a0e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:08 +0000
Subject: [PATCH 82/90] fix: trmm_blocked_mixed with an index type other than
 size_t

---
 include/tlapack/lapack/trmm_blocked_mixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/trmm_blocked_mixed.hpp b/include/tlapack/lapack/trmm_blocked_mixed.hpp
index 1729abe..321b00a 100644
--- a/include/tlapack/lapack/trmm_blocked_mixed.hpp
+++ b/include/tlapack/lapack/trmm_blocked_mixed.hpp
@@ -94,7 +94,7 @@ void trmm_blocked_mixed(
         // constants
         const idx_t m = nrows(B);
         const idx_t n = ncols(B);
-        const idx_t nb = min(opts.nb, m);
+        const idx_t nb = min<idx_t>(opts.nb, m);
 
         // check arguments
         tlapack_check_false(side != Side::Left && side != Side::Right);
-- 
2.43.0


From 045ca91c0044aac5eee104b084a68bfd9c0b8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:08 +0000
Subject: [PATCH 83/90] fix: include the headers of the routines and utilities
 each header uses

---
 include/tlapack/lapack/gebrd.hpp               | 1 +
 include/tlapack/lapack/gghd3.hpp               | 3 +++
 include/tlapack/lapack/lacpy.hpp               | 2 +-
 include/tlapack/lapack/laed2.hpp               | 3 +++
 include/tlapack/lapack/larnv.hpp               | 2 +-
 include/tlapack/lapack/laset.hpp               | 2 +-
 include/tlapack/lapack/lasy2.hpp               | 1 +
 include/tlapack/lapack/lauum_recursive.hpp     | 1 +
 include/tlapack/lapack/lu_mult.hpp             | 1 +
 include/tlapack/lapack/mult_llh.hpp            | 1 +
 include/tlapack/lapack/multishift_qr_sweep.hpp | 2 ++
 include/tlapack/lapack/rot_sequence3.hpp       | 1 +
 include/tlapack/lapack/svd22.hpp               | 1 +
 include/tlapack/lapack/tik_bidiag_elden.hpp    | 1 +
 include/tlapack/lapack/tik_qr.hpp              | 1 +
 include/tlapack/lapack/tik_svd.hpp             | 1 +
 include/tlapack/lapack/trge_qr2.hpp            | 1 +
 include/tlapack/lapack/trge_ung2r.hpp          | 2 ++
 include/tlapack/lapack/trsm_tri.hpp            | 1 +
 19 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/gebrd.hpp b/include/tlapack/lapack/gebrd.hpp
index 4b2cc46..62750a0 100644
--- a/include/tlapack/lapack/gebrd.hpp
+++ b/include/tlapack/lapack/gebrd.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
 #include "tlapack/lapack/labrd.hpp"
+#include "tlapack/lapack/laset.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index 6952be2..128a3c2 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -13,9 +13,12 @@
 #define TLAPACK_GGHD3_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/gemm.hpp"
 #include "tlapack/blas/rot.hpp"
 #include "tlapack/blas/rotg.hpp"
 #include "tlapack/lapack/hessenberg_rq.hpp"
+#include "tlapack/lapack/lacpy.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/rot_sequence.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lacpy.hpp b/include/tlapack/lapack/lacpy.hpp
index 720d28e..46482c2 100644
--- a/include/tlapack/lapack/lacpy.hpp
+++ b/include/tlapack/lapack/lacpy.hpp
@@ -12,7 +12,7 @@
 #ifndef TLAPACK_LACPY_HH
 #define TLAPACK_LACPY_HH
 
-#include "tlapack/base/types.hpp"
+#include "tlapack/base/utils.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/laed2.hpp b/include/tlapack/lapack/laed2.hpp
index f6f9c01..abfbf4c 100644
--- a/include/tlapack/lapack/laed2.hpp
+++ b/include/tlapack/lapack/laed2.hpp
@@ -13,6 +13,9 @@
 #define TLAPACK_LAED2_HH
 
 //
+#include <iomanip>
+#include <iostream>
+
 #include "tlapack/base/utils.hpp"
 
 //
diff --git a/include/tlapack/lapack/larnv.hpp b/include/tlapack/lapack/larnv.hpp
index 13f66ae..f4b2ab3 100644
--- a/include/tlapack/lapack/larnv.hpp
+++ b/include/tlapack/lapack/larnv.hpp
@@ -14,7 +14,7 @@
 
 #include <random>
 
-#include "tlapack/base/types.hpp"
+#include "tlapack/base/utils.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/laset.hpp b/include/tlapack/lapack/laset.hpp
index 8d54f0c..c459c8e 100644
--- a/include/tlapack/lapack/laset.hpp
+++ b/include/tlapack/lapack/laset.hpp
@@ -12,7 +12,7 @@
 #ifndef TLAPACK_LASET_HH
 #define TLAPACK_LASET_HH
 
-#include "tlapack/base/types.hpp"
+#include "tlapack/base/utils.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/lasy2.hpp b/include/tlapack/lapack/lasy2.hpp
index d0b949f..0a32d7a 100644
--- a/include/tlapack/lapack/lasy2.hpp
+++ b/include/tlapack/lapack/lasy2.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_LASY2_HH
 #define TLAPACK_LASY2_HH
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/swap.hpp"
 
diff --git a/include/tlapack/lapack/lauum_recursive.hpp b/include/tlapack/lapack/lauum_recursive.hpp
index 5bd5c22..c41c149 100644
--- a/include/tlapack/lapack/lauum_recursive.hpp
+++ b/include/tlapack/lapack/lauum_recursive.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_LAUUM_RECURSIVETLAPACK_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/herk.hpp"
 #include "tlapack/blas/trmm.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lu_mult.hpp b/include/tlapack/lapack/lu_mult.hpp
index baf1b7f..eaa8172 100644
--- a/include/tlapack/lapack/lu_mult.hpp
+++ b/include/tlapack/lapack/lu_mult.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_LU_MULT_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/gemm.hpp"
 #include "tlapack/blas/trmm.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/mult_llh.hpp b/include/tlapack/lapack/mult_llh.hpp
index a9c0de8..5f713f3 100644
--- a/include/tlapack/lapack/mult_llh.hpp
+++ b/include/tlapack/lapack/mult_llh.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_MULT_LLH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/herk.hpp"
 #include "tlapack/blas/trmm.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/multishift_qr_sweep.hpp b/include/tlapack/lapack/multishift_qr_sweep.hpp
index 873dd22..27456ce 100644
--- a/include/tlapack/lapack/multishift_qr_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qr_sweep.hpp
@@ -12,8 +12,10 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqr_shiftcolumn.hpp"
 #include "tlapack/lapack/larfg.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/move_bulge.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index 6e8315a..217b32b 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -12,6 +12,7 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/rot.hpp"
+#include "tlapack/lapack/rot_sequence.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/svd22.hpp b/include/tlapack/lapack/svd22.hpp
index 2ac5348..cdf4970 100644
--- a/include/tlapack/lapack/svd22.hpp
+++ b/include/tlapack/lapack/svd22.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_SVD22_HH
 #define TLAPACK_SVD22_HH
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index b624d5d..3b9ef23 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -22,6 +22,7 @@
 #include "tlapack/blas/axpy.hpp"
 #include "tlapack/blas/rot.hpp"
 #include "tlapack/blas/rotg.hpp"
+#include "tlapack/lapack/rscl.hpp"
 
 /**
  * @brief This function solves the least squares problem for a Tikhonov
diff --git a/include/tlapack/lapack/tik_qr.hpp b/include/tlapack/lapack/tik_qr.hpp
index fcc681a..98bec59 100644
--- a/include/tlapack/lapack/tik_qr.hpp
+++ b/include/tlapack/lapack/tik_qr.hpp
@@ -14,6 +14,7 @@
 
 #include <tlapack/blas/trsm.hpp>
 #include <tlapack/lapack/geqrf.hpp>
+#include <tlapack/lapack/lacpy.hpp>
 #include <tlapack/lapack/laset.hpp>
 #include <tlapack/lapack/unmqr.hpp>
 
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index 5342a37..40eec47 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_TIK_SVD
 #define TLAPACK_TIK_SVD
 
+#include <tlapack/blas/gemm.hpp>
 #include <tlapack/lapack/bidiag.hpp>
 #include <tlapack/lapack/lange.hpp>
 #include <tlapack/lapack/laset.hpp>
diff --git a/include/tlapack/lapack/trge_qr2.hpp b/include/tlapack/lapack/trge_qr2.hpp
index e64a385..120e9d6 100644
--- a/include/tlapack/lapack/trge_qr2.hpp
+++ b/include/tlapack/lapack/trge_qr2.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_TRGE_QR2_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/lapack/larfg.hpp"
 
 using namespace tlapack;
 
diff --git a/include/tlapack/lapack/trge_ung2r.hpp b/include/tlapack/lapack/trge_ung2r.hpp
index 0d932a8..50931f7 100644
--- a/include/tlapack/lapack/trge_ung2r.hpp
+++ b/include/tlapack/lapack/trge_ung2r.hpp
@@ -11,6 +11,8 @@
 #define TLAPACK_TRGE_UNG2R_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/scal.hpp"
+#include "tlapack/lapack/laset.hpp"
 
 using namespace tlapack;
 
diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 090337d..568b0b2 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -13,6 +13,7 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/trmm.hpp"
+#include "tlapack/blas/trsm.hpp"
 #include "tlapack/lapack/lascl.hpp"
 #include "tlapack/lapack/trmm_out.hpp"
 
-- 
2.43.0


From 530c509961168942fe59f29045c99c7ffbd5f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 84/90] fix: abs of a complex<__float128> with infinite or NaN
 parts

---
 include/tlapack/plugins/gnuquad.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/plugins/gnuquad.hpp b/include/tlapack/plugins/gnuquad.hpp
index ed00dc8..2d31971 100644
--- a/include/tlapack/plugins/gnuquad.hpp
+++ b/include/tlapack/plugins/gnuquad.hpp
@@ -43,14 +43,8 @@ inline __float128 sqrt(__float128 x) noexcept { return sqrtq(x); }
 
 inline __float128 abs(complex<__float128> z)
 {
-    __float128 x = z.real();
-    __float128 y = z.imag();
-    const __float128 __s = max(abs(x), abs(y));
-    if (__s == __float128())  // well ...
-        return __s;
-    x /= __s;
-    y /= __s;
-    return __s * sqrt(x * x + y * y);
+    // Infinite parts give infinity and NaNs are propagated
+    return hypotq(z.real(), z.imag());
 }
 inline complex<__float128> sqrt(complex<__float128> z)
 {
-- 
2.43.0


From a2e208b8d3a40d39ba17178eaeee4eee578aeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:04 +0000
Subject: [PATCH 85/90] fix: larnv of complex<__float128> vectors, sin and cos
 were ambiguous

---
 include/tlapack/plugins/gnuquad.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tlapack/plugins/gnuquad.hpp b/include/tlapack/plugins/gnuquad.hpp
index 2d31971..8cac07d 100644
--- a/include/tlapack/plugins/gnuquad.hpp
+++ b/include/tlapack/plugins/gnuquad.hpp
@@ -26,6 +26,7 @@ constexpr __float128 abs(__float128 x);  // See include/bits/std_abs.h
 inline __float128 abs(__float128 x) noexcept { return fabsq(x); }
 #endif
 inline __float128 ceil(__float128 x) noexcept { return ceilq(x); }
+inline __float128 cos(__float128 x) noexcept { return cosq(x); }
 inline __float128 floor(__float128 x) noexcept { return floorq(x); }
 inline bool isinf(__float128 x) noexcept { return isinfq(x); }
 inline bool isnan(__float128 x) noexcept { return isnanq(x); }
@@ -39,6 +40,7 @@ inline __float128 min(__float128 x, __float128 y) noexcept
     return fminq(x, y);
 }
 inline __float128 pow(int x, __float128 y) noexcept { return powq(x, y); }
+inline __float128 sin(__float128 x) noexcept { return sinq(x); }
 inline __float128 sqrt(__float128 x) noexcept { return sqrtq(x); }
 
 inline __float128 abs(complex<__float128> z)
-- 
2.43.0


From 74a825f6ed983218c5636c1b07f1b5d47c539cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 86/90] fix: her2k and trge_ung2r do not compile for
 Eigen::half

---
 include/tlapack/blas/her2k.hpp        | 10 ++++++----
 include/tlapack/lapack/trge_ung2r.hpp |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/blas/her2k.hpp b/include/tlapack/blas/her2k.hpp
index 66dc3e4..9bdd045 100644
--- a/include/tlapack/blas/her2k.hpp
+++ b/include/tlapack/blas/her2k.hpp
@@ -112,8 +112,9 @@ void her2k(Uplo uplo,
                     for (idx_t i = 0; i < j; ++i)
                         C(i, j) +=
                             A(i, l) * alphaConjBjl + B(i, l) * conjAlphaAjl;
-                    C(j, j) += 2 * (real(A(j, l)) * real(alphaConjBjl) -
-                                    imag(A(j, l)) * imag(alphaConjBjl));
+                    C(j, j) += real_type<TC>(2) *
+                               (real(A(j, l)) * real(alphaConjBjl) -
+                                imag(A(j, l)) * imag(alphaConjBjl));
                 }
             }
         }
@@ -129,8 +130,9 @@ void her2k(Uplo uplo,
                     const scalar_type<alpha_t, TA> conjAlphaAjl =
                         conj(alpha * A(j, l));
 
-                    C(j, j) += 2 * (real(A(j, l)) * real(alphaConjBjl) -
-                                    imag(A(j, l)) * imag(alphaConjBjl));
+                    C(j, j) += real_type<TC>(2) *
+                               (real(A(j, l)) * real(alphaConjBjl) -
+                                imag(A(j, l)) * imag(alphaConjBjl));
                     for (idx_t i = j + 1; i < n; ++i)
                         C(i, j) +=
                             A(i, l) * alphaConjBjl + B(i, l) * conjAlphaAjl;
diff --git a/include/tlapack/lapack/trge_ung2r.hpp b/include/tlapack/lapack/trge_ung2r.hpp
index 50931f7..4a099b3 100644
--- a/include/tlapack/lapack/trge_ung2r.hpp
+++ b/include/tlapack/lapack/trge_ung2r.hpp
@@ -48,7 +48,7 @@ void trge_ung2r(matrix_t& W, vector_t& tau)
         larf_work(LEFT_SIDE, COLUMNWISE_STORAGE, v, tau[n - 1], W0, W1, work);
 
     for (idx_t j = 0; j < n - 1; j++)
-        W(j, n - 1) = 0.;
+        W(j, n - 1) = T(0);
     scal(-tau[n - 1], v);
     W(n - 1, n - 1) = T(1) - tau[n - 1];
 
@@ -60,7 +60,7 @@ void trge_ung2r(matrix_t& W, vector_t& tau)
         larf_work(LEFT_SIDE, COLUMNWISE_STORAGE, v, tau[i], W0, W1, work);
 
         for (idx_t j = 0; j < i; j++)
-            W(j, i) = 0.;
+            W(j, i) = T(0);
         scal(-tau[i], v);
         W(i, i) = T(1) - tau[i];
     }
-- 
2.43.0


From ccbcb13c64bb05e18ce652a5b56ad70174bd643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 87/90] fix: unit roundoff of Eigen::bfloat16

---
 include/tlapack/base/constants.hpp         |  2 +-
 include/tlapack/plugins/eigen_bfloat16.hpp | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/base/constants.hpp b/include/tlapack/base/constants.hpp
index c6214a2..7175deb 100644
--- a/include/tlapack/base/constants.hpp
+++ b/include/tlapack/base/constants.hpp
@@ -47,7 +47,7 @@ constexpr real_t ulp() noexcept
  *
  * @ingroup constants
  */
-template <TLAPACK_REAL real_t>
+template <typename real_t>
 constexpr real_t uroundoff() noexcept
 {
     return ulp<real_t>() * std::numeric_limits<real_t>::round_error();
diff --git a/include/tlapack/plugins/eigen_bfloat16.hpp b/include/tlapack/plugins/eigen_bfloat16.hpp
index a188577..36f5851 100644
--- a/include/tlapack/plugins/eigen_bfloat16.hpp
+++ b/include/tlapack/plugins/eigen_bfloat16.hpp
@@ -37,6 +37,17 @@ inline Eigen::bfloat16 pow(int base, const Eigen::bfloat16& exp)
     return Eigen::bfloat16_impl::pow(Eigen::bfloat16(float(base)), exp);
 }
 
+// Forward declaration
+template <typename real_t>
+constexpr real_t uroundoff() noexcept;
+
+// std::numeric_limits<Eigen::bfloat16>::round_error() is 16128 in Eigen 3.4
+template <>
+inline Eigen::bfloat16 uroundoff<Eigen::bfloat16>() noexcept
+{
+    return Eigen::bfloat16_impl::raw_uint16_to_bfloat16(0x3b80);  // 2^{-8}
+}
+
 }  // namespace tlapack
 
 inline std::istream& operator>>(std::istream& is, Eigen::bfloat16& x)
-- 
2.43.0


From 63869f79b085ccfdc69df768225ac147622748c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 88/90] fix: square root of complex<Eigen::bfloat16>, which the
 QR algorithm uses, did not compile

---
 include/tlapack/plugins/eigen_bfloat16.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/tlapack/plugins/eigen_bfloat16.hpp b/include/tlapack/plugins/eigen_bfloat16.hpp
index 36f5851..5f905ac 100644
--- a/include/tlapack/plugins/eigen_bfloat16.hpp
+++ b/include/tlapack/plugins/eigen_bfloat16.hpp
@@ -37,6 +37,16 @@ inline Eigen::bfloat16 pow(int base, const Eigen::bfloat16& exp)
     return Eigen::bfloat16_impl::pow(Eigen::bfloat16(float(base)), exp);
 }
 
+// std::sqrt does not compile for std::complex<Eigen::bfloat16>
+inline std::complex<Eigen::bfloat16> sqrt(
+    const std::complex<Eigen::bfloat16>& z)
+{
+    const std::complex<float> w =
+        std::sqrt(std::complex<float>(float(real(z)), float(imag(z))));
+    return std::complex<Eigen::bfloat16>(Eigen::bfloat16(real(w)),
+                                         Eigen::bfloat16(imag(w)));
+}
+
 // Forward declaration
 template <typename real_t>
 constexpr real_t uroundoff() noexcept;
-- 
2.43.0


From f0475b1b16392a261307939cf4fde1c82aa94707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 89/90] fix: unit in the last place of Eigen::half

---
 include/tlapack/base/constants.hpp     |  2 +-
 include/tlapack/plugins/eigen_half.hpp | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/base/constants.hpp b/include/tlapack/base/constants.hpp
index 7175deb..a5fbbea 100644
--- a/include/tlapack/base/constants.hpp
+++ b/include/tlapack/base/constants.hpp
@@ -28,7 +28,7 @@ namespace tlapack {
  *
  * @ingroup constants
  */
-template <TLAPACK_REAL real_t>
+template <typename real_t>
 constexpr real_t ulp() noexcept
 {
     return std::numeric_limits<real_t>::epsilon();
diff --git a/include/tlapack/plugins/eigen_half.hpp b/include/tlapack/plugins/eigen_half.hpp
index d516a68..f65716d 100644
--- a/include/tlapack/plugins/eigen_half.hpp
+++ b/include/tlapack/plugins/eigen_half.hpp
@@ -36,6 +36,17 @@ inline Eigen::half pow(int base, const Eigen::half& exp)
     return Eigen::half_impl::pow(Eigen::half(base), exp);
 }
 
+// Forward declaration
+template <typename real_t>
+constexpr real_t ulp() noexcept;
+
+// std::numeric_limits<Eigen::half>::epsilon() is 2^{-13} in Eigen 3.4
+template <>
+inline Eigen::half ulp<Eigen::half>() noexcept
+{
+    return Eigen::half_impl::raw_uint16_to_half(0x1400);  // 2^{-10}
+}
+
 // Reimplementation of std::sqrt for Eigen::half. See the discussion at
 // https://github.com/gcc-mirror/gcc/pull/84
 inline std::complex<Eigen::half> sqrt(const std::complex<Eigen::half>& z)
-- 
2.43.0


From df58483920a3c1d924051e1a7a7158ced8917779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:26 +0000
Subject: [PATCH 90/90] fix: svd_qr could cycle without converging, the chase
 direction was kept for a changed block

---
 include/tlapack/lapack/svd_qr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/svd_qr.hpp b/include/tlapack/lapack/svd_qr.hpp
index 86e9497..94a2e80 100644
--- a/include/tlapack/lapack/svd_qr.hpp
+++ b/include/tlapack/lapack/svd_qr.hpp
@@ -217,7 +217,7 @@ int svd_qr(Uplo uplo,
             continue;
         }
 
-        if (istart >= istop_old or istop <= istart_old) {
+        if (istart != istart_old or istop != istop_old) {
             forwarddirection = abs(d[istart]) > abs(d[istop - 1]);
         }
         istart_old = istart;
-- 
2.43.0

