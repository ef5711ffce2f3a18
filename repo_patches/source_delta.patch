From ee10426dc270007e9032dc57abf5efd6b1204a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 01/52] fix: laed2 no longer changes the precision of std::cout

---
 include/tlapack/lapack/laed2.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/tlapack/lapack/laed2.hpp b/include/tlapack/lapack/laed2.hpp
index f6f9c01..91f92fa 100644
--- a/include/tlapack/lapack/laed2.hpp
+++ b/include/tlapack/lapack/laed2.hpp
@@ -57,7 +57,6 @@ int laed2(idx_t& k,
           indxp_t& indxp,
           coltyp_t& coltyp)
 {
-    std::cout << std::setprecision(15);
     using range = pair<idx_t, idx_t>;
     // Functor
     Create<matrixQ_t> new_matrix;
-- 
2.43.0


From a99631e937774ec3ae18ef03317da486761cbf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 02/52] fix: getri, getri_uxli, ul_mult and getrf_recursive
 find slice/cols/rows of any matrix type; getri_worksize compiles for UXLI

---
 include/tlapack/lapack/getrf_recursive.hpp | 32 +++++++++++-----------
 include/tlapack/lapack/getri.hpp           | 10 +++----
 include/tlapack/lapack/getri_uxli.hpp      |  8 +++---
 include/tlapack/lapack/ul_mult.hpp         |  8 +++---
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/tlapack/lapack/getrf_recursive.hpp b/include/tlapack/lapack/getrf_recursive.hpp
index 4d3a6ae..198fabb 100644
--- a/include/tlapack/lapack/getrf_recursive.hpp
+++ b/include/tlapack/lapack/getrf_recursive.hpp
@@ -115,8 +115,8 @@ int getrf_recursive(matrix_t& A, piv_t& piv)
     // the case where m<n, we simply slice A into two parts, A0, a square matrix
     // and A1 where A=[A0 , A1]
     else if (m < n) {
-        auto A0 = tlapack::cols(A, range(0, m));
-        auto A1 = tlapack::cols(A, range(m, n));
+        auto A0 = cols(A, range(0, m));
+        auto A1 = cols(A, range(m, n));
 
         int info = getrf_recursive(A0, piv);
         if (info != 0) return info;
@@ -124,8 +124,8 @@ int getrf_recursive(matrix_t& A, piv_t& piv)
         // swap the rows of A1 according to piv
         for (idx_t j = 0; j < k; j++) {
             if ((idx_t)piv[j] != j) {
-                auto vect1 = tlapack::row(A1, j);
-                auto vect2 = tlapack::row(A1, piv[j]);
+                auto vect1 = row(A1, j);
+                auto vect2 = row(A1, piv[j]);
                 tlapack::swap(vect1, vect2);
             }
         }
@@ -140,11 +140,11 @@ int getrf_recursive(matrix_t& A, piv_t& piv)
         idx_t k0 = k / 2;
 
         // in this step, we break A into two matrices, A=[A0 , A1]
-        auto A0 = tlapack::cols(A, range(0, k0));
-        auto A1 = tlapack::cols(A, range(k0, n));
+        auto A0 = cols(A, range(0, k0));
+        auto A1 = cols(A, range(k0, n));
 
         // piv0 is the first k0 elements of piv
-        auto piv0 = tlapack::slice(piv, range(0, k0));
+        auto piv0 = slice(piv, range(0, k0));
 
         // Apply getrf on the left of half of the matrix
         int info = getrf_recursive(A0, piv0);
@@ -153,20 +153,20 @@ int getrf_recursive(matrix_t& A, piv_t& piv)
         // swap the rows of A1
         for (idx_t j = 0; j < k0; j++) {
             if ((idx_t)piv0[j] != j) {
-                auto vect1 = tlapack::row(A1, j);
-                auto vect2 = tlapack::row(A1, piv0[j]);
+                auto vect1 = row(A1, j);
+                auto vect2 = row(A1, piv0[j]);
                 tlapack::swap(vect1, vect2);
             }
         }
 
         // partition A into the following four blocks:
-        auto A00 = tlapack::slice(A, range(0, k0), range(0, k0));
-        auto A01 = tlapack::slice(A, range(0, k0), range(k0, n));
-        auto A10 = tlapack::slice(A, range(k0, m), range(0, k0));
-        auto A11 = tlapack::slice(A, range(k0, m), range(k0, n));
+        auto A00 = slice(A, range(0, k0), range(0, k0));
+        auto A01 = slice(A, range(0, k0), range(k0, n));
+        auto A10 = slice(A, range(k0, m), range(0, k0));
+        auto A11 = slice(A, range(k0, m), range(k0, n));
 
         // Take piv1 to be the second slice of of piv, meaning piv= [piv0, piv1]
-        auto piv1 = tlapack::slice(piv, range(k0, k));
+        auto piv1 = slice(piv, range(k0, k));
 
         // Solve the triangular system of equations given by A00 X = A01
         trsm(LEFT_SIDE, LOWER_TRIANGLE, NO_TRANS, UNIT_DIAG, T(1), A00, A01);
@@ -182,8 +182,8 @@ int getrf_recursive(matrix_t& A, piv_t& piv)
         // to piv1
         for (idx_t j = 0; j < k - k0; j++) {
             if ((idx_t)piv1[j] != j) {
-                auto vect1 = tlapack::row(A10, j);
-                auto vect2 = tlapack::row(A10, piv1[j]);
+                auto vect1 = row(A10, j);
+                auto vect2 = row(A10, piv1[j]);
                 tlapack::swap(vect1, vect2);
             }
         }
diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..2dba84c 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
@@ -88,8 +88,8 @@ int getri_work(matrix_t& A,
     // swap columns of X to find A^{-1} since A^{-1}=X P
     for (idx_t j = n; j-- > 0;) {
         if (piv[j] != j) {
-            auto vect1 = tlapack::col(A, j);
-            auto vect2 = tlapack::col(A, piv[j]);
+            auto vect1 = col(A, j);
+            auto vect2 = col(A, piv[j]);
             tlapack::swap(vect1, vect2);
         }
     }
@@ -139,8 +139,8 @@ int getri(matrix_t& A, const piv_t& piv, const GetriOpts& opts = {})
     // swap columns of X to find A^{-1} since A^{-1}=X P
     for (idx_t j = n; j-- > 0;) {
         if (piv[j] != j) {
-            auto vect1 = tlapack::col(A, j);
-            auto vect2 = tlapack::col(A, piv[j]);
+            auto vect1 = col(A, j);
+            auto vect2 = col(A, piv[j]);
             tlapack::swap(vect1, vect2);
         }
     }
diff --git a/include/tlapack/lapack/getri_uxli.hpp b/include/tlapack/lapack/getri_uxli.hpp
index e778b59..3118e3d 100644
--- a/include/tlapack/lapack/getri_uxli.hpp
+++ b/include/tlapack/lapack/getri_uxli.hpp
@@ -68,10 +68,10 @@ int getri_uxli_work(matrix_t& A, work_t& work)
         }
         else {
             // X22, l21, u12 are as in method C Nick Higham
-            auto X22 = tlapack::slice(A, range(j + 1, n), range(j + 1, n));
-            auto l21 = tlapack::slice(A, range(j + 1, n), j);
-            auto u12 = tlapack::slice(A, j, range(j + 1, n));
-            auto w = tlapack::slice(W, range(0, n - j - 1));
+            auto X22 = slice(A, range(j + 1, n), range(j + 1, n));
+            auto l21 = slice(A, range(j + 1, n), j);
+            auto u12 = slice(A, j, range(j + 1, n));
+            auto w = slice(W, range(0, n - j - 1));
 
             // first step of the algorithm, w holds x12
             tlapack::gemv(TRANSPOSE, T(-1) / A(j, j), X22, u12, w);
diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..3753d0f 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -50,10 +50,10 @@ int ul_mult(matrix_t& A)
     idx_t n0 = n / 2;
 
     // break A into four parts
-    auto A00 = tlapack::slice(A, range(0, n0), range(0, n0));
-    auto A10 = tlapack::slice(A, range(n0, n), range(0, n0));
-    auto A01 = tlapack::slice(A, range(0, n0), range(n0, n));
-    auto A11 = tlapack::slice(A, range(n0, n), range(n0, n));
+    auto A00 = slice(A, range(0, n0), range(0, n0));
+    auto A10 = slice(A, range(n0, n), range(0, n0));
+    auto A01 = slice(A, range(0, n0), range(n0, n));
+    auto A11 = slice(A, range(n0, n), range(n0, n));
 
     // calculate top left corner
     ul_mult(A00);
-- 
2.43.0


From 062b125821d8b0412885e3e98d63a5bc8f3a67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 03/52] fix: infnorm_*_colmajor allocating forms compile for
 real and complex types; infnorm_triangular lower/unit counts column 0

---
 include/tlapack/lapack/infnorm_colmajor.hpp        |  5 ++++-
 .../tlapack/lapack/infnorm_hermitian_colmajor.hpp  |  9 ++++++---
 .../tlapack/lapack/infnorm_symmetric_colmajor.hpp  |  9 ++++++---
 .../tlapack/lapack/infnorm_triangular_colmajor.hpp | 14 +++++++-------
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..73e3b31 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -65,7 +65,7 @@ auto infnorm_colmajor_work(const matrix_t& A, work_t& work)
             w[i] += abs(A(i, j));
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -102,6 +102,9 @@ auto infnorm_colmajor(const matrix_t& A)
     // quick return
     if (m == 0 || n == 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
     WorkInfo workinfo = infnorm_colmajor_worksize<T>(A);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..2d48d15 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -82,7 +82,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(real(A(j, j)));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(real(A(j, j)));
+            real_t sum = real(w[j]) + abs(real(A(j, j)));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -140,6 +140,9 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     // quick return
     if (n <= 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
     WorkInfo workinfo = infnorm_hermitian_colmajor_worksize<T>(uplo, A);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..8064873 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -82,7 +82,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(A(j, j));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(A(j, j));
+            real_t sum = real(w[j]) + abs(A(j, j));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -140,6 +140,9 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     // quick return
     if (n <= 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
     WorkInfo workinfo = infnorm_symmetric_colmajor_worksize<T>(uplo, A);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..424158d 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
@@ -118,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
@@ -126,7 +123,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     }
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -176,12 +173,15 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     // quick return
     if (m == 0 || n == 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
+    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, diag, A);
     std::vector<T> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 4fa2d0a3a506b1a825ae45cac51fdecf2306befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 04/52] fix: trevc3.hpp and trevc.hpp can be included together

---
 include/tlapack/lapack/trevc3.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d436e95..7c2efd3 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -9,12 +9,13 @@
 // <T>LAPACK is free software: you can redistribute it and/or modify it under
 // the terms of the BSD 3-Clause license. See the accompanying LICENSE file.
 
-#ifndef TLAPACK_TREVC_HH
-#define TLAPACK_TREVC_HH
+#ifndef TLAPACK_TREVC3_HH
+#define TLAPACK_TREVC3_HH
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
 #include "tlapack/blas/gemv.hpp"
+#include "tlapack/lapack/trevc.hpp"
 #include "tlapack/lapack/trevc3_backsolve.hpp"
 #include "tlapack/lapack/trevc3_forwardsolve.hpp"
 
@@ -30,12 +31,6 @@ struct Trevc3Opts {
     size_t block_size_solve = 64;
 };
 
-enum class HowMny : char {
-    All = 'A',    ///< all eigenvectors
-    Back = 'B',   ///< all eigenvectors, backtransformed by input matrix
-    Select = 'S'  ///< selected eigenvectors
-};
-
 /** Worspace query of TREVC3()
  *
  * @param[in] side tlapack::Side
@@ -524,4 +519,4 @@ int trevc3(const side_t side,
 }
 }  // namespace tlapack
 
-#endif  // TLAPACK_TREVC_HH
+#endif  // TLAPACK_TREVC3_HH
-- 
2.43.0


From 121bcf2f6254dbb9fa66f7929177641f11bbcec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 05/52] fix: tik_qr and trge_ung2r use the generic vector
 interface

---
 include/tlapack/lapack/tik_qr.hpp     | 2 +-
 include/tlapack/lapack/trge_ung2r.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/tik_qr.hpp b/include/tlapack/lapack/tik_qr.hpp
index fcc681a..e2b0584 100644
--- a/include/tlapack/lapack/tik_qr.hpp
+++ b/include/tlapack/lapack/tik_qr.hpp
@@ -39,7 +39,7 @@ void tik_qr(matrixA_t& A, matrixb_t& b, real_t lambda)
     // Initliazation for basic utilities
     using T = type_t<matrixA_t>;
     using idx_t = size_type<matrixA_t>;
-    using vector_t = LegacyVector<T>;
+    using vector_t = vector_type<matrixA_t>;
 
     using range = pair<idx_t, idx_t>;
 
diff --git a/include/tlapack/lapack/trge_ung2r.hpp b/include/tlapack/lapack/trge_ung2r.hpp
index 0d932a8..a9e4b03 100644
--- a/include/tlapack/lapack/trge_ung2r.hpp
+++ b/include/tlapack/lapack/trge_ung2r.hpp
@@ -25,7 +25,7 @@ void trge_ung2r(matrix_t& W, vector_t& tau)
     // Functors for creating new matrices
     Create<matrix_t> new_matrix;
 
-    idx_t n = tau.size();
+    idx_t n = size(tau);
     idx_t m = nrows(W) - n;
     idx_t k = ncols(W);
 
-- 
2.43.0


From e90cd5a32cd610d3a887d272e13432f3c3dd3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 06/52] fix: larfb_work checks the order of the reflector block
 for both sides

---
 include/tlapack/lapack/larfb.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/larfb.hpp b/include/tlapack/lapack/larfb.hpp
index 35f9a11..7a99fa6 100644
--- a/include/tlapack/lapack/larfb.hpp
+++ b/include/tlapack/lapack/larfb.hpp
@@ -140,10 +140,10 @@ int larfb_work(side_t side,
                         storeMode != StoreV::Rowwise);
     tlapack_check(
         (storeMode == StoreV::Columnwise)
-            ? ((ncols(V) == k) && (side == Side::Left) ? (nrows(V) == m)
-                                                       : (nrows(V) == n))
-            : ((nrows(V) == k) && (side == Side::Left) ? (ncols(V) == m)
-                                                       : (ncols(V) == n)));
+            ? ((ncols(V) == k) && ((side == Side::Left) ? (nrows(V) == m)
+                                                         : (nrows(V) == n)))
+            : ((nrows(V) == k) && ((side == Side::Left) ? (ncols(V) == m)
+                                                         : (ncols(V) == n))));
     tlapack_check(nrows(Tmatrix) == ncols(Tmatrix));
 
     // Quick return
-- 
2.43.0


From c0bc6da72ae0a8ddfb71ee569c4160763984eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 07/52] fix: slice of a Backward LegacyVector refers to the
 right entries; empty reshape of a non-contiguous LegacyMatrix keeps the
 requested extents

---
 include/tlapack/plugins/legacyArray.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..bc1dcc0 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -381,7 +381,10 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward) ? &v.ptr[rows.first * v.inc]
+                                          : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -569,7 +572,10 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward) ? &v.ptr[rows.first * v.inc]
+                                          : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // Reshape LegacyMatrix
@@ -600,10 +606,12 @@ auto reshape(LegacyMatrix<T, idx_t, layout>& A,
                 : matrix_t(1, size - new_size, &A.ptr[0] + new_size));
     }
     else {
-        if (m == A.m || n == 0)
+        if (new_size == 0)
+            return std::make_pair(matrix_t(m, n, &A.ptr[0]), matrix_t(A));
+        else if (m == A.m)
             return std::make_pair(cols(A, std::pair{(idx_t)0, n}),
                                   cols(A, std::pair{n, A.n}));
-        else if (n == A.n || m == 0)
+        else if (n == A.n)
             return std::make_pair(rows(A, std::pair{(idx_t)0, m}),
                                   rows(A, std::pair{m, A.m}));
         else
-- 
2.43.0


From fe477119699cafe50090bd2f19dec351711c353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 08/52] fix: headers include what they use

---
 include/tlapack/lapack/hetf3.hpp             | 1 -
 include/tlapack/lapack/lacpy.hpp             | 2 +-
 include/tlapack/lapack/laed6.hpp             | 1 +
 include/tlapack/lapack/lahqz_eig22.hpp       | 1 +
 include/tlapack/lapack/lahqz_shiftcolumn.hpp | 1 +
 include/tlapack/lapack/larnv.hpp             | 2 +-
 include/tlapack/lapack/laset.hpp             | 2 +-
 include/tlapack/lapack/lasy2.hpp             | 1 +
 include/tlapack/lapack/svd22.hpp             | 1 +
 include/tlapack/legacy_api/lapack/geqr2.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/lacpy.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/lange.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/lanhe.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/lansy.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/lantr.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/larf.hpp   | 2 ++
 include/tlapack/legacy_api/lapack/larfb.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/larfg.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/larft.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/larnv.hpp  | 1 +
 include/tlapack/legacy_api/lapack/lascl.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/laset.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/lassq.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/potrf.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/potrs.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/ung2r.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/unm2r.hpp  | 2 ++
 include/tlapack/legacy_api/lapack/unmqr.hpp  | 2 ++
 28 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 0a4b965..812678d 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -19,7 +19,6 @@
 #include "tlapack/blas/iamax.hpp"
 #include "tlapack/blas/swap.hpp"
 #include "tlapack/blas/syr2k.hpp"
-#include "tlapack/lapack/hetrf_blocked.hpp"
 #include "tlapack/lapack/rscl.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lacpy.hpp b/include/tlapack/lapack/lacpy.hpp
index 720d28e..46482c2 100644
--- a/include/tlapack/lapack/lacpy.hpp
+++ b/include/tlapack/lapack/lacpy.hpp
@@ -12,7 +12,7 @@
 #ifndef TLAPACK_LACPY_HH
 #define TLAPACK_LACPY_HH
 
-#include "tlapack/base/types.hpp"
+#include "tlapack/base/utils.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index b840692..5035f80 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_LAED6_HH
 
 //
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 311ce78..87bd81f 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -12,6 +12,7 @@
 #ifndef __TLAPACK_LAHQZ_EIG22_HH__
 #define __TLAPACK_LAHQZ_EIG22_HH__
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lahqz_shiftcolumn.hpp b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
index c150c4d..6dfc6aa 100644
--- a/include/tlapack/lapack/lahqz_shiftcolumn.hpp
+++ b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_LAHQZ_SHIFTCOLUMN_HH
 #define TLAPACK_LAHQZ_SHIFTCOLUMN_HH
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/larnv.hpp b/include/tlapack/lapack/larnv.hpp
index 45689f9..c13905d 100644
--- a/include/tlapack/lapack/larnv.hpp
+++ b/include/tlapack/lapack/larnv.hpp
@@ -14,7 +14,7 @@
 
 #include <random>
 
-#include "tlapack/base/types.hpp"
+#include "tlapack/base/utils.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/laset.hpp b/include/tlapack/lapack/laset.hpp
index 8d54f0c..c459c8e 100644
--- a/include/tlapack/lapack/laset.hpp
+++ b/include/tlapack/lapack/laset.hpp
@@ -12,7 +12,7 @@
 #ifndef TLAPACK_LASET_HH
 #define TLAPACK_LASET_HH
 
-#include "tlapack/base/types.hpp"
+#include "tlapack/base/utils.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/lasy2.hpp b/include/tlapack/lapack/lasy2.hpp
index d0b949f..0a32d7a 100644
--- a/include/tlapack/lapack/lasy2.hpp
+++ b/include/tlapack/lapack/lasy2.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_LASY2_HH
 #define TLAPACK_LASY2_HH
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/swap.hpp"
 
diff --git a/include/tlapack/lapack/svd22.hpp b/include/tlapack/lapack/svd22.hpp
index 2ac5348..cdf4970 100644
--- a/include/tlapack/lapack/svd22.hpp
+++ b/include/tlapack/lapack/svd22.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_SVD22_HH
 #define TLAPACK_SVD22_HH
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/legacy_api/lapack/geqr2.hpp b/include/tlapack/legacy_api/lapack/geqr2.hpp
index 1c8bb5f..359663b 100644
--- a/include/tlapack/legacy_api/lapack/geqr2.hpp
+++ b/include/tlapack/legacy_api/lapack/geqr2.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_GEQR2_HH
 
 #include "tlapack/lapack/geqr2.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/lacpy.hpp b/include/tlapack/legacy_api/lapack/lacpy.hpp
index 81696f2..4c57136 100644
--- a/include/tlapack/legacy_api/lapack/lacpy.hpp
+++ b/include/tlapack/legacy_api/lapack/lacpy.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_LACPY_HH
 
 #include "tlapack/lapack/lacpy.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/lange.hpp b/include/tlapack/legacy_api/lapack/lange.hpp
index ef23371..8b36f8c 100644
--- a/include/tlapack/legacy_api/lapack/lange.hpp
+++ b/include/tlapack/legacy_api/lapack/lange.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_LANGE_HH
 
 #include "tlapack/lapack/lange.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/lanhe.hpp b/include/tlapack/legacy_api/lapack/lanhe.hpp
index c550127..2910e1f 100644
--- a/include/tlapack/legacy_api/lapack/lanhe.hpp
+++ b/include/tlapack/legacy_api/lapack/lanhe.hpp
@@ -12,6 +12,8 @@
 
 #include "tlapack/base/types.hpp"
 #include "tlapack/lapack/lanhe.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/lansy.hpp b/include/tlapack/legacy_api/lapack/lansy.hpp
index 7b66cb5..e1ae23a 100644
--- a/include/tlapack/legacy_api/lapack/lansy.hpp
+++ b/include/tlapack/legacy_api/lapack/lansy.hpp
@@ -12,6 +12,8 @@
 
 #include "tlapack/base/types.hpp"
 #include "tlapack/lapack/lansy.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/lantr.hpp b/include/tlapack/legacy_api/lapack/lantr.hpp
index 9ed79a2..5d5d3e1 100644
--- a/include/tlapack/legacy_api/lapack/lantr.hpp
+++ b/include/tlapack/legacy_api/lapack/lantr.hpp
@@ -12,6 +12,8 @@
 
 #include "tlapack/base/types.hpp"
 #include "tlapack/lapack/lantr.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/larf.hpp b/include/tlapack/legacy_api/lapack/larf.hpp
index 242400a..2f0f289 100644
--- a/include/tlapack/legacy_api/lapack/larf.hpp
+++ b/include/tlapack/legacy_api/lapack/larf.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_LARF_HH
 
 #include "tlapack/lapack/larf.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/larfb.hpp b/include/tlapack/legacy_api/lapack/larfb.hpp
index 7811978..d17b739 100644
--- a/include/tlapack/legacy_api/lapack/larfb.hpp
+++ b/include/tlapack/legacy_api/lapack/larfb.hpp
@@ -14,6 +14,8 @@
 #define TLAPACK_LEGACY_LARFB_HH
 
 #include "tlapack/lapack/larfb.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/larfg.hpp b/include/tlapack/legacy_api/lapack/larfg.hpp
index 71738ed..9c68d3e 100644
--- a/include/tlapack/legacy_api/lapack/larfg.hpp
+++ b/include/tlapack/legacy_api/lapack/larfg.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_LARFG_HH
 
 #include "tlapack/lapack/larfg.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/larft.hpp b/include/tlapack/legacy_api/lapack/larft.hpp
index f828295..ed7f394 100644
--- a/include/tlapack/legacy_api/lapack/larft.hpp
+++ b/include/tlapack/legacy_api/lapack/larft.hpp
@@ -14,6 +14,8 @@
 #define TLAPACK_LEGACY_LARFT_HH
 
 #include "tlapack/lapack/larft.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/larnv.hpp b/include/tlapack/legacy_api/lapack/larnv.hpp
index 5d786f2..e6df702 100644
--- a/include/tlapack/legacy_api/lapack/larnv.hpp
+++ b/include/tlapack/legacy_api/lapack/larnv.hpp
@@ -14,6 +14,7 @@
 
 #include "tlapack/lapack/larnv.hpp"
 #include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/lascl.hpp b/include/tlapack/legacy_api/lapack/lascl.hpp
index d7cbf0e..42fae37 100644
--- a/include/tlapack/legacy_api/lapack/lascl.hpp
+++ b/include/tlapack/legacy_api/lapack/lascl.hpp
@@ -12,6 +12,8 @@
 
 #include "tlapack/base/types.hpp"
 #include "tlapack/lapack/lascl.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/laset.hpp b/include/tlapack/legacy_api/lapack/laset.hpp
index 38e5d23..8700efd 100644
--- a/include/tlapack/legacy_api/lapack/laset.hpp
+++ b/include/tlapack/legacy_api/lapack/laset.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_LASET_HH
 
 #include "tlapack/lapack/laset.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/lassq.hpp b/include/tlapack/legacy_api/lapack/lassq.hpp
index b91746a..c7c25ff 100644
--- a/include/tlapack/legacy_api/lapack/lassq.hpp
+++ b/include/tlapack/legacy_api/lapack/lassq.hpp
@@ -16,6 +16,8 @@
 #define TLAPACK_LEGACY_LASSQ_HH
 
 #include "tlapack/lapack/lassq.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/potrf.hpp b/include/tlapack/legacy_api/lapack/potrf.hpp
index 81dec23..35c3237 100644
--- a/include/tlapack/legacy_api/lapack/potrf.hpp
+++ b/include/tlapack/legacy_api/lapack/potrf.hpp
@@ -11,6 +11,8 @@
 #define TLAPACK_LEGACY_POTRF_HH
 
 #include "tlapack/lapack/potrf.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/potrs.hpp b/include/tlapack/legacy_api/lapack/potrs.hpp
index b46fe54..7a394f5 100644
--- a/include/tlapack/legacy_api/lapack/potrs.hpp
+++ b/include/tlapack/legacy_api/lapack/potrs.hpp
@@ -11,6 +11,8 @@
 #define TLAPACK_LEGACY_POTRS_HH
 
 #include "tlapack/lapack/potrs.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 64d79a4..0e6326d 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_UNG2R_HH
 
 #include "tlapack/lapack/ung2r.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/unm2r.hpp b/include/tlapack/legacy_api/lapack/unm2r.hpp
index b7e6eca..959962c 100644
--- a/include/tlapack/legacy_api/lapack/unm2r.hpp
+++ b/include/tlapack/legacy_api/lapack/unm2r.hpp
@@ -13,6 +13,8 @@
 #define TLAPACK_LEGACY_UNM2R_HH
 
 #include "tlapack/lapack/unm2r.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
diff --git a/include/tlapack/legacy_api/lapack/unmqr.hpp b/include/tlapack/legacy_api/lapack/unmqr.hpp
index 71ba804..f1d2035 100644
--- a/include/tlapack/legacy_api/lapack/unmqr.hpp
+++ b/include/tlapack/legacy_api/lapack/unmqr.hpp
@@ -12,6 +12,8 @@
 #define TLAPACK_LEGACY_UNMQR_HH
 
 #include "tlapack/lapack/unmqr.hpp"
+#include "tlapack/legacy_api/base/types.hpp"
+#include "tlapack/legacy_api/base/utils.hpp"
 
 namespace tlapack {
 namespace legacy {
-- 
2.43.0


From b87a97290bbd54dcf35eb6078d7389dd9d77fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 09/52] fix: svd_qr and lahqz_eig22 thresholds are formed in
 the working precision

---
 include/tlapack/lapack/lahqz_eig22.hpp | 2 +-
 include/tlapack/lapack/svd_qr.hpp      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 87bd81f..6619d5b 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -292,7 +292,7 @@ void lahqz_eig22(const A_t& A,
     // Scale first eigenvalue
     //
     real_t wabs = abs1(alpha1);
-    real_t fuzzy1 = one + real_t(1.0e-5);
+    real_t fuzzy1 = one + one / real_t(100000);
     real_t wsize =
         max<real_t>(max<real_t>(safmin, c1),
                     max<real_t>(fuzzy1 * (wabs * c2 + c3),
diff --git a/include/tlapack/lapack/svd_qr.hpp b/include/tlapack/lapack/svd_qr.hpp
index 86e9497..c77e80d 100644
--- a/include/tlapack/lapack/svd_qr.hpp
+++ b/include/tlapack/lapack/svd_qr.hpp
@@ -279,7 +279,8 @@ int svd_qr(Uplo uplo,
         // Compute shift.  First, test if shifting would ruin relative
         // accuracy, and if so set the shift to zero.
         real_t shift;
-        if (real_t(n) * tol * (sminl / smax) <= max(eps, real_t(0.01) * tol)) {
+        if (real_t(n) * tol * (sminl / smax) <=
+            max(eps, (one / real_t(100)) * tol)) {
             shift = zero;
         }
         else {
-- 
2.43.0


From 1f878b8a875861934ff08009b831f8e618ff01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 10/52] fix: legacy unm2r passes the matrix view and a tau of
 the scalar type to unm2r

---
 include/tlapack/legacy_api/lapack/unm2r.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/unm2r.hpp b/include/tlapack/legacy_api/lapack/unm2r.hpp
index 959962c..42decac 100644
--- a/include/tlapack/legacy_api/lapack/unm2r.hpp
+++ b/include/tlapack/legacy_api/lapack/unm2r.hpp
@@ -38,7 +38,7 @@ namespace legacy {
      *                 If side='L', A is k-by-m;
      *                 if side='R', A is k-by-n.
      * @param[in] lda The column length of the matrix A.  ldA>=k.
-     * @param[in] tau Real vector of length k containing the scalar factors of
+     * @param[in] tau Vector of length k containing the scalar factors of
      * the elementary reflectors.
      * @param[in,out] C m-by-n matrix.
      *     On exit, C is replaced by one of the following:
@@ -58,7 +58,7 @@ namespace legacy {
               idx_t k,
               TA* A,
               idx_t lda,
-              const real_type<TA, TC>* tau,
+              const TA* tau,
               TC* C,
               idx_t ldc)
     {
@@ -84,7 +84,7 @@ namespace legacy {
         const auto tau_ = create_vector((TA*)tau, k);
         auto C_ = create_matrix<TC>(C, m, n, ldc);
 
-        return unm2r(side, trans, A, tau_, C_);
+        return unm2r(side, trans, A_, tau_, C_);
     }
 
 }  // namespace legacy
-- 
2.43.0


From 4cc70b5df10df00a80b403abf8bd3c0f8c7d00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 11/52] fix: tkhnv.hpp has an include guard

---
 include/tlapack/lapack/tkhnv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/tlapack/lapack/tkhnv.hpp b/include/tlapack/lapack/tkhnv.hpp
index 28b78f2..2dddc9c 100644
--- a/include/tlapack/lapack/tkhnv.hpp
+++ b/include/tlapack/lapack/tkhnv.hpp
@@ -1,3 +1,6 @@
+#ifndef TLAPACK_TKHNV_HH
+#define TLAPACK_TKHNV_HH
+
 #include "tik_bidiag_elden.hpp"
 #include "tik_qr.hpp"
 #include "tik_svd.hpp"
@@ -29,3 +32,5 @@ void tkhnv(matrixA_t& A, matrixb_t& b, real_t lambda, const TikOpts& opts = {})
     else
         tik_svd(A, b, lambda);
 }
+
+#endif  // TLAPACK_TKHNV_HH
-- 
2.43.0


From d3cad04e822a5aff6251777c70f536006cee3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 12/52] fix: trevc_backsolve keeps the index of the largest
 entry in an index type

---
 include/tlapack/lapack/trevc_backsolve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index d897916..c0bba29 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -151,7 +151,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Safely update the right-hand side
             if (i > 1) {
-                real_t ivmax = iamax(slice(v1, range(0, i - 1)));
+                idx_t ivmax = iamax(slice(v1, range(0, i - 1)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i - 1];
@@ -213,7 +213,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
             if (i > 0) {
-                real_t ivmax = iamax(slice(v1, range(0, i)));
+                idx_t ivmax = iamax(slice(v1, range(0, i)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i];  // use precomputed column norms
@@ -314,7 +314,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
         // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
         if (i > 0) {
-            real_t ivmax = iamax(slice(v1, range(0, i)));
+            idx_t ivmax = iamax(slice(v1, range(0, i)));
             real_t vmax = abs1(v1[ivmax]);
 
             real_t tmax = colN[i];  // use precomputed column norms
-- 
2.43.0


From ddd72e35e11d2a8d2ef2562091474437cec0b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 13/52] fix: tik_svd and tik_bidiag_elden create their tau
 vectors through the matrix interface

---
 include/tlapack/lapack/tik_bidiag_elden.hpp | 6 ++++--
 include/tlapack/lapack/tik_svd.hpp          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index 4659d9a..d9d8139 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -58,14 +58,16 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
     using range = pair<idx_t, idx_t>;
 
     Create<matrixA_t> new_matrix;
+    Create<vector_type<matrixA_t>> new_vector;
 
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
     // Bidiagonal decomposition
-    std::vector<T> tauv(n);
-    std::vector<T> tauw(n);
+    std::vector<T> tauv_, tauw_;
+    auto tauv = new_vector(tauv_, n);
+    auto tauw = new_vector(tauw_, n);
 
     bidiag(A, tauv, tauw);
     unmqr(LEFT_SIDE, CONJ_TRANS, A, tauv, b);
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index ff8e0f4..0677078 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -41,6 +41,7 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     using idx_t = size_type<matrixA_t>;
 
     Create<matrixA_t> new_matrix;
+    Create<vector_type<matrixA_t>> new_vector;
 
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
@@ -48,8 +49,9 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
 
     using range = pair<idx_t, idx_t>;
 
-    std::vector<T> tauv(n);
-    std::vector<T> tauw(n);
+    std::vector<T> tauv_, tauw_;
+    auto tauv = new_vector(tauv_, n);
+    auto tauw = new_vector(tauw_, n);
 
     // Bidiagonal decomposition
     bidiag(A, tauv, tauw);
-- 
2.43.0


From cf2d89c098a5ea169035c265cd53a2787ed25518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 14/52] fix: trge_qr2 does not assign one view to another

---
 include/tlapack/lapack/trge_qr2.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/tlapack/lapack/trge_qr2.hpp b/include/tlapack/lapack/trge_qr2.hpp
index e64a385..c79a36d 100644
--- a/include/tlapack/lapack/trge_qr2.hpp
+++ b/include/tlapack/lapack/trge_qr2.hpp
@@ -37,7 +37,6 @@ void trge_qr2(matrix_t& A, vector_t& tau)
 
         larfg(COLUMNWISE_STORAGE, A(i, i), v, tau[i]);
 
-        v = slice(A, range{n, m + n}, i);
         auto C0 = slice(A, i, range{i + 1, n});
         auto C1 = slice(A, range{n, m + n}, range{i + 1, n});
 
-- 
2.43.0


From 1cde08329b4be47968c62c8ded098a86f69708d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 15/52] fix: lahqr_schur22 and rotmg need no conversion from
 the real type to int

---
 include/tlapack/blas/rotmg.hpp           | 2 +-
 include/tlapack/lapack/lahqr_schur22.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..adaa994 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -127,7 +127,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
             const T q1 = p1 * a;
 
             if (abs(q1) > abs(q2)) {
-                flag = zero;
+                flag = 0;
                 h[1] = -b / a;
                 h[2] = p2 / p1;
                 const T u = one - h[2] * h[1];
diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index f2431bd..8a20ebf 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -57,7 +57,7 @@ void lahqr_schur22(T& a,
 
     const T eps = ulp<T>();
     const T safmin = safe_min<T>();
-    const T safmn2 = pow(2, T((int)(log2(safmin / eps)) / 2));
+    const T safmn2 = pow(2, T(ceil(log2(safmin / eps)) / T(2)));
     const T safmx2 = one / safmn2;
 
     if (c == zero) {
-- 
2.43.0


From e8367ea2753651044133000d89159c830feb20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 16/52] fix: trmm_blocked_mixed accepts any index type

---
 include/tlapack/lapack/trmm_blocked_mixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/trmm_blocked_mixed.hpp b/include/tlapack/lapack/trmm_blocked_mixed.hpp
index 1729abe..321b00a 100644
--- a/include/tlapack/lapack/trmm_blocked_mixed.hpp
+++ b/include/tlapack/lapack/trmm_blocked_mixed.hpp
@@ -94,7 +94,7 @@ void trmm_blocked_mixed(
         // constants
         const idx_t m = nrows(B);
         const idx_t n = ncols(B);
-        const idx_t nb = min(opts.nb, m);
+        const idx_t nb = min<idx_t>(opts.nb, m);
 
         // check arguments
         tlapack_check_false(side != Side::Left && side != Side::Right);
-- 
2.43.0


From a6be9e64913fadb5fa977b9221f2abfcf3146133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 17/52] fix: hemm2 without beta can be called and forwards
 transB

---
 include/tlapack/lapack/hemm2.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/tlapack/lapack/hemm2.hpp b/include/tlapack/lapack/hemm2.hpp
index ea6454f..2195e2b 100644
--- a/include/tlapack/lapack/hemm2.hpp
+++ b/include/tlapack/lapack/hemm2.hpp
@@ -394,12 +394,7 @@ void hemm2(Side side,
 template <TLAPACK_MATRIX matrixA_t,
           TLAPACK_MATRIX matrixB_t,
           TLAPACK_MATRIX matrixC_t,
-          TLAPACK_SCALAR alpha_t,
-          class T = type_t<matrixC_t>,
-          disable_if_allow_optblas_t<pair<matrixA_t, T>,
-                                     pair<matrixB_t, T>,
-                                     pair<matrixC_t, T>,
-                                     pair<alpha_t, T>>>
+          TLAPACK_SCALAR alpha_t>
 void hemm2(Side side,
            Uplo uplo,
            Op transB,
@@ -408,7 +403,7 @@ void hemm2(Side side,
            const matrixB_t& B,
            matrixC_t& C)
 {
-    return hemm2(side, uplo, alpha, A, B, StrongZero(), C);
+    return hemm2(side, uplo, transB, alpha, A, B, StrongZero(), C);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From d2e62bd085a031f6e91e3874ef93165fb8216c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 18/52] fix: laed2 and laed6 constants are formed in the
 working precision

---
 include/tlapack/lapack/laed2.hpp | 2 +-
 include/tlapack/lapack/laed6.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/laed2.hpp b/include/tlapack/lapack/laed2.hpp
index 91f92fa..7727dcd 100644
--- a/include/tlapack/lapack/laed2.hpp
+++ b/include/tlapack/lapack/laed2.hpp
@@ -92,7 +92,7 @@ int laed2(idx_t& k,
 
     // Normalize z so that norm(z) = 1. Since z is the concatenation of a two
     // normalized vectors, norm2(z) = sqrt(2).
-    real_t t = real_t(1.0 / sqrt(2.0));
+    real_t t = real_t(1.0) / sqrt(real_t(2.0));
     scal(t, z);
 
     // RHO = ABS(norm(z)**2 * RHO)
diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index 5035f80..be8c2d9 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -169,7 +169,7 @@ int laed6(idx_t kniter,
 
     const int base = 2;
     const real_t safmin = safe_min<real_t>();
-    real_t small1 = pow(base, log(safmin) / log(real_t(base)) / real_t(3.0));
+    real_t small1 = pow(base, log2(safmin) / real_t(3.0));
     real_t sminv1 = real_t(1.0) / small1;
     real_t small2 = small1 * small1;
     real_t sminv2 = sminv1 * sminv1;
-- 
2.43.0


From 543f899034ebd478d9ad62d697f0491770f890c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 19/52] fix: headers include the routines they call on arrays
 of any type

---
 .../lapack/aggressive_early_deflation_generalized.hpp       | 1 +
 include/tlapack/lapack/gebrd.hpp                            | 1 +
 include/tlapack/lapack/generalized_schur_swap.hpp           | 1 +
 include/tlapack/lapack/gghd3.hpp                            | 3 +++
 include/tlapack/lapack/lahqz_eig22.hpp                      | 1 +
 include/tlapack/lapack/lahqz_schur22.hpp                    | 1 +
 include/tlapack/lapack/lauum_recursive.hpp                  | 1 +
 include/tlapack/lapack/lu_mult.hpp                          | 1 +
 include/tlapack/lapack/mult_llh.hpp                         | 1 +
 include/tlapack/lapack/multishift_qr_sweep.hpp              | 2 ++
 include/tlapack/lapack/multishift_qz_sweep.hpp              | 6 ++++++
 include/tlapack/lapack/pbtrf_with_workspace.hpp             | 1 +
 include/tlapack/lapack/rot_sequence3.hpp                    | 1 +
 include/tlapack/lapack/schur_swap.hpp                       | 1 +
 include/tlapack/lapack/tik_svd.hpp                          | 1 +
 include/tlapack/lapack/trevc3.hpp                           | 1 +
 include/tlapack/lapack/trevc_forwardsolve.hpp               | 1 +
 include/tlapack/lapack/trge_qr2.hpp                         | 2 ++
 include/tlapack/lapack/trge_ung2r.hpp                       | 3 +++
 include/tlapack/lapack/trsm_tri.hpp                         | 1 +
 20 files changed, 31 insertions(+)

diff --git a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
index 43de040..f470d34 100644
--- a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/lapack/FrancisOpts.hpp"
 #include "tlapack/lapack/generalized_schur_move.hpp"
 #include "tlapack/lapack/gghrd.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqz.hpp"
 #include "tlapack/lapack/lahqz_eig22.hpp"
 #include "tlapack/lapack/larf.hpp"
diff --git a/include/tlapack/lapack/gebrd.hpp b/include/tlapack/lapack/gebrd.hpp
index 4b2cc46..62750a0 100644
--- a/include/tlapack/lapack/gebrd.hpp
+++ b/include/tlapack/lapack/gebrd.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
 #include "tlapack/lapack/labrd.hpp"
+#include "tlapack/lapack/laset.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 83e1b76..69831bb 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -20,6 +20,7 @@
 #include "tlapack/blas/trsv.hpp"
 #include "tlapack/lapack/getrf.hpp"
 #include "tlapack/lapack/inv_house3.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqz_eig22.hpp"
 #include "tlapack/lapack/lahqz_schur22.hpp"
 #include "tlapack/lapack/lange.hpp"
diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..5356b46 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -13,9 +13,12 @@
 #define TLAPACK_GGHD3_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/gemm.hpp"
 #include "tlapack/blas/rot.hpp"
 #include "tlapack/blas/rotg.hpp"
 #include "tlapack/lapack/hessenberg_rq.hpp"
+#include "tlapack/lapack/lacpy.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/rot_sequence.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 6619d5b..deb358e 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -14,6 +14,7 @@
 
 #include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/rotg.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/lahqz_schur22.hpp b/include/tlapack/lapack/lahqz_schur22.hpp
index 11bae40..e2ed6d3 100644
--- a/include/tlapack/lapack/lahqz_schur22.hpp
+++ b/include/tlapack/lapack/lahqz_schur22.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/rot.hpp"
 #include "tlapack/blas/rotg.hpp"
+#include "tlapack/lapack/lahqz_eig22.hpp"
 #include "tlapack/lapack/lapy2.hpp"
 #include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/svd22.hpp"
diff --git a/include/tlapack/lapack/lauum_recursive.hpp b/include/tlapack/lapack/lauum_recursive.hpp
index 5bd5c22..c41c149 100644
--- a/include/tlapack/lapack/lauum_recursive.hpp
+++ b/include/tlapack/lapack/lauum_recursive.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_LAUUM_RECURSIVETLAPACK_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/herk.hpp"
 #include "tlapack/blas/trmm.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/lu_mult.hpp b/include/tlapack/lapack/lu_mult.hpp
index baf1b7f..eaa8172 100644
--- a/include/tlapack/lapack/lu_mult.hpp
+++ b/include/tlapack/lapack/lu_mult.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_LU_MULT_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/gemm.hpp"
 #include "tlapack/blas/trmm.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/mult_llh.hpp b/include/tlapack/lapack/mult_llh.hpp
index a9c0de8..5f713f3 100644
--- a/include/tlapack/lapack/mult_llh.hpp
+++ b/include/tlapack/lapack/mult_llh.hpp
@@ -11,6 +11,7 @@
 #define TLAPACK_MULT_LLH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/herk.hpp"
 #include "tlapack/blas/trmm.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/multishift_qr_sweep.hpp b/include/tlapack/lapack/multishift_qr_sweep.hpp
index 873dd22..27456ce 100644
--- a/include/tlapack/lapack/multishift_qr_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qr_sweep.hpp
@@ -12,8 +12,10 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqr_shiftcolumn.hpp"
 #include "tlapack/lapack/larfg.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/move_bulge.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 3fceb60..668ac93 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -12,8 +12,14 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
+#include "tlapack/blas/rot.hpp"
+#include "tlapack/blas/rotg.hpp"
+#include "tlapack/lapack/inv_house3.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqr_shiftcolumn.hpp"
+#include "tlapack/lapack/lahqz_shiftcolumn.hpp"
 #include "tlapack/lapack/larfg.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/move_bulge.hpp"
 
 namespace tlapack {
diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 07a0c00..7a17962 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -12,6 +12,7 @@
 #define TLAPACK_PBTRF_WITH_WORKSPACE_HH
 
 #include "tlapack/blas/trsm.hpp"
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/mult_llh.hpp"
 #include "tlapack/lapack/mult_uhu.hpp"
 #include "tlapack/lapack/potrf.hpp"
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b42e1d3 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -12,6 +12,7 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/rot.hpp"
+#include "tlapack/lapack/rot_sequence.hpp"
 
 namespace tlapack {
 
diff --git a/include/tlapack/lapack/schur_swap.hpp b/include/tlapack/lapack/schur_swap.hpp
index 6b9e917..6e349be 100644
--- a/include/tlapack/lapack/schur_swap.hpp
+++ b/include/tlapack/lapack/schur_swap.hpp
@@ -16,6 +16,7 @@
 #include "tlapack/blas/rot.hpp"
 #include "tlapack/blas/rotg.hpp"
 #include "tlapack/blas/swap.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/lahqr_schur22.hpp"
 #include "tlapack/lapack/lange.hpp"
 #include "tlapack/lapack/larfg.hpp"
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index 0677078..b90ac66 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_TIK_SVD
 #define TLAPACK_TIK_SVD
 
+#include "tlapack/lapack/unmlq.hpp"
 #include <tlapack/lapack/bidiag.hpp>
 #include <tlapack/lapack/lange.hpp>
 #include <tlapack/lapack/laset.hpp>
diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 7c2efd3..900cc1c 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
 #include "tlapack/blas/gemv.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/trevc.hpp"
 #include "tlapack/lapack/trevc3_backsolve.hpp"
 #include "tlapack/lapack/trevc3_forwardsolve.hpp"
diff --git a/include/tlapack/lapack/trevc_forwardsolve.hpp b/include/tlapack/lapack/trevc_forwardsolve.hpp
index 4c6dd65..548f1aa 100644
--- a/include/tlapack/lapack/trevc_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc_forwardsolve.hpp
@@ -14,6 +14,7 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
+#include "tlapack/blas/iamax.hpp"
 #include "tlapack/lapack/ladiv.hpp"
 #include "tlapack/lapack/trevc_protect.hpp"
 
diff --git a/include/tlapack/lapack/trge_qr2.hpp b/include/tlapack/lapack/trge_qr2.hpp
index c79a36d..222ce66 100644
--- a/include/tlapack/lapack/trge_qr2.hpp
+++ b/include/tlapack/lapack/trge_qr2.hpp
@@ -11,6 +11,8 @@
 #define TLAPACK_TRGE_QR2_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/lapack/larf.hpp"
+#include "tlapack/lapack/larfg.hpp"
 
 using namespace tlapack;
 
diff --git a/include/tlapack/lapack/trge_ung2r.hpp b/include/tlapack/lapack/trge_ung2r.hpp
index a9e4b03..858323c 100644
--- a/include/tlapack/lapack/trge_ung2r.hpp
+++ b/include/tlapack/lapack/trge_ung2r.hpp
@@ -11,6 +11,9 @@
 #define TLAPACK_TRGE_UNG2R_HH
 
 #include "tlapack/base/utils.hpp"
+#include "tlapack/blas/scal.hpp"
+#include "tlapack/lapack/larf.hpp"
+#include "tlapack/lapack/laset.hpp"
 
 using namespace tlapack;
 
diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..244d0a1 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -13,6 +13,7 @@
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/trmm.hpp"
+#include "tlapack/blas/trsm.hpp"
 #include "tlapack/lapack/lascl.hpp"
 #include "tlapack/lapack/trmm_out.hpp"
 
-- 
2.43.0


From 887d51ab687d5d8031bd26018f4dc0a7cd19f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 20/52] fix: gemv still forms beta*y when op(A) has no columns

---
 include/tlapack/blas/gemv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/blas/gemv.hpp b/include/tlapack/blas/gemv.hpp
index 032a25e..036def6 100644
--- a/include/tlapack/blas/gemv.hpp
+++ b/include/tlapack/blas/gemv.hpp
@@ -79,7 +79,7 @@ void gemv(Op trans,
     tlapack_check_false((idx_t)size(y) != m);
 
     // quick return
-    if (m == 0 || n == 0) return;
+    if (m == 0) return;
 
     // form y := beta*y
     for (idx_t i = 0; i < m; ++i)
-- 
2.43.0


From 584026002cd2b23611a8bb305af0040eafdb1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 21/52] fix: larf compares the size of x with the side it is
 applied from

---
 include/tlapack/lapack/larf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From a6600404040cffa91a4a24427e7760cbff78fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 22/52] fix: gemmtr rejects a C that is not n-by-n

---
 include/tlapack/lapack/gemmtr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gemmtr.hpp b/include/tlapack/lapack/gemmtr.hpp
index 14f2fb8..6e513a9 100644
--- a/include/tlapack/lapack/gemmtr.hpp
+++ b/include/tlapack/lapack/gemmtr.hpp
@@ -82,7 +82,7 @@ void gemmtr(Uplo uplo,
                         transA != Op::ConjTrans);
     tlapack_check_false(transB != Op::NoTrans && transB != Op::Trans &&
                         transB != Op::ConjTrans);
-    tlapack_check_false((idx_t)ncols(C) != n && (idx_t)nrows(C) != n);
+    tlapack_check_false((idx_t)ncols(C) != n || (idx_t)nrows(C) != n);
     tlapack_check_false(
         (idx_t)((transA == Op::NoTrans) ? ncols(A) : nrows(A)) != k);
     tlapack_check_false(
-- 
2.43.0


From ecd9ec09f36823935570ead1385cd485a09bdc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 23/52] fix: steqr reports that the iteration limit was reached

---
 include/tlapack/lapack/steqr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..4f8dbb7 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -112,17 +112,17 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     bool forwarddirection = true;
 
     // Main loop
-    for (idx_t iter = 0; iter < itmax; iter++) {
-        if (iter == itmax) {
-            // The QR algorithm failed to converge, return with error.
-            return istop;
-        }
-
+    for (idx_t iter = 0; iter <= itmax; iter++) {
         if (istop <= 1) {
             // All eigenvalues have been found, exit and return 0.
             break;
         }
 
+        if (iter == itmax) {
+            // The QR algorithm failed to converge, return with error.
+            return istop;
+        }
+
         // Find active block
         for (idx_t i = istop - 1; i > istart; --i) {
             if (square(e[i - 1]) <=
-- 
2.43.0


From cae3aff017a12f0bcc3ea62655bd946a36070b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 24/52] fix: trge_* and tik_* do not index before the first
 column of an empty matrix

---
 include/tlapack/lapack/tik_bidiag_elden.hpp | 3 +++
 include/tlapack/lapack/tik_svd.hpp          | 3 +++
 include/tlapack/lapack/trge_qr2.hpp         | 3 +++
 include/tlapack/lapack/trge_ung2r.hpp       | 6 ++++++
 4 files changed, 15 insertions(+)

diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index d9d8139..a731a43 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -64,6 +64,9 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n == 0) return;
+
     // Bidiagonal decomposition
     std::vector<T> tauv_, tauw_;
     auto tauv = new_vector(tauv_, n);
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index b90ac66..8fe77bd 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -48,6 +48,9 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n == 0) return;
+
     using range = pair<idx_t, idx_t>;
 
     std::vector<T> tauv_, tauw_;
diff --git a/include/tlapack/lapack/trge_qr2.hpp b/include/tlapack/lapack/trge_qr2.hpp
index 222ce66..2741d0a 100644
--- a/include/tlapack/lapack/trge_qr2.hpp
+++ b/include/tlapack/lapack/trge_qr2.hpp
@@ -30,6 +30,9 @@ void trge_qr2(matrix_t& A, vector_t& tau)
     idx_t n = ncols(A);
     idx_t m = nrows(A) - n;
 
+    // quick return
+    if (n == 0) return;
+
     // Generate a workspace
     std::vector<T> work_;
     auto work = new_matrix(work_, m + n, 1);
diff --git a/include/tlapack/lapack/trge_ung2r.hpp b/include/tlapack/lapack/trge_ung2r.hpp
index 858323c..56577be 100644
--- a/include/tlapack/lapack/trge_ung2r.hpp
+++ b/include/tlapack/lapack/trge_ung2r.hpp
@@ -32,6 +32,12 @@ void trge_ung2r(matrix_t& W, vector_t& tau)
     idx_t m = nrows(W) - n;
     idx_t k = ncols(W);
 
+    // quick return
+    if (n == 0) {
+        laset(GENERAL, real_t(0.0), real_t(1.0), W);
+        return;
+    }
+
     auto Winit0 = slice(W, range{0, n}, range{n, k});
     laset(GENERAL, real_t(0.0), real_t(0.0), Winit0);
 
-- 
2.43.0


From 215da008e4978124385179be84f9725897191d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 25/52] fix: tik_svd and tik_qr reject a matrix with more
 columns than rows

---
 include/tlapack/lapack/tik_qr.hpp  | 3 +++
 include/tlapack/lapack/tik_svd.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/tik_qr.hpp b/include/tlapack/lapack/tik_qr.hpp
index e2b0584..2684857 100644
--- a/include/tlapack/lapack/tik_qr.hpp
+++ b/include/tlapack/lapack/tik_qr.hpp
@@ -36,6 +36,9 @@ template <TLAPACK_MATRIX matrixA_t,
           TLAPACK_REAL real_t>
 void tik_qr(matrixA_t& A, matrixb_t& b, real_t lambda)
 {
+    // check arguments
+    tlapack_check(nrows(A) >= ncols(A));
+
     // Initliazation for basic utilities
     using T = type_t<matrixA_t>;
     using idx_t = size_type<matrixA_t>;
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index 8fe77bd..7fe86de 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -38,6 +38,9 @@ template <TLAPACK_MATRIX matrixA_t,
           TLAPACK_REAL real_t>
 void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
 {
+    // check arguments
+    tlapack_check(nrows(A) >= ncols(A));
+
     using T = type_t<matrixA_t>;
     using idx_t = size_type<matrixA_t>;
 
-- 
2.43.0


From 97caebab9b0fae0a088593b1296bb5e8c3e66302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 26/52] fix: tik_svd returns the error code of svd_qr

---
 include/tlapack/lapack/tik_svd.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index 7fe86de..a722d15 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -21,6 +21,8 @@
 #include <tlapack/lapack/unmqr.hpp>
 
 /**
+ * @return 0 if success, otherwise the error code of svd_qr().
+ *
  * @param[in] A is an m-by-n matrix where m >= n.
  * @param[in,out] b
  *      On entry, b is a m-by-k matrix
@@ -36,7 +38,7 @@ using namespace tlapack;
 template <TLAPACK_MATRIX matrixA_t,
           TLAPACK_MATRIX matrixb_t,
           TLAPACK_REAL real_t>
-void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
+int tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
 {
     // check arguments
     tlapack_check(nrows(A) >= ncols(A));
@@ -52,7 +54,7 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t k = ncols(b);
 
     // quick return
-    if (n == 0) return;
+    if (n == 0) return 0;
 
     using range = pair<idx_t, idx_t>;
 
@@ -92,6 +94,7 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     laset(Uplo::General, zero, one, P2);
 
     int err = svd_qr(Uplo::Upper, true, true, d, e, Q2, P2);
+    if (err != 0) return err;
 
     // Apply Q2ᴴ
     std::vector<T> work_;
@@ -116,6 +119,8 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     // Final result
 
     // lacpy(GENERAL, x4, x);
+
+    return 0;
 }
 
 #endif  // TLAPACK_TIK_SVD
\ No newline at end of file
-- 
2.43.0


From 66074712b67dc0cd1f36413d784656ae0e46c5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 27/52] fix: gehd2 does not run off the matrix when ihi is 0

---
 include/tlapack/lapack/gehd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index ef47ef2..dea300e 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -92,7 +92,7 @@ int gehd2_work(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
-    for (idx_t i = ilo; i < ihi - 1; ++i) {
+    for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
 
-- 
2.43.0


From 0f4908e4fa85075fbeae47a8297a7b06cc68da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 28/52] fix: gehd2, gehrd and hetd2 accept an empty matrix

---
 include/tlapack/lapack/gehd2.hpp | 4 ++--
 include/tlapack/lapack/gehrd.hpp | 4 ++--
 include/tlapack/lapack/hetd2.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index dea300e..1ec3486 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -87,7 +87,7 @@ int gehd2_work(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
@@ -166,7 +166,7 @@ int gehd2(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..9331b0d 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -120,10 +120,10 @@ int gehrd_work(size_type<matrix_t> ilo,
     const idx_t nx = max(nb, (idx_t)opts.nx_switch);
 
     // check arguments
-    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ilo < 0) or (ilo >= max<idx_t>(1, n)));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
diff --git a/include/tlapack/lapack/hetd2.hpp b/include/tlapack/lapack/hetd2.hpp
index 76892a7..b89bb0c 100644
--- a/include/tlapack/lapack/hetd2.hpp
+++ b/include/tlapack/lapack/hetd2.hpp
@@ -60,7 +60,7 @@ int hetd2(uplo_t uplo, A_t& A, tau_t& tau)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check((idx_t)size(tau) >= n - 1);
+    tlapack_check((idx_t)size(tau) + 1 >= n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 20df75279b21e00ea7907b4dc30c27ce7e2e366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 29/52] fix: hasinf, hasnan and lascl stay inside a square
 upper Hessenberg matrix

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 include/tlapack/lapack/lascl.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From 9b8a114313d23d52dcb566cc4075d26da873c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 30/52] fix: pbtrf_with_workspace handles a band narrower than
 the block size

---
 include/tlapack/lapack/pbtrf_with_workspace.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 7a17962..f10d312 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -68,7 +68,8 @@ void pbtrf_with_workspace(uplo_t uplo,
 
     tlapack::Create<matrix_t> new_matrix;
 
-    const idx_t nb = opts.nb;
+    // a block is never wider than the band
+    const idx_t nb = (kd > 0) ? min<idx_t>(opts.nb, kd) : 1;
 
     idx_t n = nrows(A);
 
@@ -86,7 +87,7 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             potrf(uplo, A00);
 
-            if (i + ib < n) {
+            if (kd > 0 && i + ib < n) {
                 // i2 = min(kd - ib, n - i - ib)
                 idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
                 // i3 = min(ib, n-i-kd)
@@ -159,7 +160,7 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             potf2(tlapack::Uplo::Lower, A00);
 
-            if (i + ib <= n) {
+            if (kd > 0 && i + ib <= n) {
                 // i2 = min(kd - ib, n - i - ib)
                 idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-- 
2.43.0


From 75aa495f3764ebe94877d2e0257ce93ade4c6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 31/52] fix: unghr stays inside the matrix when ihi is 0 or ilo
 is n

---
 include/tlapack/lapack/unghr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index b1d0b17..005d7c4 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -93,7 +93,7 @@ int unghr_work(size_type<matrix_t> ilo,
 
     // This is currently optimised for column matrices, it may be interesting
     // to also write these loops for row matrices
-    for (idx_t j = ihi - 1; j > ilo; --j) {
+    for (idx_t j = ihi; j-- > ilo + 1;) {
         for (idx_t i = 0; i < j; ++i) {
             A(i, j) = zero;
         }
@@ -104,7 +104,7 @@ int unghr_work(size_type<matrix_t> ilo,
             A(i, j) = zero;
         }
     }
-    for (idx_t j = 0; j < ilo + 1; ++j) {
+    for (idx_t j = 0; j < min(ilo + 1, n); ++j) {
         for (idx_t i = 0; i < n; ++i) {
             A(i, j) = zero;
         }
-- 
2.43.0


From 5f555971fdee92db92c1ce07217b06b47f6114a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 32/52] fix: unmhr does nothing when there are no reflectors

---
 include/tlapack/lapack/unmhr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/unmhr.hpp b/include/tlapack/lapack/unmhr.hpp
index 0a0a5de..17dc757 100644
--- a/include/tlapack/lapack/unmhr.hpp
+++ b/include/tlapack/lapack/unmhr.hpp
@@ -59,6 +59,9 @@ constexpr WorkInfo unmhr_worksize(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // quick return
+    if (ihi <= ilo + 1) return WorkInfo(0);
+
     auto&& A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto&& tau_s = slice(tau, range{ilo, ihi - 1});
     auto&& C_s = (side == Side::Left)
@@ -92,6 +95,9 @@ int unmhr_work(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // quick return
+    if (ihi <= ilo + 1) return 0;
+
     auto A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto tau_s = slice(tau, range{ilo, ihi - 1});
     auto C_s = (side == Side::Left)
-- 
2.43.0


From 66ce2d563a378235c25ddab2316bbbe12238c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 33/52] fix: ungbr_q and ungbr_p accept an empty matrix

---
 include/tlapack/lapack/ungbr.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..f68152a 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return WorkInfo(0);
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return WorkInfo(0);
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -147,7 +156,7 @@ int ungbr_q_work(const size_type<matrix_t> k,
         // Shift the vectors which define the elementary reflectors one
         // column to the right, and set the first row and column of Q
         // to those of the unit matrix
-        for (idx_t j = m - 1; j > 0; --j) {
+        for (idx_t j = m; j-- > 1;) {
             A(0, j) = zero;
             for (idx_t i = j + 1; i < m; ++i)
                 A(i, j) = A(i, j - 1);
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
-- 
2.43.0


From cfd4bf7a13d600fd643cb0b51f26b3d546d75987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 34/52] fix: ul_mult returns for an empty matrix

---
 include/tlapack/lapack/ul_mult.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index 3753d0f..224d3e5 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -44,7 +44,7 @@ int ul_mult(matrix_t& A)
     const idx_t n = ncols(A);
 
     // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From e9bf153cafd9bf9e9a69c216b092f2d76c6ee3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 35/52] fix: mult_hehe does not touch the first element of an
 empty matrix

---
 include/tlapack/lapack/mult_hehe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..e8ec8db 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -68,7 +68,7 @@ void mult_hehe(Uplo uplo,
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (m != n) return;
+    if (m != n || n == 0) return;
 
     if (n <= 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
-- 
2.43.0


From 1f63bf9bbb9428b83cf99c392cda68487316e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 36/52] fix: unmq_level2_worksize does not take a column of an
 empty matrix

---
 include/tlapack/lapack/unmq_level2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index ec34350..5ebee52 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -82,6 +82,9 @@ constexpr WorkInfo unmq_level2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nQ = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (m <= 0 || n <= 0 || size(tau) <= 0) return WorkInfo(0);
+
     if (storeMode == StoreV::Columnwise)
         return larf_worksize<T>(side, direction, storeMode,
                                 slice(V, range{0, nQ}, 0), tau[0], C);
-- 
2.43.0


From 1fec56c3da7a4bc3b4d3d1334d41bcab431a4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 37/52] fix: labrd does not read X and Y before it writes them

---
 include/tlapack/lapack/labrd.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/tlapack/lapack/labrd.hpp b/include/tlapack/lapack/labrd.hpp
index 457eab4..858a504 100644
--- a/include/tlapack/lapack/labrd.hpp
+++ b/include/tlapack/lapack/labrd.hpp
@@ -61,7 +61,6 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
     // constants
     const real_t one(1);
-    const real_t zero(0);
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
     const idx_t nb = ncols(X);
@@ -107,17 +106,17 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // y11 = A(i:m,i+1:n)^H * v
                     auto A0 = slice(A, range{i, m}, range{i + 1, n});
-                    gemv(CONJ_TRANS, one, A0, v, zero, y11);
+                    gemv(CONJ_TRANS, one, A0, v, y11);
                     // t = A(i:m,0:i)^H * v
                     auto A1 = slice(A, range{i, m}, range{0, i});
                     auto t = slice(Y, range{0, i}, i);
-                    gemv(CONJ_TRANS, one, A1, v, zero, t);
+                    gemv(CONJ_TRANS, one, A1, v, t);
                     // y11 = y11 - Y(i+1:n,0:i) * t
                     auto Y2 = slice(Y, range{i + 1, n}, range{0, i});
                     gemv(NO_TRANS, -one, Y2, t, one, y11);
                     // t = X(i:m,0:i)^H * v
                     auto X2 = slice(X, range{i, m}, range{0, i});
-                    gemv(CONJ_TRANS, one, X2, v, zero, t);
+                    gemv(CONJ_TRANS, one, X2, v, t);
                     // y11 = y11 - A(0:i,i+1:n)^H * t
                     auto A2 = slice(A, range{0, i}, range{i + 1, n});
                     gemv(CONJ_TRANS, -one, A2, t, one, y11);
@@ -165,18 +164,18 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // x11 = A(i+1:m,i+1:n) * w
                     auto A4 = slice(A, range{i + 1, m}, range{i + 1, n});
-                    gemv(NO_TRANS, one, A4, w, zero, x11);
+                    gemv(NO_TRANS, one, A4, w, x11);
                     // t = Y(i+1:n,0:i+1)^H * w
                     auto Y4 = slice(Y, range{i + 1, n}, range{0, i + 1});
                     auto t2 = slice(X, range{0, i + 1}, i);
-                    gemv(CONJ_TRANS, one, Y4, w, zero, t2);
+                    gemv(CONJ_TRANS, one, Y4, w, t2);
                     // x11 = x11 - A(i+1:m,0:i+1) * t
                     auto A5 = slice(A, range{i + 1, m}, range{0, i + 1});
                     gemv(NO_TRANS, -one, A5, t2, one, x11);
                     // t = A(0:i,i+1:n) * w
                     auto A6 = slice(A, range{0, i}, range{i + 1, n});
                     auto t3 = slice(X, range{0, i}, i);
-                    gemv(NO_TRANS, one, A6, w, zero, t3);
+                    gemv(NO_TRANS, one, A6, w, t3);
                     // x11 = x11 - X(i+1:m,0:i) * t
                     auto X4 = slice(X, range{i + 1, m}, range{0, i});
                     gemv(NO_TRANS, -one, X4, t3, one, x11);
@@ -231,19 +230,19 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // x11 = A(i+1:m,i+1:n) * w
                     auto A4 = slice(A, range{i + 1, m}, range{i, n});
-                    gemv(NO_TRANS, one, A4, w, zero, x11);
+                    gemv(NO_TRANS, one, A4, w, x11);
                     if (i > 0) {
                         // t = Y(i:n,0:i)^H * w
                         auto Y4 = slice(Y, range{i, n}, range{0, i});
                         auto t2 = slice(X, range{0, i}, i);
-                        gemv(CONJ_TRANS, one, Y4, w, zero, t2);
+                        gemv(CONJ_TRANS, one, Y4, w, t2);
                         // x11 = x11 - A(i+1:m,0:i) * t
                         auto A5 = slice(A, range{i + 1, m}, range{0, i});
                         gemv(NO_TRANS, -one, A5, t2, one, x11);
                         // t = A(0:i,i:n) * w
                         auto A6 = slice(A, range{0, i}, range{i, n});
                         auto t3 = slice(X, range{0, i}, i);
-                        gemv(NO_TRANS, one, A6, w, zero, t3);
+                        gemv(NO_TRANS, one, A6, w, t3);
                         // x11 = x11 - X(i+1:m,0:i) * t
                         auto X4 = slice(X, range{i + 1, m}, range{0, i});
                         gemv(NO_TRANS, -one, X4, t3, one, x11);
@@ -283,18 +282,18 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // y11 = A(i+1:m,i+1:n)^H * v
                     auto A0 = slice(A, range{i + 1, m}, range{i + 1, n});
-                    gemv(CONJ_TRANS, one, A0, v, zero, y11);
+                    gemv(CONJ_TRANS, one, A0, v, y11);
                     // t = A(i+1:m,0:i)^H * v
                     auto A1 = slice(A, range{i + 1, m}, range{0, i});
                     auto t = slice(Y, range{0, i}, i);
-                    gemv(CONJ_TRANS, one, A1, v, zero, t);
+                    gemv(CONJ_TRANS, one, A1, v, t);
                     // y11 = y11 - Y(i+1:n,0:i) * t
                     auto Y2 = slice(Y, range{i + 1, n}, range{0, i});
                     gemv(NO_TRANS, -one, Y2, t, one, y11);
                     // t = X(i+1:m,0:i+1)^H * v
                     auto t2 = slice(Y, range{0, i + 1}, i);
                     auto X3 = slice(X, range{i + 1, m}, range{0, i + 1});
-                    gemv(CONJ_TRANS, one, X3, v, zero, t2);
+                    gemv(CONJ_TRANS, one, X3, v, t2);
                     // y11 = y11 - A(0:i+1,i+1:n)^H * t
                     auto A3 = slice(A, range{0, i + 1}, range{i + 1, n});
                     gemv(CONJ_TRANS, -one, A3, t2, one, y11);
-- 
2.43.0


From 728717adf578a91425fac5942df1568e9621df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 38/52] fix: move_bulge documents the 4-by-4 H that it accesses

---
 include/tlapack/lapack/move_bulge.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/move_bulge.hpp b/include/tlapack/lapack/move_bulge.hpp
index 5a6385d..add093b 100644
--- a/include/tlapack/lapack/move_bulge.hpp
+++ b/include/tlapack/lapack/move_bulge.hpp
@@ -16,13 +16,13 @@
 
 namespace tlapack {
 
-/** Given a 4-by-3 matrix H and small order reflector v,
+/** Given a 4-by-4 matrix H and small order reflector v,
  *  move_bulge applies the delayed right update to the last
  *  row and calculates a new reflector to move the bulge
  *  down. If the bulge collapses, an attempt is made to
  *  reintroduce it using shifts s1 and s2.
  *
- * @param[in,out] H 4x3 matrix.
+ * @param[in,out] H 4x4 matrix.
  * @param[in,out] v vector of size 3
  *      On entry, the delayed reflector to apply
  *      The first element of the reflector is assumed to be one, and v[0]
-- 
2.43.0


From 7c27efe7c9a05abe49c785dd09cc053d8daba253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 39/52] fix: multishift_qr does not write w before the
 arguments are checked

---
 include/tlapack/lapack/multishift_qr.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index a55cb43..428dd23 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -469,7 +469,6 @@ int multishift_qr(bool want_t,
 
     // quick return
     if (nh <= 0) return 0;
-    if (nh == 1) w[ilo] = A(ilo, ilo);
 
     // Tiny matrices must use lahqr
     if (n < nmin) {
-- 
2.43.0


From d87597ba61be49fd6c7904fe959ededae325835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 40/52] fix: aggressive_early_deflation checks its arguments
 before it deflates a 1-by-1 window

---
 include/tlapack/lapack/aggressive_early_deflation.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 1d342e4..e14b649 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -625,6 +625,14 @@ void aggressive_early_deflation(bool want_t,
     // First row index in the deflation window
     const idx_t kwtop = ihi - jw;
 
+    // check arguments
+    tlapack_check(nrows(A) == n);
+    if (want_z) {
+        tlapack_check(ncols(Z) == n);
+        tlapack_check(nrows(Z) == n);
+    }
+    tlapack_check((idx_t)size(s) == n);
+
     // s is the value just outside the window. It determines the spike
     // together with the orthogonal schur factors.
     T s_spike;
-- 
2.43.0


From 1fa9f2ca3b3344d8da55d3dff65733beccc2be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 41/52] fix: trmm_out does not include a header of the test
 directory

---
 include/tlapack/lapack/trmm_out.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..ca04609 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -10,7 +10,6 @@
 #ifndef TLAPACK_TRMM_OUT
 #define TLAPACK_TRMM_OUT
 
-#include "../../../test/include/MatrixMarket.hpp"
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/gemm.hpp"
 
-- 
2.43.0


From 87feb8f2c97f5bfe8d8c32e24713108a28b135e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 42/52] fix: trmm_out returns for an empty matrix

---
 include/tlapack/lapack/trmm_out.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index ca04609..70a47de 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -98,6 +98,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
-- 
2.43.0


From 736b6fe765fefa690bd0c143906fe3f0edd01023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 43/52] fix: trsm_tri returns for an empty matrix

---
 include/tlapack/lapack/trsm_tri.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 244d0a1..0f10feb 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -119,6 +119,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // quick return
+    if (n == 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
-- 
2.43.0


From 266cece2c07e77187182934d46254b8dec11632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:58 +0000
Subject: [PATCH 44/52] fix: multishift QR and QZ sweeps return when there is
 no pair of shifts or the block is too small

---
 include/tlapack/lapack/multishift_qr_sweep.hpp | 3 +++
 include/tlapack/lapack/multishift_qz_sweep.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/multishift_qr_sweep.hpp b/include/tlapack/lapack/multishift_qr_sweep.hpp
index 27456ce..214ba42 100644
--- a/include/tlapack/lapack/multishift_qr_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qr_sweep.hpp
@@ -104,6 +104,9 @@ void multishift_QR_sweep_work(bool want_t,
         tlapack_check(nrows(Z) == n);
     }
 
+    // quick return: no pair of shifts, or active block too small for a bulge
+    if (size(s) < 2 || ihi < ilo + 3) return;
+
     // Matrix V
     auto [V, work1] = reshape(work, 3, size(s) / 2);
 
diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 668ac93..a51c0dd 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -89,6 +89,9 @@ void multishift_QZ_sweep(bool want_t,
     const real_t eps = ulp<real_t>();
     const real_t small_num = safe_min<real_t>() * ((real_t)n / eps);
 
+    // quick return: no pair of shifts, or active block too small for a bulge
+    if (size(alpha) < 2 || ihi < ilo + 3) return;
+
     // Define workspace matrices
     // We use the lower triangular part of A and B as workspace
     const idx_t n_block_max = (n - 3) / 3;
-- 
2.43.0


From df4262ca238e5fb4f002c2b6e0bb885e7b629172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 45/52] fix: hetrf reports a zero pivot in the last 1-by-1
 block

---
 include/tlapack/lapack/hetrf_blocked.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 41517ad..293e613 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -70,6 +70,14 @@ int hetrf_blocked_work(uplo_t uplo,
     // Quick return
     if (n <= 0) return 0;
     int info = 0;
+
+    // The last column left has no pivot to choose: it is a 1-by-1 block
+    auto is_zero_block = [&](int i) {
+        return (opts.invariant == Op::ConjTrans)
+                   ? (real(A(i, i)) == real_t(0))
+                   : (A(i, i) == T(0));
+    };
+
     if (uplo == Uplo::Upper) {
         int j = (int)n;
         while (j > 1) {
@@ -84,6 +92,7 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j -= step;
         }
+        if (j == 1 && info == 0 && is_zero_block(0)) info = 1;
         ipiv[0] = min(0, ipiv[0]);
     }
     else if (uplo == Uplo::Lower) {
@@ -111,6 +120,7 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j += step;
         }
+        if (j == (int)n - 1 && info == 0 && is_zero_block(j)) info = j + 1;
         if (ipiv[n - 1] >= 0) ipiv[n - 1] = n - 1;
     }
     return info;
-- 
2.43.0


From 1b72ba81ad96cc41f6c1e53c002b8082e460b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 46/52] fix: potri and pbtrf_with_workspace return the info of
 the factorization

---
 .../tlapack/lapack/pbtrf_with_workspace.hpp   | 20 +++++++++++++------
 include/tlapack/lapack/potri.hpp              | 14 ++++++++++---
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index f10d312..83d0be0 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -46,14 +46,18 @@ struct BlockedBandedCholeskyOpts : public EcOpts {
  *    - Define the size of the block, nb.
  *    - Default is nb = 32.
  *
+ * @return 0: successful exit.
+ * @return i, 0 < i <= n, if the leading minor of order i is not
+ *      positive definite, and the factorization could not be completed.
+ *
  * @ingroup auxiliary
  **/
 
 template <typename uplo_t, typename matrix_t>
-void pbtrf_with_workspace(uplo_t uplo,
-                          matrix_t& A,
-                          size_t kd,
-                          const BlockedBandedCholeskyOpts& opts = {})
+int pbtrf_with_workspace(uplo_t uplo,
+                         matrix_t& A,
+                         size_t kd,
+                         const BlockedBandedCholeskyOpts& opts = {})
 {
     using T = tlapack::type_t<matrix_t>;
     using idx_t = tlapack::size_type<matrix_t>;
@@ -85,7 +89,8 @@ void pbtrf_with_workspace(uplo_t uplo,
             auto A00 = slice(A, range(i, min(ib + i, n)),
                              range(i, std::min(i + ib, n)));
 
-            potrf(uplo, A00);
+            const int info = potrf(uplo, A00);
+            if (info != 0) return info + i;
 
             if (kd > 0 && i + ib < n) {
                 // i2 = min(kd - ib, n - i - ib)
@@ -158,7 +163,8 @@ void pbtrf_with_workspace(uplo_t uplo,
             auto A00 =
                 slice(A, range(i, i + ib), range(i, std::min(ib + i, n)));
 
-            potf2(tlapack::Uplo::Lower, A00);
+            const int info = potf2(tlapack::Uplo::Lower, A00);
+            if (info != 0) return info + i;
 
             if (kd > 0 && i + ib <= n) {
                 // i2 = min(kd - ib, n - i - ib)
@@ -223,6 +229,8 @@ void pbtrf_with_workspace(uplo_t uplo,
             }
         }
     }
+
+    return 0;
 }
 
 }  // namespace tlapack
diff --git a/include/tlapack/lapack/potri.hpp b/include/tlapack/lapack/potri.hpp
index 4b81cbc..570fa76 100644
--- a/include/tlapack/lapack/potri.hpp
+++ b/include/tlapack/lapack/potri.hpp
@@ -41,19 +41,27 @@ namespace tlapack {
  *
  *      - On successful exit, the inverse of U or L.
  *
+ * @return 0: successful exit.
+ * @return i, 0 < i <= n, if the leading minor of order i is not
+ *      positive definite, and the inverse could not be computed.
+ *
  * @ingroup computational
  */
 template <TLAPACK_SMATRIX matrix_t>
-void potri(Uplo uplo, matrix_t& A)
+int potri(Uplo uplo, matrix_t& A)
 {
     tlapack_check(uplo == LOWER_TRIANGLE || uplo == UPPER_TRIANGLE);
     tlapack_check(nrows(A) == ncols(A));
 
-    potrf2(uplo, A);
+    int info = potrf2(uplo, A);
+    if (info != 0) return info;
 
-    trtri_recursive(uplo, NON_UNIT_DIAG, A);
+    info = trtri_recursive(uplo, NON_UNIT_DIAG, A);
+    if (info != 0) return info;
 
     lauum_recursive(uplo, A);
+
+    return 0;
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 9c7607204325ffd279e6a12f2202aa07cea2508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 47/52] fix: tkhnv returns the error code of tik_svd

---
 include/tlapack/lapack/tkhnv.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/tkhnv.hpp b/include/tlapack/lapack/tkhnv.hpp
index 2dddc9c..f51516a 100644
--- a/include/tlapack/lapack/tkhnv.hpp
+++ b/include/tlapack/lapack/tkhnv.hpp
@@ -18,10 +18,13 @@ struct TikOpts {
 };
 
 /// Solves Tikhonov regularized least squares using QR factorization
+///
+/// @return 0 if success, or the error code of the iteration that computes the
+///         SVD in the variant TikVariant::SVD.
 template <TLAPACK_MATRIX matrixA_t,
           TLAPACK_MATRIX matrixb_t,
           TLAPACK_REAL real_t>
-void tkhnv(matrixA_t& A, matrixb_t& b, real_t lambda, const TikOpts& opts = {})
+int tkhnv(matrixA_t& A, matrixb_t& b, real_t lambda, const TikOpts& opts = {})
 {
     tlapack_check(nrows(A) >= ncols(A));
 
@@ -30,7 +33,9 @@ void tkhnv(matrixA_t& A, matrixb_t& b, real_t lambda, const TikOpts& opts = {})
     else if (opts.variant == TikVariant::Elden)
         tik_bidiag_elden(A, b, lambda);
     else
-        tik_svd(A, b, lambda);
+        return tik_svd(A, b, lambda);
+
+    return 0;
 }
 
 #endif  // TLAPACK_TKHNV_HH
-- 
2.43.0


From 741daf227a7401a9cc58d23729d327369a7512a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:28 +0000
Subject: [PATCH 48/52] fix: legacy her and her2 update the row-major triangle,
 not its conjugate

---
 include/tlapack/legacy_api/blas/her.hpp  | 19 +++++++++++--------
 include/tlapack/legacy_api/blas/her2.hpp | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her.hpp b/include/tlapack/legacy_api/blas/her.hpp
index db2fb72..79e00ee 100644
--- a/include/tlapack/legacy_api/blas/her.hpp
+++ b/include/tlapack/legacy_api/blas/her.hpp
@@ -71,6 +71,7 @@ namespace legacy {
              idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using real_t = real_type<TA, TX>;
 
         // check arguments
@@ -84,15 +85,17 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == real_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
-
         // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
-
-        tlapack_expr_with_vector(x_, TX, n, x, incx, her(uplo, alpha, x_, A_));
+        if (layout == Layout::ColMajor) {
+            auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     her(uplo, alpha, x_, A_));
+        }
+        else {
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     her(uplo, alpha, x_, A_));
+        }
     }
 
 }  // namespace legacy
diff --git a/include/tlapack/legacy_api/blas/her2.hpp b/include/tlapack/legacy_api/blas/her2.hpp
index 6a3e02c..8c5b0f9 100644
--- a/include/tlapack/legacy_api/blas/her2.hpp
+++ b/include/tlapack/legacy_api/blas/her2.hpp
@@ -80,6 +80,7 @@ namespace legacy {
               idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX>;
 
         // check arguments
@@ -94,16 +95,17 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == scalar_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
-
         // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
-
-        tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
-                                   return her2(uplo, alpha, x_, y_, A_));
+        if (layout == Layout::ColMajor) {
+            auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
+        else {
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
     }
 
 }  // namespace legacy
-- 
2.43.0


From 995db726989042045df13bdbdf4d021f3b9ced16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:28 +0000
Subject: [PATCH 49/52] fix: legacy syrk, herk, syr2k and her2k with alpha = 0
 scale the uplo triangle only

---
 include/tlapack/legacy_api/blas/her2k.hpp | 15 +++++++++++----
 include/tlapack/legacy_api/blas/herk.hpp  | 15 +++++++++++----
 include/tlapack/legacy_api/blas/syr2k.hpp | 14 ++++++++++----
 include/tlapack/legacy_api/blas/syrk.hpp  | 14 ++++++++++----
 4 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..a4ed349 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -161,14 +161,21 @@ namespace legacy {
 
         if (alpha == scalar_t(0)) {
             if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..763e97b 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -139,14 +139,21 @@ namespace legacy {
 
         if (alpha == real_t(0)) {
             if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..668e317 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -161,14 +161,20 @@ namespace legacy {
 
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..f4b73aa 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -141,14 +141,20 @@ namespace legacy {
 
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
-- 
2.43.0


From 72a7de09f1f06e63c3954b8339bd779a5989e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:28 +0000
Subject: [PATCH 50/52] fix: legacy larfg returns tau = 0 for n = 0

---
 include/tlapack/legacy_api/lapack/larfg.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/legacy_api/lapack/larfg.hpp b/include/tlapack/legacy_api/lapack/larfg.hpp
index 9c68d3e..392fb9a 100644
--- a/include/tlapack/legacy_api/lapack/larfg.hpp
+++ b/include/tlapack/legacy_api/lapack/larfg.hpp
@@ -22,6 +22,12 @@ namespace legacy {
     template <typename T>
     void larfg(idx_t n, T& alpha, T* x, int_t incx, T& tau)
     {
+        // quick return
+        if (n <= 0) {
+            tau = T(0);
+            return;
+        }
+
         tlapack_expr_with_vector(
             x_, T, n - 1, x, incx,
             return larfg(COLUMNWISE_STORAGE, alpha, x_, tau));
-- 
2.43.0


From 18878407390cdeda8a5f2b111a4f29b27ba2eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:28 +0000
Subject: [PATCH 51/52] fix: legacy rotm rejects an unknown flag

---
 include/tlapack/legacy_api/blas/rotm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/blas/rotm.hpp b/include/tlapack/legacy_api/blas/rotm.hpp
index c69aaec..ad57fb5 100644
--- a/include/tlapack/legacy_api/blas/rotm.hpp
+++ b/include/tlapack/legacy_api/blas/rotm.hpp
@@ -67,7 +67,7 @@ namespace legacy {
         // check arguments
         tlapack_check_false(incx == 0);
         tlapack_check_false(incy == 0);
-        tlapack_check_false(flag < -2 && flag > 1);
+        tlapack_check_false(flag < -2 || flag > 1);
 
         // quick return
         if (n <= 0) return;
-- 
2.43.0


From f3f63173cb46ec75ddbe8123514bacf634021bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:28 +0000
Subject: [PATCH 52/52] fix: legacy ung2r views the k entries of tau

---
 include/tlapack/legacy_api/lapack/ung2r.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 0e6326d..e95e665 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -59,7 +59,7 @@ namespace legacy {
 
         // Matrix views
         auto A_ = create_matrix<TA>(A, m, n, lda);
-        auto tau_ = create_vector((TT*)tau, min(m, n));
+        auto tau_ = create_vector((TT*)tau, k);
 
         return ung2r(A_, tau_);
     }
-- 
2.43.0

