From 68b4e85fdaf5568162b25051046592f12cd02906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 01/77] fix: RCM reordering requires a symmetric pattern in
 symmetric preprocessing

---
 src/hif/pre/matching_scaling.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index f005e52..b050cb7 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -441,8 +441,11 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
   return_type BB;
   if (compute_perm && m) {
     p.build_inv();
-    // to see if we need to build A^T+A pattern
-    const bool build_apat = !IsSymm && opts.reorder == REORDER_RCM;
+    // to see if we need to build A^T+A pattern, note that symmetric
+    // preprocessing does not imply a symmetric pattern, while RCM (potentially
+    // used by auto) requires one
+    const bool build_apat = opts.reorder == REORDER_RCM ||
+                            (IsSymm && opts.reorder == REORDER_AUTO);
     if (build_apat) q.build_inv();
     BB = internal::compute_leading_block(A, A_crs, m, p, q, build_apat);
   }
-- 
2.43.0


From 82a843d06ab0517e0146890b6c0e17d23a8420ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 02/77] fix: skip matching for exactly zero leading blocks

---
 src/hif/ds/CompressedStorage.hpp |  4 +++-
 src/hif/pre/matching_scaling.hpp | 14 +++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..acc6ae0 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -629,7 +629,8 @@ class CompressedStorage {
         itr           = std::copy(ind_cbegin(i), last, itr);
         indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
       }
-    }
+    } else
+      std::fill(indptr.begin(), indptr.end(), indptr_type(0));
   }
 
   /// \brief extract leading block
@@ -641,6 +642,7 @@ class CompressedStorage {
                                iarray_type &indices, array_type &vals) const {
     _extract_leading_struct(m, indptr, indices);
     vals.resize(indices.size());
+    if (!indices.size()) return;  // empty leading block
     hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
     auto v_itr = vals.begin();
     for (size_type i(0); i < m; ++i)
diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index b050cb7..9f0daed 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -406,14 +406,22 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
     B = A_crs.extract_leading(m0);  // for explicit leading block do copy
 
   using eq_kernel = EqlDriver<value_type, index_type, indptr_type>;
-  do {
+  // NOTE there is nothing to match for exactly zero leading blocks, whose
+  // diagonals will be all deferred
+  const bool do_match = B.nnz();
+  if (!do_match)
+    for (size_type i(0); i < m0; ++i) {
+      p[i] = q[i] = i;
+      s[i] = t[i] = 1;
+    }
+  else {
     DefaultTimer timer;
     timer.start();
     eq_kernel::template do_matching<IsSymm>(B, p(), q(), s, t,
                                             opts.pre_scale, opts.verbose);
     timer.finish();
     if (timing) hif_info("Equilibrator took %gs.", (double)timer.time());
-  } while (false);
+  }
   // fill identity mapping and add one to scaling vectors for offsets, if any
   for (size_type i = m0; i < M; ++i) {
     p[i] = i;
@@ -425,7 +433,7 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
   }
 
   // revert indices
-  if (m0 == M && level > 1u) {
+  if (do_match && m0 == M && level > 1u) {
     for (auto &v : B.row_start()) --v;
     for (auto &v : B.col_ind()) --v;
   }
-- 
2.43.0


From b8bf1b8a1467db71b322bf6595cd422e17ae3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 03/77] fix: check the leading block bound before accessing
 masks in compute_leading_block

---
 src/hif/pre/matching_scaling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index 9f0daed..b08708a 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -269,7 +269,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
                   last = A_crs.col_ind_cend(row);
              itr != last; ++itr) {
           const size_type ind = q.inv(*itr);
-          if (!masks[ind] && ind < m) {
+          if (ind < m && !masks[ind]) {
             masks[ind] = true;
             buf[nnz++] = ind;
           }
@@ -303,7 +303,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
       for (auto itr = A_crs.col_ind_cbegin(row), last = A_crs.col_ind_cend(row);
            itr != last; ++itr) {
         const size_type ind = q.inv(*itr);
-        if (!masks[ind] && ind < m) {
+        if (ind < m && !masks[ind]) {
           masks[ind] = true;
           *i_itr++   = ind;
         }
-- 
2.43.0


From 079a5176e60f4880769c58a9e062652a22451150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 04/77] fix: leave empty rows and columns unscaled in iterative
 scaling

---
 src/hif/pre/a_priori_scaling.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hif/pre/a_priori_scaling.hpp b/src/hif/pre/a_priori_scaling.hpp
index 5517bca..e539660 100644
--- a/src/hif/pre/a_priori_scaling.hpp
+++ b/src/hif/pre/a_priori_scaling.hpp
@@ -199,13 +199,16 @@ inline void iterative_scale_p(const PermType &p, CrsType &A, ScalingType &rs,
           local_cs[j]  = std::max(std::abs(*v_itr), local_cs[j]);
         }
       }
-      local_rs[p[row]] = 1. / std::sqrt(tmp);
+      // NOTE empty rows are left unscaled
+      local_rs[p[row]] = tmp == scalar_type(0) ? 1. : 1. / std::sqrt(tmp);
     }
     for (size_type i(0); i < m; ++i) rs[i] *= local_rs[i];
     if (!IsSymm) {
       for (size_type i(0); i < n; ++i) {
-        const auto tmp = 1. / std::sqrt(local_cs[i]);
-        local_cs[i]    = tmp;
+        // NOTE empty columns are left unscaled
+        const scalar_type tmp =
+            local_cs[i] == scalar_type(0) ? 1. : 1. / std::sqrt(local_cs[i]);
+        local_cs[i] = tmp;
         cs[i] *= tmp;
       }
     }
-- 
2.43.0


From 5331574f337698090b07d7540e85adf20a6e4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 05/77] fix: ignore overflowed/underflowed MC64 scaling factors

---
 src/hif/pre/EqlDriver.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 5b5c120..8f82683 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -115,6 +115,10 @@ class EqlDriver {
       for (size_type i(0); i < n; ++i) {
         s[i] *= eq.t(i);
         t[i] *= eq.s(i);
+        // NOTE scaling can overflow/underflow for (nearly) structurally
+        // singular systems, see MC64 warning flags
+        if (!(s[i] > scalar_type(0)) || !std::isfinite(s[i])) s[i] = 1;
+        if (!(t[i] > scalar_type(0)) || !std::isfinite(t[i])) t[i] = 1;
       }
     } while (false);  // bufs freed here
 
-- 
2.43.0


From e7a23581bb9564ba47949430ec222ce7f930f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 06/77] fix: allow factorizing exactly zero (Schur complement)
 inputs

---
 src/hif/alg/factor.hpp       | 6 ++++--
 src/hif/alg/pivot_factor.hpp | 6 ++++--
 src/hif/alg/symm_factor.hpp  | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..18d1320 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -713,7 +713,8 @@ inline CsType level_factorize(
   do {
     const size_type rsv_fac =
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_U) : HIF_RESERVE_FAC;
-    U.reserve(A.nnz() * rsv_fac);
+    // NOTE the input can be exactly zero, e.g., a zero Schur complement
+    U.reserve(std::max(A.nnz(), size_type(1)) * rsv_fac);
     hif_error_if(
         U.col_ind().status() == DATA_UNDEF || U.vals().status() == DATA_UNDEF,
         "memory allocation failed for U-nnz arrays at level %zd.", cur_level);
@@ -727,7 +728,8 @@ inline CsType level_factorize(
   do {
     const size_type rsv_fac =
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_L) : HIF_RESERVE_FAC;
-    L.reserve(A.nnz() * rsv_fac);
+    // NOTE the input can be exactly zero, e.g., a zero Schur complement
+    L.reserve(std::max(A.nnz(), size_type(1)) * rsv_fac);
     hif_error_if(
         L.row_ind().status() == DATA_UNDEF || L.vals().status() == DATA_UNDEF,
         "memory allocation failed for L-nnz arrays at level %zd.", cur_level);
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 4e36be9..a1938ca 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -191,7 +191,8 @@ inline CsType pivot_level_factorize(
   do {
     const size_type rsv_fac =
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_U) : HIF_RESERVE_FAC;
-    U.reserve(A.nnz() * rsv_fac);
+    // NOTE the input can be exactly zero, e.g., a zero Schur complement
+    U.reserve(std::max(A.nnz(), size_type(1)) * rsv_fac);
     hif_error_if(
         U.col_ind().status() == DATA_UNDEF || U.vals().status() == DATA_UNDEF,
         "memory allocation failed for U-nnz arrays at level %zd.", cur_level);
@@ -205,7 +206,8 @@ inline CsType pivot_level_factorize(
   do {
     const size_type rsv_fac =
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_L) : HIF_RESERVE_FAC;
-    L.reserve(A.nnz() * rsv_fac);
+    // NOTE the input can be exactly zero, e.g., a zero Schur complement
+    L.reserve(std::max(A.nnz(), size_type(1)) * rsv_fac);
     hif_error_if(
         L.row_ind().status() == DATA_UNDEF || L.vals().status() == DATA_UNDEF,
         "memory allocation failed for L-nnz arrays at level %zd.", cur_level);
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 546d38e..9b1712a 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -247,7 +247,8 @@ inline CsType symm_level_factorize(
   do {
     const size_type rsv_fac =
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_L) : HIF_RESERVE_FAC;
-    L.reserve(A.nnz() * rsv_fac);
+    // NOTE the input can be exactly zero, e.g., a zero Schur complement
+    L.reserve(std::max(A.nnz(), size_type(1)) * rsv_fac);
     hif_error_if(
         L.row_ind().status() == DATA_UNDEF || L.vals().status() == DATA_UNDEF,
         "memory allocation failed for L-nnz arrays at level %zd.", cur_level);
-- 
2.43.0


From 4c9c311de50d79dc546e96205b68a7fd61128576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 07/77] fix: symmetric leading block size is ignored without
 preprocessing

---
 src/hif/alg/factor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 18d1320..afb412a 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -682,7 +682,7 @@ inline CsType level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;  // leading symmetric block size, or the whole system
   }
   timer.finish();  // prefile pre-processing
 
@@ -748,7 +748,7 @@ inline CsType level_factorize(
   Array<indptr_type> L_offsets;
   if (IsSymm) {
     L_offsets.resize(m);
-    hif_error_if(L_offsets.status() == DATA_UNDEF,
+    hif_error_if(m && L_offsets.status() == DATA_UNDEF,
                  "memory allocation failed for L_offsets at level %zd.",
                  cur_level);
   }
-- 
2.43.0


From d9dad76e3930e8516581fddb73700d3cb4ff49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 08/77] fix: wrong column offsets in SYEIG with several
 right-hand sides

---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..c8b4151 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -234,7 +234,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -243,7 +243,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -300,7 +300,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -309,7 +309,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From 128d914df4a282a74a8eb6321772a3e0f40bde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 09/77] fix: definite truncation in SYEIG started from the
 wrong end of the spectrum

---
 src/hif/small_scale/SYEIG.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index c8b4151..49dffe6 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,23 +134,25 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(_w.cbegin(), _w.cend(),
+                                   [](const scalar_type a, const scalar_type b) {
+                                     return std::abs(a) < std::abs(b);
+                                   }));
     _rank = n;
+    // NOTE eigenvalues are in ascending order
     if (opts.spd > 0) {
       // ensure pd-ness
-      for (int i(n - 1); i > -1; --i)
+      // reverse the order for truncations
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
+      for (size_type i(0); i < n; ++i)
         if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
+      for (int i(n - 1); i > -1; --i)
         if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
-- 
2.43.0


From 771a92ad561b02a9946a571351adbc9ee07e3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 10/77] fix: an exactly zero dense block has rank zero

---
 src/hif/small_scale/QRCP.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..25ceceb 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -161,7 +161,11 @@ class QRCP {
       }
     // initial rank to be full rank
     _rank = _mat.ncols();
-    if (do_cond_test) {
+    if (std::abs(_mat[0]) == scalar_type(0)) {
+      // exactly zero matrix
+      _rank = 0u;
+      if (hif_verbose(WARN, opts)) hif_warning("\n  The system is zero.");
+    } else if (do_cond_test) {
 #ifdef HIF_TQRCP_USE_1NORM
       static const char *nrm_sig = "1";
       _est_rank(cond_thres <= 0.0 ? cond_tol : scalar_type(cond_thres));
-- 
2.43.0


From 190ad05afc736408d1c03485bef40cadb10a1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 11/77] fix: no spurious allocation errors for matrices without
 entries

---
 src/hif/builder.hpp              | 2 +-
 src/hif/pre/matching_scaling.hpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..c3a0d06 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -337,7 +337,7 @@ class HIF {
       // shallow integer arrays
       AA.resize(A.nrows(), A.ncols());
       AA.vals().resize(A.nnz());
-      hif_error_if(AA.vals().status() == DATA_UNDEF,
+      hif_error_if(A.nnz() && AA.vals().status() == DATA_UNDEF,
                    "memory allocation failed");
       std::copy(A.vals().cbegin(), A.vals().cend(), AA.vals().begin());
     }
diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index b08708a..e2295e5 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -226,7 +226,8 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
     auto &row_ind = B.row_ind();
     // NOTE we only indices for reordering step
     row_ind.resize(col_start[m]);
-    hif_error_if(row_ind.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(col_start[m] && row_ind.status() == DATA_UNDEF,
+                 "memory allocation failed");
     auto itr = row_ind.begin();
 
     // assemble nnz arrays
@@ -286,7 +287,8 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
     auto &row_ind = B.row_ind();
     // NOTE we only indices for reordering step
     row_ind.resize(col_start[m]);
-    hif_error_if(row_ind.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(col_start[m] && row_ind.status() == DATA_UNDEF,
+                 "memory allocation failed");
 
     auto i_itr = row_ind.begin();
     for (size_type i(0); i < m; ++i) {
@@ -399,7 +401,8 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
         B.col_ind()   = typename CrsType::iarray_type(A_crs.col_ind(), true);
       }
       B.vals().resize(A_crs.nnz());
-      hif_error_if(B.vals().status() == DATA_UNDEF, "memory allocation failed");
+      hif_error_if(A_crs.nnz() && B.vals().status() == DATA_UNDEF,
+                   "memory allocation failed");
       std::copy(A_crs.vals().cbegin(), A_crs.vals().cend(), B.vals().begin());
     }
   } else
-- 
2.43.0


From a8f2ddb0f3c34e29c7988e471f4b8d2956919513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 12/77] fix: grow the work buffer when solving with more
 right-hand sides

---
 src/hif/builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index c3a0d06..d833fc7 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -438,7 +438,8 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    // NOTE the buffer may have been allocated for fewer right-hand sides
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From 192318315b0f1e77df8d14b013d1869f4d29f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 13/77] fix: copy directions in the multiple right-hand side
 solve

---
 src/hif/alg/prec_solve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..cd19d6c 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -487,14 +487,14 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
     auto work_next = work_array_type(nm, &work[n], WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
-- 
2.43.0


From 58448116f0bb4293797647bc3c997d1ab51c9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 14/77] fix: export levels with empty leading blocks

---
 src/hif/ds/CompressedStorage.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index acc6ae0..486567d 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2721,7 +2721,12 @@ inline void export_compressed_data(const CSCopiedType &             A,
                                    typename ExportCSType::pointer   vals) {
   // if export is same as copied, then this is shallow copy
   const ExportCSType AA(A);
-  std::copy_n(AA.ind_start().cbegin(), AA.primary_size() + 1, ind_start);
+  if (AA.ind_start().size())
+    std::copy_n(AA.ind_start().cbegin(), AA.primary_size() + 1, ind_start);
+  else
+    // empty structure, e.g., empty leading blocks
+    std::fill_n(ind_start, AA.primary_size() + 1,
+                typename ExportCSType::indptr_type(0));
   std::copy_n(AA.inds().cbegin(), AA.nnz(), indices);
   std::copy_n(AA.vals().cbegin(), AA.nnz(), vals);
 }
-- 
2.43.0


From 46d8c7a74955b723e4f2c3a0caa92b14cc15c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 15/77] fix: level accessor accepted one level too many

---
 src/hif/builder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index d833fc7..4fe0e1b 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -236,8 +236,10 @@ class HIF {
   /// \brief get constant reference to a specific level
   /// \note This function takes linear time complexity
   inline const prec_type &prec(const size_type level) const {
-    hif_error_if(level >= levels(), "%zd exceeds the total level number %zd",
-                 level, levels());
+    // NOTE the dense last level is stored together with the last sparse one
+    hif_error_if(level >= _precs.size(),
+                 "%zd exceeds the total level number %zd", level,
+                 _precs.size());
     auto itr = _precs.cbegin();
     std::advance(itr, level);
     return *itr;
-- 
2.43.0


From 77c2193fd29c4ff121aad6864f1ac33cc31c4b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 16/77] fix: leading block size is ignored without
 preprocessing (pivoting, symmetric)

---
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index a1938ca..f005cb5 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -156,7 +156,7 @@ inline CsType pivot_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;  // leading symmetric block size, or the whole system
   }
 
   timer.finish();  // prefile pre-processing
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 9b1712a..aeb9641 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -197,7 +197,7 @@ inline CsType symm_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;  // leading symmetric block size, or the whole system
   }
   timer.finish();  // prefile pre-processing
 
-- 
2.43.0


From b5c08bfaad6665fcfeda139e47cb3e140fc1b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 17/77] fix: matching candidates could be overwritten while
 building the search tree

---
 src/hif/pre/equilibrate.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hif/pre/equilibrate.hpp b/src/hif/pre/equilibrate.hpp
index 035f476..2651bbd 100644
--- a/src/hif/pre/equilibrate.hpp
+++ b/src/hif/pre/equilibrate.hpp
@@ -541,16 +541,14 @@ inline void kernel(const _Integer n, const _Integer *ip, const _Index *irn,
       } else {
         if (dnew < dmin_) dmin_ = dnew;
         d__[i__] = dnew;
-        ++qlen;
-        q[qlen] = k;
       }
     }
-    // initialize heap q and q2 with rows held in q(1:qlen)
-    const _Integer kkstop = qlen;
-    qlen                  = 0;
-    for (kk = 1; kk <= kkstop; ++kk) {
-      k   = q[kk];
+    // initialize heap q and q2 with the rows visited above, NOTE that these
+    // rows cannot be staged in q, because q2 (which grows from the end of q)
+    // may overwrite the ones that have not yet been processed
+    for (k = ip[j]; k <= kstop; ++k) {
       i__ = irn[k];
+      if (iperm[i__] == 0 || d__[i__] == rinf) continue;
       if (csp <= d__[i__]) {
         d__[i__] = rinf;
         continue;
-- 
2.43.0


From 54a44cc4e27b42304d68164ec5ea62daaddcefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 18/77] fix: parallel kernels assumed the requested number of
 threads

---
 src/hif/alg/Schur.hpp   | 15 ++++++++-------
 src/hif/utils/mt.hpp    | 12 ++++++++++++
 src/hif/utils/mt_mv.hpp |  8 ++++----
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 8f89701..e18f7c8 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -446,11 +446,11 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   if (nthreads <= 3) {
 #pragma omp parallel num_threads(2) default(shared)
     do {
-      const int thread = get_thread();
-      if (thread)
+      // NOTE the team may have a single thread
+      const int thread = get_thread(), team_size = get_team_size();
+      if (thread || team_size == 1)
         drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
-      else
-        drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
+      if (!thread) drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     } while (false);  // end of parallel region for 2
     return;
   }
@@ -462,7 +462,7 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   do {
     // determine thread id and work of partition
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(n, nthreads, thread);
+    const auto      part      = uniform_partition(n, get_team_size(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create additional work buffer
@@ -542,7 +542,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // resize nnz arrays
       L_E.col_ind().resize(L_E.nnz());
       L_E.vals().resize(L_E.nnz());
-    } else if (thread == 1) {
+    }
+    if (thread == 1 || get_team_size() == 1) {
       // U part
       auto i_itr = U_F.row_ind().begin();
       auto v_itr = U_F.vals().begin();
@@ -624,7 +625,7 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(N, nthreads, thread);
+    const auto      part      = uniform_partition(N, get_team_size(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create local sparse buffer
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index a736c6c..1966116 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -87,6 +87,18 @@ inline int get_thread() {
 #endif
 }
 
+/// \brief get the actual number of threads in the current team
+///
+/// Inside a parallel region, this can be smaller than what was requested, e.g.,
+/// nested regions, thread limits, or dynamic adjustment.
+inline int get_team_size() {
+#ifdef _OPENMP
+  return omp_get_num_threads();
+#else
+  return 1;
+#endif
+}
+
 /// \brief uniform partition
 inline std::pair<std::size_t, std::size_t> uniform_partition(
     const std::size_t n, const int threads, const int thread) {
diff --git a/src/hif/utils/mt_mv.hpp b/src/hif/utils/mt_mv.hpp
index 9047317..200501c 100644
--- a/src/hif/utils/mt_mv.hpp
+++ b/src/hif/utils/mt_mv.hpp
@@ -67,7 +67,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x.data(), part.first, part.second - part.first, y.data());
   } while (false);  // parallel region
 }
@@ -91,7 +91,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
@@ -142,7 +142,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x[0].data(), part.first,
                                  part.second - part.first, y[0].data());
   } while (false);  // parallel region
@@ -169,7 +169,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
-- 
2.43.0


From 0ab8252376b200ce416d809150751a44591a6171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 19/77] fix: index pointers of another width were reinterpreted

---
 src/hif/builder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 4fe0e1b..2689336 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -313,8 +313,15 @@ class HIF {
     if (A.nrows()) {
       if (A.ind_start()[0] == indptr_type(0)) {
         // 0-based, shallow copy
-        AA.ind_start() = iparray_type(
-            A.ind_start().size(), (indptr_type *)A.ind_start().data(), true);
+        if (sizeof(indptr_type) == sizeof(A.ind_start()[0]))
+          AA.ind_start() = iparray_type(
+              A.ind_start().size(), (indptr_type *)A.ind_start().data(), true);
+        else {
+          // NOTE the index pointer types may have different widths
+          AA.ind_start().resize(A.ind_start().size());
+          std::copy(A.ind_start().cbegin(), A.ind_start().cend(),
+                    AA.ind_start().begin());
+        }
         AA.inds() =
             iarray_type(A.inds().size(), (index_type *)A.inds().data(), true);
       } else if (A.ind_start()[0] == indptr_type(1)) {
-- 
2.43.0


From f0c0074d56530d15080b66b98eaebd38390eac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 20/77] fix: an exception while factorizing left incomplete
 levels behind

---
 src/hif/builder.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 2689336..105416c 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -359,12 +359,18 @@ class HIF {
 
     // create size references for dropping
     iarray_type row_sizes, col_sizes;
-    if (hif_verbose(FAC, params))
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
-                        schur_threads);
-    else
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout_dummy,
-                        schur_threads);
+    try {
+      if (hif_verbose(FAC, params))
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
+                          schur_threads);
+      else
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes,
+                          Crout_cout_dummy, schur_threads);
+    } catch (...) {
+      // do not leave incomplete levels behind
+      _precs.clear();
+      throw;
+    }
     t.finish();
     if (hif_verbose(INFO, params)) {
       const size_type Nnz = nnz();
-- 
2.43.0


From 6968cf3a6beab12ab16c1beae275ab62b80bb490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 21/77] fix: vectors that do not match the preconditioner were
 read and written out of bounds

---
 src/hif/alg/IterRefine.hpp | 4 ++++
 src/hif/builder.hpp        | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/IterRefine.hpp b/src/hif/alg/IterRefine.hpp
index ffbe751..8b86ddb 100644
--- a/src/hif/alg/IterRefine.hpp
+++ b/src/hif/alg/IterRefine.hpp
@@ -84,6 +84,8 @@ class IterRefine {
       M.solve(b, x, tran, last_dim);
       return;
     }
+    hif_error_if(b.size() != M.ncols() || x.size() != b.size(),
+                 "unmatched sizes");
     // now, allocate space
     _init(M.ncols());
     const size_type n(b.size());                   // dimension
@@ -129,6 +131,8 @@ class IterRefine {
       M.solve(b, x, tran, last_dim);
       return std::make_pair(size_type(1), -1);
     }
+    hif_error_if(b.size() != M.ncols() || x.size() != b.size(),
+                 "unmatched sizes");
     // compute norm of RHS
     const double bnorm = norm2(b);
     if (bnorm == 0.0) {
diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 105416c..cd7d1f8 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -425,7 +425,8 @@ class HIF {
   inline void solve(const RhsType &b, SolType &x, const bool trans = false,
                     const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != x.size() || b.size() != nrows(),
+                 "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
@@ -450,7 +451,8 @@ class HIF {
                          Array<std::array<SolValueType, Nrhs>> &      x,
                          const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != x.size() || b.size() != nrows(),
+                 "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
     // NOTE the buffer may have been allocated for fewer right-hand sides
@@ -519,7 +521,8 @@ class HIF {
   inline void mmultiply(const RhsType &x, SolType &y, const bool trans = false,
                         const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(y.size() != x.size(), "unmatched sizes");
+    hif_error_if(y.size() != x.size() || x.size() != nrows(),
+                 "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
-- 
2.43.0


From 626bc85b81669f4991f0acb583b0037d29ce5523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 22/77] fix: report complex value types to user callbacks by
 their BLAS letters

ValueTypeTrait gave 'd' and 's' for complex<double> and complex<float>, so
a null space filter or operator callback that follows the documented BLAS
convention treated complex arrays as real ones.
---
 src/hif/utils/common.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/utils/common.hpp b/src/hif/utils/common.hpp
index f0da626..6be4daa 100644
--- a/src/hif/utils/common.hpp
+++ b/src/hif/utils/common.hpp
@@ -211,7 +211,12 @@ struct ValueTypeTrait<float> {
 template <class T>
 struct ValueTypeTrait<std::complex<T>> {
   typedef typename ValueTypeTrait<T>::value_type value_type;
-  static constexpr char signature = ValueTypeTrait<T>::signature;  // for now
+  // BLAS conventions, i.e., 'z' and 'c'
+  static constexpr char signature =
+      ValueTypeTrait<T>::signature == 'd'
+          ? 'z'
+          : (ValueTypeTrait<T>::signature == 's' ? 'c'
+                                                 : ValueTypeTrait<T>::signature);
 };
 
 // mixed traits for long double
-- 
2.43.0


From 3b4a79b05700f893c27e2169944b59b99ff51a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 23/77] fix: apply the requested condition threshold in the
 dense RRQR

A threshold below eps^(-2/3) was only looked at when some diagonal entry
of R dropped below sqrt(eps), so smaller rrqr_cond values had no effect.
---
 src/hif/small_scale/QRCP.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index 25ceceb..d6bb8cb 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -141,7 +141,9 @@ class QRCP {
     hif_error_if(info < 0, "GEQP3 returned negative info");
 
     // fast filtering to test diagonal entries
-    bool            do_cond_test = false;
+    // NOTE the diagonals only tell about thresholds near the default one, thus
+    // tighter thresholds always need the estimator
+    bool            do_cond_test = cond_thres < cond_tol;
     const size_type N            = _tau.size();  // min (row, col)
     // we first check if we have too small diagonals, use this as a safe guard
     // to see if we need to call more expensive condition # estimator
-- 
2.43.0


From 52dc4c1f650a2ef451e3220103e6c01d27009b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 24/77] fix: conjugate in the transposed LU solve of complex
 matrices

The transposed solve is Hermitian everywhere else, including LUP::multiply.
---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..5743baa 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -140,7 +140,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -166,7 +166,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From 506f76ff911f918e8cc8f2ca16aea2e5cd4d8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 25/77] fix: dropping thresholds of L and U were exchanged

---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index afb412a..1fdf6fb 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -101,7 +101,7 @@ determine_fac_pars(const Options &opts, const int lvl) {
     alpha_L = opts.alpha_L;
     alpha_U = opts.alpha_U;
   }
-  return std::make_tuple(kappa_d, kappa, tau_U, tau_L, alpha_L, alpha_U);
+  return std::make_tuple(kappa_d, kappa, tau_L, tau_U, alpha_L, alpha_U);
 }
 
 /// \brief extract permutated diagonal
-- 
2.43.0


From 93f9e4cdc3d94ee6e4bd62071e0325d364c0d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 26/77] fix: non-positive fill factors of the off-diagonal
 blocks depended on the thread count

---
 src/hif/alg/Schur.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index e18f7c8..9186009 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -433,7 +433,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 
   const size_type n = L_E.nrows();
   hif_assert(n == U_F.ncols(), "mismatched sizes between L_E and U_F");
-  if (nthreads == 1 || n <= 200u) {
+  // NOTE non-positive alphas drop everything, which is handled in serial
+  if (nthreads == 1 || n <= 200u || !(alpha_L > 0) || !(alpha_U > 0)) {
     drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
     drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     return;
-- 
2.43.0


From 8b7634aafc7cf223ee1dda14dbfaac2d137b5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 27/77] fix: row-compressed wrappers could not use index
 pointers of other widths

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 486567d..1e9ef69 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1760,7 +1760,7 @@ using CSR = CRS<ValueType, IndexType, IndPtrType>;
 /// \warning It's the user's responsibility to maintain the external data
 /// \ingroup ds
 template <class ValueType, class IndexType, class IndPtrType>
-inline CRS<ValueType, IndexType> wrap_const_crs(
+inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type nrows,
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type ncols,
     const IndPtrType *row_start, const IndexType *col_ind,
-- 
2.43.0


From 4cc7d3d1e1dbd45b5deb5c693b6fd4812f304fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 28/77] fix: pruning applied the threshold repeatedly to the
 secondary maxima

---
 src/hif/ds/CompressedStorage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 1e9ef69..333ec4b 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -680,7 +680,8 @@ class CompressedStorage {
       std::fill_n(buf.begin(), n, scalar_type(0));
       // determine the thresholds for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
-        buf[_indices[i]] = eps * std::max(buf[_indices[i]], std::abs(_vals[i]));
+        buf[_indices[i]] = std::max(buf[_indices[i]], std::abs(_vals[i]));
+      for (size_type i(0); i < n; ++i) buf[i] *= eps;
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
-- 
2.43.0


From b7de425dac17a06bcf5e446210f211c2126aa2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 29/77] fix: checking a column-compressed wrapper visited nrows
 columns

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 333ec4b..75ac48e 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2683,7 +2683,7 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
     if (col_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
     Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
+    for (size_type i = 0u; i < ncols; ++i) {
       if (!mat.nnz_in_col(i)) {
 #ifdef HIF_DEBUG
         hif_warning("row %zd is empty!", i);
-- 
2.43.0


From d909be5fd8a2f01259d42824add2f146603435f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 30/77] fix: no spurious allocation errors for coordinate lists
 without entries

---
 src/hif/ds/CompressedStorage.hpp | 3 ++-
 src/hif/utils/coo2compress.hpp   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 75ac48e..e7565eb 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -557,7 +557,8 @@ class CompressedStorage {
     const size_type psize = OnlyLeading ? leading : m;
     if (DoValue) {
       buf.resize(OnlyLeading ? leading : n);
-      hif_error_if(buf.status() == DATA_UNDEF, "memory allocation failed");
+      hif_error_if(buf.status() == DATA_UNDEF && (OnlyLeading ? leading : n),
+                   "memory allocation failed");
     }
     indptr.resize(psize + 1);
     hif_error_if(indptr.status() == DATA_UNDEF, "memory allocation failed");
diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index 1d52102..e439387 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -76,9 +76,11 @@ inline void convert_coo2cs(const std::size_t       primary_size,
 
   // assemble to compressed storage
   indices.resize(nnz);
-  hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && indices.status() == DATA_UNDEF,
+               "memory allocation failed");
   vals.resize(nnz);
-  hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && vals.status() == DATA_UNDEF,
+               "memory allocation failed");
   for (size_type i(0); i < nnz; ++i) {
     const auto pos = ind_start[pidx[i]];
     indices[pos]   = sids[i];
-- 
2.43.0


From 27dde14c4b7490dabe03bae4c634098b8a68e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 31/77] fix: array assignments ignored the size of arrays with
 the same data and moved arrays could not be copied

---
 src/hif/ds/Array.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..302c68d 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -220,7 +220,7 @@ class Array {
       _cap    = other._cap;
       _status = other._status;
       // increment the counter
-      _counts->inc();
+      if (_counts) _counts->inc();  // null if other has been moved
     } else {
       // deep copy
       _counts = new _RefCount();
@@ -258,15 +258,9 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
-      // first, deallocate this
-      this->~Array();
-      _data   = other._data;
-      _size   = other._size;
-      _cap    = other._cap;
-      _status = other._status;
-      _counts = other._counts;
-      _counts->inc();
+    if (this != &other) {
+      Array tmp(other);
+      swap(tmp);
     }
     return *this;
   }
@@ -275,7 +269,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // call destructor
       this->~Array();
       _data   = other._data;
-- 
2.43.0


From 07e877038b2670d06e7fc0e5877bc1b799c101c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 32/77] fix: index pointer type of the start positions when
 splitting into columns

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index e7565eb..85b8c2f 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1671,7 +1671,7 @@ class CRS
   /// \param[in] m column size
   /// \param[in] start starting position array, at least size of nrows()
   inline std::pair<other_type, other_type> split_ccs(
-      const size_type m, const iarray_type &start) const {
+      const size_type m, const iparray_type &start) const {
     return std::make_pair(split_ccs<false>(m, start),
                           split_ccs<true>(m, start));
   }
-- 
2.43.0


From 0d0c019ccbff9183976560f093f39fba341a6a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 33/77] fix: conjugate in the transposed product with several
 vectors

---
 src/hif/ds/CompressedStorage.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 85b8c2f..a987e1e 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1306,7 +1306,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * avc;
       }
     }
   }
@@ -2215,8 +2216,9 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
-        for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k)
+          tmp[k] += x[*i_itr * Nrhs + k] * avc;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
     }
-- 
2.43.0


From e6f69519c412fc994979be16b589e02ebf94ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 34/77] fix: transposed lower solves with several vectors
 skipped entries

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index a987e1e..c2cb7ec 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1434,7 +1434,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2346,7 +2346,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From 0153eb226d12b4a0fa150b84867c8944e9da39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 35/77] fix: transposed products of matrices without rows left
 the result undefined

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index c2cb7ec..4ade80d 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1256,8 +1256,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, ncols(), Vy(0));
+    if (!_psize) return;
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
       auto      v_itr = _base::val_cbegin(i);
@@ -1296,8 +1296,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
+    if (!_psize) return;
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
       for (size_type k(0); k < Nrhs; ++k) temp[k] = x[i * Nrhs + k];
-- 
2.43.0


From 8ca433a7aa0299e4b61570b5ee9b09da1b76d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 36/77] fix: products of empty matrices with several vectors
 left the result undefined

---
 src/hif/ds/CompressedStorage.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 4ade80d..532a8c3 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1218,8 +1218,9 @@ class CRS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(
+          x.size() ? x[0].data() : (const InType *)nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1240,8 +1241,9 @@ class CRS
                  nrows());
     hif_error_if(istart + len > nrows(),
                  "out-of-bound pass-of-end range detected");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(
+          x.size() ? x[0].data() : (const InType *)nullptr, istart, len, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1323,8 +1325,9 @@ class CRS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(
+          x.size() ? x[0].data() : (const InType *)nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
@@ -2152,8 +2155,9 @@ class CCS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(
+          x.size() ? x[0].data() : (const InType *)nullptr, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2235,8 +2239,9 @@ class CCS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(
+          x.size() ? x[0].data() : (const InType *)nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From efb92812ea35917ed321edb8ee1683f9f168f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 37/77] fix: members of the augmented storages that could not
 be compiled or only for the other storage

---
 src/hif/ds/AugmentedStorage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/AugmentedStorage.hpp b/src/hif/ds/AugmentedStorage.hpp
index 9750c0f..804ccae 100644
--- a/src/hif/ds/AugmentedStorage.hpp
+++ b/src/hif/ds/AugmentedStorage.hpp
@@ -452,7 +452,7 @@ class AugCRS : public CrsType,
     hif_error_if(nrows() + 1u != crs_type::row_start().size(),
                  "row-start array size (%zd) does not agree with nrows (%zd)",
                  crs_type::row_start().size(), nrows());
-    hif_error_if(crs_type::nnz() != col_ind.size(), "inconsistent nnz");
+    hif_error_if(crs_type::nnz() != col_ind().size(), "inconsistent nnz");
     _base::_build_aug(ncols(), crs_type::row_start(), col_ind());
   }
 
@@ -821,7 +821,7 @@ class AugCCS : public CcsType,
 
   /// \brief build augmented data structure based on mature CCS
   /// \param[in] ccs temp CCS system
-  inline void build_aug(crs_type &&ccs) {
+  inline void build_aug(ccs_type &&ccs) {
     ccs_type::operator=(ccs);
     hif_error_if(ccs.status() == DATA_UNDEF, "undefined data input");
     hif_error_if(
@@ -1080,7 +1080,7 @@ class AugCCS : public CcsType,
   inline iparray_type &      row_start() { return _base::_node_start; }
   inline const iparray_type &row_start() const { return _base::_node_start; }
   inline iparray_type &      row_end() { return _base::_node_end; }
-  inline const iparray_type *row_end() const { return _base::_node_end; }
+  inline const iparray_type &row_end() const { return _base::_node_end; }
   inline iparray_type &      row_next() { return _base::_node_next; }
   inline const iparray_type &row_next() const { return _base::_node_next; }
   inline iarray_type &       row_counts() { return _base::_node_counts; }
-- 
2.43.0


From 27b9203137928f3370a6dc17b41cd349137d1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 38/77] fix: arrays copying external data claimed their size
 after a failed allocation

---
 src/hif/ds/Array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 302c68d..0d86165 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -160,10 +160,10 @@ class Array {
       if (!_data) {
         _size = _cap = 0u;
         _status      = DATA_UNDEF;
-      } else {
-        std::copy_n(data, n, _data);
-        _status = DATA_OWN;
+        return;
       }
+      std::copy_n(data, n, _data);
+      _status = DATA_OWN;
     } else {
       _data   = data;
       _status = DATA_WRAP;
-- 
2.43.0


From 4a30017f1027bea5cbede1532009ca8b75d53dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 39/77] fix: reading options from a stream skipped the pivoting
 flag

---
 src/hif/Options.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index ffb8550..39d477d 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -568,7 +568,7 @@ inline InStream &operator>>(InStream &in_str, hif::Options &opt) {
       opt.alpha_U >> opt.rho >> opt.c_d >> opt.c_h >> opt.N >> opt.verbose >>
       opt.rf_par >> opt.reorder >> opt.spd >> opt.check >> opt.pre_scale >>
       opt.symm_pre_lvls >> opt.threads >> opt.mumps_blr >> opt.fat_schur_1st >>
-      opt.rrqr_cond >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
+      opt.rrqr_cond >> opt.pivot >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
       opt.nzp_thres >> opt.dense_thres;
   return in_str;
 }
-- 
2.43.0


From 5e7d1bf93bf566b24d7196d4ff50ce773e2320b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 40/77] fix: verbose names hid the info level next to warnings
 and missed info2

---
 src/hif/Options.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index 39d477d..5f843f3 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -601,7 +601,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
     name = "none";
   else {
     if (hif_verbose(WARN, opt)) name = "warning";
-    else if (hif_verbose(INFO, opt)) name = "info";
+    if (hif_verbose(INFO, opt)) {
+      if (name != "")
+        name += ",info";
+      else
+        name = "info";
+    }
     if (hif_verbose(PRE, opt)) {
       if (name != "")
         name += ",pre";
@@ -626,6 +631,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
       else
         name = "mem";
     }
+    if (hif_verbose(INFO2, opt)) {
+      if (name != "")
+        name += ",info2";
+      else
+        name = "info2";
+    }
   }
   return name;
 }
-- 
2.43.0


From b1feec374172045dd3bb2dcb8d77a6e344295a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 41/77] fix: documented default options differed from the
 actual ones

---
 src/hif/Options.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index 5f843f3..35c458c 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -80,8 +80,8 @@ enum {
  * \note Values in parentheses are default settings
  */
 struct hif_Options {
-  double tau_L;      /*!< inverse-based droptol for L (0.001) */
-  double tau_U;      /*!< inverse-based droptol for U (0.001) */
+  double tau_L;      /*!< inverse-based droptol for L (0.0001) */
+  double tau_U;      /*!< inverse-based droptol for U (0.0001) */
   double kappa_d;    /*!< threshold for inverse-diagonal (3.) */
   double kappa;      /*!< inverse-norm threshold (3.) */
   double alpha_L;    /*!< growth factor of nnz per col (10) */
@@ -90,7 +90,7 @@ struct hif_Options {
   double c_d;        /*!< size parameter for dense LU (10.0) */
   double c_h;        /*!< size parameter for H-version (2.0) */
   int    N;          /*!< reference size of matrix (-1, system size) */
-  int    verbose;    /*!< message output level (1, i.e. info) */
+  int    verbose;    /*!< message output level (1, i.e. warning) */
   int    rf_par;     /*!< parameter refinement (default 1) */
   int    reorder;    /*!< reordering method (default is 2 (AMD)) */
   int    spd;        /*!< SPD-ness: 0 (ID), >0 (PD), <0 (ND), (default 0) */
@@ -103,7 +103,7 @@ struct hif_Options {
                         automatically determine symmetric preprocessing via
                         pattern symmetry (default -2) */
   int    threads;    /*!< user specified threads (default 0) */
-  int    mumps_blr;  /*!< MUMPS BLR options (default 2) *deprecated* */
+  int    mumps_blr;  /*!< MUMPS BLR options (default 1) *deprecated* */
   int    fat_schur_1st; /*!< double alpha for dropping L_E and U_F on 1st lvl */
   double rrqr_cond;     /*!< condition number threshold for RRQR (default 0) */
   int    pivot;         /*!< pivoting flag (default is AUTO (2)) */
-- 
2.43.0


From 9dec263b204a4a047748584ac34d572b0beda66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 42/77] fix: verbose levels of the C interface named other
 levels of the library

---
 libhifir/include/libhifir.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libhifir/include/libhifir.h b/libhifir/include/libhifir.h
index c75ddde..51a2c57 100644
--- a/libhifir/include/libhifir.h
+++ b/libhifir/include/libhifir.h
@@ -119,11 +119,13 @@ enum {
 // verbose levels
 enum {
   LHF_VERBOSE_NULL     = 0,
-  LHF_VERBOSE_INFO     = 1,
-  LHF_VERBOSE_PRE      = 2,
-  LHF_VERBOSE_FAC      = 4,
-  LHF_VERBOSE_PRE_TIME = 8,
-  LHF_VERBOSE_MEM      = 16,
+  LHF_VERBOSE_WARN     = 1,
+  LHF_VERBOSE_INFO     = 2,
+  LHF_VERBOSE_PRE      = 4,
+  LHF_VERBOSE_FAC      = 8,
+  LHF_VERBOSE_PRE_TIME = 16,
+  LHF_VERBOSE_MEM      = 32,
+  LHF_VERBOSE_INFO2    = 64,
 };
 
 // reordering options
-- 
2.43.0


From bea14ccb380a6be06995a66dddd6b1b8c8a7dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 43/77] fix: long header tokens of matrix files overflowed the
 token buffers

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..58b84f2 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -628,7 +628,7 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
 
   // read the first line
   if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
-- 
2.43.0


From 416835c1825ba3dcb6fafe31c35fcc89a93ea0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 44/77] fix: empty matrix files were not closed

---
 src/hif/utils/io.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 58b84f2..e1e4752 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -627,7 +627,10 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   char storage_scheme[65];
 
   // read the first line
-  if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
+  if (!std::fgets(line, 1025, f)) {
+    std::fclose(f);
+    hif_error("unable to read the first line");
+  }
   if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
-- 
2.43.0


From 610733870c6ed15ef8a836c340d982d9b3e761b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 45/77] fix: symmetric matrix files with only diagonal entries
 were read with undefined trailing entries

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index e1e4752..7c54146 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -591,7 +591,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
       vals[index] = -vals[index - 1];
     ++index;
   }
-  if (index != nnz) {
+  if (index != rows.size()) {
     rows.resize(index);
     cols.resize(index);
     vals.resize(index);
-- 
2.43.0


From 389d858009cee1bd4526b17c4eefbd56acdfff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 46/77] fix: matrix files with malformed or negative sizes were
 read forever or with wrong sizes

---
 src/hif/utils/io.hpp | 44 +++++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 7c54146..ee9c206 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -687,6 +687,12 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   }
 }
 
+/// \brief Internal routine to check for lines without any content
+inline bool mm_is_blank(const char *line) {
+  while (std::isspace(static_cast<unsigned char>(*line))) ++line;
+  return *line == '\0';
+}
+
 /// \brief Internal routine to read sizes
 inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
                                 std::size_t &ncols, std::size_t &nnz) {
@@ -700,24 +706,14 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
       std::fclose(f);
       hif_error("unable to read file");
     }
-  } while (line[0] == '%');
+  } while (line[0] == '%' || mm_is_blank(line));
 
   int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
-    nrows = m;
-    ncols = n;
-    nnz   = nz;
-    return;
+  if (std::sscanf(line, "%d %d %d", &m, &n, &nz) != 3 || m < 0 || n < 0 ||
+      nz < 0) {
+    std::fclose(f);
+    hif_error("invalid sizes");
   }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 3);
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -735,23 +731,13 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
       std::fclose(f);
       hif_error("unable to read file");
     }
-  } while (line[0] == '%');
+  } while (line[0] == '%' || mm_is_blank(line));
 
   int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
-    nrows = m;
-    ncols = n;
-    return;
+  if (std::sscanf(line, "%d %d", &m, &n) != 2 || m < 0 || n < 0) {
+    std::fclose(f);
+    hif_error("invalid sizes");
   }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 2);
   nrows = m;
   ncols = n;
 }
-- 
2.43.0


From 58b8c20d96f930b0be8aa6e94f71f6d44664727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 47/77] fix: out of bounds entries of matrix files were read
 and written out of bounds later

---
 src/hif/utils/io.hpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index ee9c206..fdfd169 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -544,7 +544,8 @@ set_imag(const double i, V &x) {
 
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
-inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
+inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
+                                const std::size_t ncols, const std::size_t nnz,
                                 Array<IndexType> &rows, Array<IndexType> &cols,
                                 Array<ValueType> &vals) {
   // type IDs
@@ -574,12 +575,19 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
       std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
     }
+    // NOTE the mirrored entry must be in the matrix as well
+    const bool mirror = TypeID != GENERAL && r != c;
+    if (r < 1 || c < 1 || std::size_t(r) > nrows || std::size_t(c) > ncols ||
+        (mirror && (std::size_t(c) > nrows || std::size_t(r) > ncols))) {
+      std::fclose(f);
+      hif_error("entry (%d,%d) is out of bounds", r, c);
+    }
     rows[index] = r - 1;  // to 0-based index
     cols[index] = c - 1;  // to 0-based index
     set_real(vr, vals[index]);
     set_imag(vi, vals[index]);
     ++index;
-    if (TypeID == GENERAL || r == c) continue;
+    if (!mirror) continue;
     // not general and not along the diagonal
     rows[index] = c - 1;  // to 0-based index
     cols[index] = r - 1;  // to 0-based index
@@ -792,22 +800,30 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
   // read data
   if (is_real) {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, true>(f, nrows, ncols, nnz, rows, cols,
+                                             vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, true>(f, nrows, ncols, nnz, rows, cols,
+                                             vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, true>(f, nrows, ncols, nnz, rows, cols,
+                                             vals);
     else
-      internal::mm_read_sparse_data<3, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, true>(f, nrows, ncols, nnz, rows, cols,
+                                             vals);
   } else {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, false>(f, nrows, ncols, nnz, rows, cols,
+                                              vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, false>(f, nrows, ncols, nnz, rows, cols,
+                                              vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, false>(f, nrows, ncols, nnz, rows, cols,
+                                              vals);
     else
-      internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, false>(f, nrows, ncols, nnz, rows, cols,
+                                              vals);
   }
   std::fclose(f);
 }
-- 
2.43.0


From 015eea60bd1f378d1aebfa2e6d2ba3ed3aa303cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 48/77] fix: failed allocations were not checked when reading
 matrix files

---
 src/hif/utils/io.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index fdfd169..5d1d0a2 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -564,6 +564,11 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
     cols.resize(nnz);
     vals.resize(nnz);
   }
+  if (nnz && (rows.status() == DATA_UNDEF || cols.status() == DATA_UNDEF ||
+              vals.status() == DATA_UNDEF)) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
 
   std::size_t index(0);
   int         r, c;
@@ -611,6 +616,10 @@ template <bool IsReal, class ValueType>
 inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
                                 Array<ValueType> &v) {
   v.resize(n);
+  if (n && v.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
   double vr, vi;
   for (std::size_t i(0); i < n; ++i) {
     const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
-- 
2.43.0


From ff8c78eded1a3d191fa632e4a20a73db0879de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 49/77] fix: asking matrix handles without data for their
 number of entries dereferenced a null pointer

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..01cdacb 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -553,7 +554,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -773,7 +775,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -998,7 +1001,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From 4c029537f9a5e8519cbbc33fdad2c338648b9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 50/77] fix: failed allocations were not checked when creating
 single precision complex objects

---
 libhifir/src/libhifir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 01cdacb..08eba88 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1053,6 +1053,10 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
-- 
2.43.0


From 4717ad959eca3e741a0297fb189e68151217277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 51/77] fix: the requested rank was ignored by solves and
 products of the C interface

---
 libhifir/src/libhifir.cpp | 45 ++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 08eba88..60ce2d5 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,26 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool trans = false, const std::size_t r = 0u) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, r);
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool        trans = false,
+                             const std::size_t r     = 0u) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, r);
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -453,13 +454,13 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -674,13 +675,13 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -895,15 +896,15 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1122,15 +1123,15 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1205,13 +1206,13 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1255,15 +1256,15 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
-- 
2.43.0


From 7dd8ac11234cb9505da0bead165eced12343e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 52/77] fix: exceptions of malformed matrix files escaped from
 the C interface

---
 libhifir/src/libhifir.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 60ce2d5..6d5dfd9 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -276,16 +276,21 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   if (!f) return LHF_NULL_OBJ;
   bool is_sparse2, is_real2;
   int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
-  *is_sparse = is_sparse2;
-  *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+  // NOTE the file is closed by the following routines upon errors
+  try {
+    // parse the first line
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    *is_sparse = is_sparse2;
+    *is_real   = is_real2;
+    (void)type_id;  // not used
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
+    else {
+      *nnz = 0u;
+      hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+    }
+  } catch (const std::exception &e) {
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
   std::fclose(f);
   return LHF_SUCCESS;
-- 
2.43.0


From 8a22775c899832f687b548d955f7867e7e6d58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 53/77] fix: the queried number of entries of symmetric files
 was too small to read them

---
 libhifir/src/libhifir.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 6d5dfd9..1e134cc 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -125,6 +125,14 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   return LHF_SUCCESS;
 }
 
+// count the off-diagonal entries, which are mirrored in symmetric storage
+static inline std::size_t mm_count_mirrored(std::FILE *f, std::size_t nnz) {
+  std::size_t n(0);
+  for (int r, c; nnz && std::fscanf(f, "%d %d%*[^\n]", &r, &c) == 2; --nnz)
+    n += r != c;
+  return n;
+}
+
 // factorization implementation
 template <class PrecType, class MatHdlType>
 static inline void factorize(PrecType &M, const MatHdlType mat,
@@ -282,10 +290,11 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
     hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
     *is_sparse = is_sparse2;
     *is_real   = is_real2;
-    (void)type_id;  // not used
-    if (is_sparse2)
+    if (is_sparse2) {
       hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-    else {
+      // NOTE symmetric matrices are loaded as general ones
+      if (type_id) *nnz += libhifir_impl::mm_count_mirrored(f, *nnz);
+    } else {
       *nnz = 0u;
       hif::internal::mm_read_dense_size(f, *nrows, *ncols);
     }
-- 
2.43.0


From 12f615975bf075aff7230603b1f86b8dd1ca98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 54/77] fix: querying dense files gave another number of
 columns than documented

---
 libhifir/src/libhifir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 1e134cc..8b23fbc 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -297,6 +297,7 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
     } else {
       *nnz = 0u;
       hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+      *ncols = 0u;
     }
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
-- 
2.43.0


From 6a67c186e65ba309d3fe4a10c186177c463c88e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 55/77] fix: the functions for turning warnings on and off were
 declared but not defined

---
 libhifir/src/libhifir.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 8b23fbc..2f1720d 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -52,6 +52,9 @@ namespace libhifir_impl {
 // handle internal C++ HIFIR errors
 static std::string error_msgs[2];
 
+// flag for reporting warnings
+static bool warn_enabled = true;
+
 // get factorization result statistics
 template <class PrecType>
 static inline void get_factor_stats(const PrecType &M, std::size_t stats[]) {
@@ -137,19 +140,13 @@ static inline std::size_t mm_count_mirrored(std::FILE *f, std::size_t nnz) {
 template <class PrecType, class MatHdlType>
 static inline void factorize(PrecType &M, const MatHdlType mat,
                              const double params[]) {
-  if (!params) {
-    if (mat->is_rowmajor)
-      M.template factorize<true>(mat->n, mat->indptr, mat->indices, mat->vals);
-    else
-      M.template factorize<false>(mat->n, mat->indptr, mat->indices, mat->vals);
-  } else {
-    if (mat->is_rowmajor)
-      M.template factorize<true>(mat->n, mat->indptr, mat->indices, mat->vals,
-                                 create_params(params));
-    else
-      M.template factorize<false>(mat->n, mat->indptr, mat->indices, mat->vals,
-                                  create_params(params));
-  }
+  hif::Params p = params ? create_params(params) : hif::get_default_params();
+  if (!warn_enabled) p.verbose &= ~hif::VERBOSE_WARN;
+  if (mat->is_rowmajor)
+    M.template factorize<true>(mat->n, mat->indptr, mat->indices, mat->vals, p);
+  else
+    M.template factorize<false>(mat->n, mat->indptr, mat->indices, mat->vals,
+                                p);
 }
 
 // solve implementation
@@ -229,6 +226,12 @@ void lhfGetVersions(int versions[]) {
   versions[2] = HIF_MINOR_VERSION;
 }
 
+// enable warnings
+void lhfEnableWarning(void) { libhifir_impl::warn_enabled = true; }
+
+// disable warnings
+void lhfDisableWarning(void) { libhifir_impl::warn_enabled = false; }
+
 // error message
 const char *lhfGetErrorMsg() {
   libhifir_impl::error_msgs[0] = libhifir_impl::error_msgs[1];
-- 
2.43.0


From 7b00a9184cfbec1077566c1a980fcb6d9f66d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 56/77] fix: sizes of objects before their first factorization
 were undefined

---
 src/hif/builder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index cd7d1f8..d4a6f99 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -597,9 +597,9 @@ class HIF {
   precs_type              _precs;  ///< multilevel preconditioners
   mutable work_array_type _prec_work;
   ///< preconditioner work space for solving
-  size_type                    _stats[6];  ///< statistics
-  size_type                    _nrows;     ///< number of rows from user input
-  size_type                    _ncols;  ///< number of columns from user input
+  size_type _stats[6] = {0, 0, 0, 0, 0, 0};  ///< statistics
+  size_type _nrows    = 0;  ///< number of rows from user input
+  size_type _ncols    = 0;  ///< number of columns from user input
   IterRefine<boost_value_type> _ir;     ///< high-precision iterative refinement
 };
 
-- 
2.43.0


From b17a3a0643e9ad4ec6e351cac7be752303bf6022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 57/77] fix: factorizing matrix handles without data
 dereferenced a null pointer

---
 libhifir/src/libhifir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 2f1720d..962afe2 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -140,6 +140,7 @@ static inline std::size_t mm_count_mirrored(std::FILE *f, std::size_t nnz) {
 template <class PrecType, class MatHdlType>
 static inline void factorize(PrecType &M, const MatHdlType mat,
                              const double params[]) {
+  hif_error_if(!mat->indptr, "cannot factorize a matrix handle without data");
   hif::Params p = params ? create_params(params) : hif::get_default_params();
   if (!warn_enabled) p.verbose &= ~hif::VERBOSE_WARN;
   if (mat->is_rowmajor)
-- 
2.43.0


From bd852d733b15112212e528df6a5eedb864f12919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 58/77] fix: sizes and indices of matrix files beyond 32 bits
 wrapped around

---
 src/hif/utils/io.hpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 5d1d0a2..b8db86f 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -48,6 +48,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <cstdint>
 #include <cstdio>
 #include <fstream>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -571,11 +572,12 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
   }
 
   std::size_t index(0);
-  int         r, c;
-  double      vr, vi;
+  long long   r, c;
+  double      vr, vi(0);
   for (std::size_t i(0); i < nnz; ++i) {
-    const int flag = IsReal ? std::fscanf(f, "%d %d %lg", &r, &c, &vr)
-                            : std::fscanf(f, "%d %d %lg %lg", &r, &c, &vr, &vi);
+    const int flag =
+        IsReal ? std::fscanf(f, "%lld %lld %lg", &r, &c, &vr)
+               : std::fscanf(f, "%lld %lld %lg %lg", &r, &c, &vr, &vi);
     if (flag != 4 - IsReal) {
       std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
@@ -585,7 +587,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
     if (r < 1 || c < 1 || std::size_t(r) > nrows || std::size_t(c) > ncols ||
         (mirror && (std::size_t(c) > nrows || std::size_t(r) > ncols))) {
       std::fclose(f);
-      hif_error("entry (%d,%d) is out of bounds", r, c);
+      hif_error("entry (%lld,%lld) is out of bounds", r, c);
     }
     rows[index] = r - 1;  // to 0-based index
     cols[index] = c - 1;  // to 0-based index
@@ -725,9 +727,12 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
     }
   } while (line[0] == '%' || mm_is_blank(line));
 
-  int m, n, nz;
-  if (std::sscanf(line, "%d %d %d", &m, &n, &nz) != 3 || m < 0 || n < 0 ||
-      nz < 0) {
+  static constexpr long long MAX_SIZE = std::numeric_limits<int>::max();
+
+  // NOTE conversions wrap around for values beyond the scanned type
+  long long m, n, nz;
+  if (std::sscanf(line, "%lld %lld %lld", &m, &n, &nz) != 3 || m < 0 || n < 0 ||
+      nz < 0 || m > MAX_SIZE || n > MAX_SIZE || nz > MAX_SIZE) {
     std::fclose(f);
     hif_error("invalid sizes");
   }
@@ -750,8 +755,12 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
     }
   } while (line[0] == '%' || mm_is_blank(line));
 
-  int m, n;
-  if (std::sscanf(line, "%d %d", &m, &n) != 2 || m < 0 || n < 0) {
+  static constexpr long long MAX_SIZE = std::numeric_limits<int>::max();
+
+  // NOTE conversions wrap around for values beyond the scanned type
+  long long m, n;
+  if (std::sscanf(line, "%lld %lld", &m, &n) != 2 || m < 0 || n < 0 ||
+      m > MAX_SIZE || n > MAX_SIZE) {
     std::fclose(f);
     hif_error("invalid sizes");
   }
-- 
2.43.0


From dcdf515229ce8c3bd890cd5e68e428e11317dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 59/77] fix: failures of writing matrix files were not reported

---
 src/hif/utils/io.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index b8db86f..38ab142 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -908,6 +908,7 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
     f << '\n';
   }
   f.close();
+  hif_error_if(!f, "failed to write file %s", filename);
 }
 
 /// \brief Write a sparse matrix
@@ -961,6 +962,7 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
     }
   }
   f.close();
+  hif_error_if(!f, "failed to write file %s", filename);
 }
 
 /*!
-- 
2.43.0


From b76292534fbabdea343d47b5d8752c9405aed1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 60/77] fix: matrix files were read into matrix handles without
 data

---
 libhifir/src/libhifir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 962afe2..5219f6a 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -100,6 +100,7 @@ static inline hif::Params create_params(const double params[]) {
 template <class ValueType, class MatHdlType>
 static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   _LHF_CANNOT_ACCEPT_NULL(mat);
+  _LHF_CANNOT_ACCEPT_NULL(mat->indptr);
   if (mat->is_rowmajor) {
     using matrix_t = hif::CRS<ValueType, LhfInt, LhfIndPtr>;
     matrix_t A;
-- 
2.43.0


From 44673187945495772cb80048b5c6beaec459a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 61/77] fix: values of repeated entries of coordinate lists
 were lost

---
 src/hif/utils/coo2compress.hpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index e439387..5ab7941 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -30,6 +30,8 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _HIF_UTILS_COO2COMPRESS_HPP
 
 #include <algorithm>
+#include <utility>
+#include <vector>
 
 #include "hif/ds/Array.hpp"
 
@@ -93,22 +95,29 @@ inline void convert_coo2cs(const std::size_t       primary_size,
   ind_start[0] = 0u;
 
   // sort locally
-  Array<ValueType> vbuf;
+  using entry_type = std::pair<IndexType, ValueType>;
+  std::vector<entry_type> buf;
+  (void)secondary_size;
   for (size_type i(0); i < primary_size; ++i)
     if (!std::is_sorted(indices.cbegin() + ind_start[i],
                         indices.cbegin() + ind_start[i + 1])) {
-      // not sorted
-      vbuf.resize(secondary_size);
-      hif_error_if(vbuf.status() == DATA_UNDEF, "memory allocation failed");
-      // backup values
+      // not sorted, backup the entries
+      // NOTE an index can appear several times, each with its own value
+      buf.clear();
       for (size_type k = ind_start[i]; k < (size_type)ind_start[i + 1]; ++k)
-        vbuf[indices[k]] = vals[k];
+        buf.emplace_back(indices[k], vals[k]);
       // sort
-      std::sort(indices.begin() + ind_start[i],
-                indices.begin() + ind_start[i + 1]);
+      std::stable_sort(buf.begin(), buf.end(),
+                       [](const entry_type &l, const entry_type &r) {
+                         return l.first < r.first;
+                       });
       // copy back
-      for (size_type k = ind_start[i]; k < (size_type)ind_start[i + 1]; ++k)
-        vals[k] = vbuf[indices[k]];
+      size_type k = ind_start[i];
+      for (const auto &entry : buf) {
+        indices[k] = entry.first;
+        vals[k]    = entry.second;
+        ++k;
+      }
     }
 }
 
-- 
2.43.0


From a0a1678c7fd6f32058cfb289e3f9a431108f4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 62/77] fix: arrays released their data twice after failed
 allocations

---
 src/hif/ds/Array.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 0d86165..43e4772 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -355,7 +355,11 @@ class Array {
     if (!data) {
       // call destructor
       this->~Array();
+      // NOTE compilers may drop the stores at the end of destructors
       _counts = new _RefCount();
+      _data   = nullptr;
+      _size = _cap = 0;
+      _status      = DATA_UNDEF;
       return;
     }
     if (presv) std::copy_n(_data, _size, data);
@@ -381,7 +385,11 @@ class Array {
     if (!data) {
       // call destructor
       this->~Array();
+      // NOTE compilers may drop the stores at the end of destructors
       _counts = new _RefCount();
+      _data   = nullptr;
+      _size = _cap = 0;
+      _status      = DATA_UNDEF;
       return;
     }
     std::copy_n(_data, _size, data);
-- 
2.43.0


From 11223924e5419eec8a99a3b0e0676b4dbe278820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 63/77] fix: symmetric files with several entries per line were
 counted wrongly

---
 libhifir/src/libhifir.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 5219f6a..cb4153a 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -130,9 +130,14 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
 }
 
 // count the off-diagonal entries, which are mirrored in symmetric storage
-static inline std::size_t mm_count_mirrored(std::FILE *f, std::size_t nnz) {
+static inline std::size_t mm_count_mirrored(std::FILE *f, const bool is_real,
+                                            std::size_t nnz) {
+  // NOTE entries can be separated by any spaces, just as they are read
+  const char *fmt = is_real ? "%lld %lld %lg" : "%lld %lld %lg %lg";
   std::size_t n(0);
-  for (int r, c; nnz && std::fscanf(f, "%d %d%*[^\n]", &r, &c) == 2; --nnz)
+  long long   r, c;
+  double      vr, vi;
+  for (; nnz && std::fscanf(f, fmt, &r, &c, &vr, &vi) == 4 - is_real; --nnz)
     n += r != c;
   return n;
 }
@@ -298,7 +303,7 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
     if (is_sparse2) {
       hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
       // NOTE symmetric matrices are loaded as general ones
-      if (type_id) *nnz += libhifir_impl::mm_count_mirrored(f, *nnz);
+      if (type_id) *nnz += libhifir_impl::mm_count_mirrored(f, is_real2, *nnz);
     } else {
       *nnz = 0u;
       hif::internal::mm_read_dense_size(f, *nrows, *ncols);
-- 
2.43.0


From aeb24b8173e382556f5c040add2c61b55b0b6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 64/77] fix: decreasing index positions passed the validity
 check and were used as ranges

---
 src/hif/ds/CompressedStorage.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 532a8c3..344c8ad 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -204,6 +204,11 @@ class CompressedStorage {
             "inconsistent between nnz (%s_start(end)-%s_start(first),%zd) and "
             "indices/values length %zd/%zd",
             pname, pname, nnz(), _indices.size(), _vals.size());
+      // check positions, which must be in order before being used as ranges
+      for (size_type i = 0u; i < _psize; ++i)
+        hif_error_if(_ind_start[i] > _ind_start[i + 1],
+                     "decreasing %s start at %s %zd (C-based)", pname, pname,
+                     i);
       // check each entry
       for (size_type i = 0u; i < _psize; ++i) {
         hif_error_if(!std::is_sorted(_ind_cbegin(i), _ind_cend(i),
-- 
2.43.0


From 28a550b8c92fff814d6edd6b2daa5e5d8dc57e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 65/77] fix: missing values passed the validity check and
 further values were copied out of bounds

---
 src/hif/builder.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index d4a6f99..95d25d7 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -339,14 +339,16 @@ class HIF {
     }
     // check value type consistency
     if (std::is_same<value_type, typename CsType::value_type>::value)
-      AA.vals() = array_type(A.nnz(), (value_type *)A.vals().data(), true);
+      AA.vals() = array_type(A.vals().size(), (value_type *)A.vals().data(),
+                             true);
     else {
       if (hif_verbose(INFO, params))
         hif_info("converting value type precision...");
       // shallow integer arrays
       AA.resize(A.nrows(), A.ncols());
-      AA.vals().resize(A.nnz());
-      hif_error_if(A.nnz() && AA.vals().status() == DATA_UNDEF,
+      // NOTE the numbers of values and indices are compared below
+      AA.vals().resize(A.vals().size());
+      hif_error_if(A.vals().size() && AA.vals().status() == DATA_UNDEF,
                    "memory allocation failed");
       std::copy(A.vals().cbegin(), A.vals().cend(), AA.vals().begin());
     }
-- 
2.43.0


From 0564f06acc8355b0e77cf933edb965a477576ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 66/77] fix: refinements with empty preconditioners were not
 always reported

---
 src/hif/builder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 95d25d7..d79aa6c 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -479,6 +479,7 @@ class HIF {
   inline void hifir(const Matrix &A, const RhsType &b, const size_type N,
                     SolType &x, const bool trans = false,
                     const size_type r = static_cast<size_type>(-1)) const {
+    hif_error_if(empty(), "MILU-Prec is empty!");
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
     _ir.iter_refine(*this, A, b, N, x, r, trans);
@@ -503,6 +504,7 @@ class HIF {
       const Matrix &A, const RhsType &b, const size_type N, const double *betas,
       SolType &x, const bool trans = false,
       const size_type r = static_cast<size_type>(-1)) const {
+    hif_error_if(empty(), "MILU-Prec is empty!");
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
     return _ir.iter_refine(*this, A, b, N, betas, x, r, trans);
-- 
2.43.0


From 096ad965a305af7285865f196ef4a66213e81b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:11 +0000
Subject: [PATCH 67/77] fix: missing index positions were read before the
 validity check

---
 src/hif/builder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index d79aa6c..757c6c4 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -309,6 +309,10 @@ class HIF {
 
     cs_type AA;
     AA.resize(A.nrows(), A.ncols());
+    // NOTE the first position is read below, i.e., before the validity check
+    hif_error_if((A.nrows() || A.ncols()) &&
+                     A.ind_start().size() <= A.primary_size(),
+                 "invalid ind_start, size should be that of primary plus 1");
     // check index base
     if (A.nrows()) {
       if (A.ind_start()[0] == indptr_type(0)) {
-- 
2.43.0


From 03a3bd4e591c0de95714176e6b8a318be3a778fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 68/77] fix: missing arrays disabled the validity check

---
 src/hif/ds/CompressedStorage.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 344c8ad..8bc5303 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -194,16 +194,18 @@ class CompressedStorage {
     static const char *pname = IsRow ? "row" : "column";
     static const char *oname = IsRow ? "column" : "row";
 
-    if (status() != DATA_UNDEF) {
+    // NOTE the status is undefined if any of the arrays is missing
+    if (_psize || _ind_start.size()) {
       hif_error_if(_ind_start.size() < _psize + 1,
                    "invalid %s size and %s start array length", pname, pname);
       hif_error_if(_ind_start.front() != 0,
                    "the leading entry in %s start should be zero", pname);
-      if (nnz() > _indices.size() || nnz() > _vals.size())
+      const size_type nz = _ind_start.back() - _ind_start.front();
+      if (nz > _indices.size() || nz > _vals.size())
         hif_error(
             "inconsistent between nnz (%s_start(end)-%s_start(first),%zd) and "
             "indices/values length %zd/%zd",
-            pname, pname, nnz(), _indices.size(), _vals.size());
+            pname, pname, nz, _indices.size(), _vals.size());
       // check positions, which must be in order before being used as ranges
       for (size_type i = 0u; i < _psize; ++i)
         hif_error_if(_ind_start[i] > _ind_start[i + 1],
-- 
2.43.0


From 650086736ce3b4847fd94808a1aff727562c56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:52 +0000
Subject: [PATCH 69/77] fix: largest singular values were estimated by the
 first diagonal in rank-revealing QR

---
 src/hif/small_scale/QRCP.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index d6bb8cb..31ea4ca 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -346,7 +346,10 @@ class QRCP {
     scalar_type smax(abs(_mat(0, 0))), smin(smax);  // initial singular values
     value_type  s1, c1, s2, c2;                     // needed in ?laic1
     scalar_type sminpr, smaxpr;
-    for (_rank = 0u; _rank < n; ++_rank) {
+    // NOTE the estimates of the first column are exact
+    _rank = 0u;
+    if (!(smax <= smin * cond_tol)) return;
+    for (_rank = 1u; _rank < n; ++_rank) {
       // esimate smaller
       lapack_kernel::laic1(JOB_MIN, _rank, x, smin, &_mat(0, _rank),
                            _mat(_rank, _rank), sminpr, s1, c1);
-- 
2.43.0


From 78efd79500035d9869258e42cb347e8bd8962f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:22 +0000
Subject: [PATCH 70/77] fix: pruning tiny values read beyond the arrays of
 one-based matrices

---
 src/hif/ds/CompressedStorage.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 8bc5303..5dd7b16 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -679,21 +679,23 @@ class CompressedStorage {
       size_type       j(0);
       auto            v_itr_first = _vals.cbegin();
       auto            i_itr_first = _indices.cbegin();
-      size_type       pos(0);
+      // NOTE positions may start from 1, if so do the indices
+      const size_type base(_ind_start[0]);
+      size_type       pos(base);
       // work space for determine thresholds for the orthogonal direction, i.e.,
       // column for CRS and row for CCS. n+1 to potentially handle 1-based
       // index since this maybe called by the user directly, and the user
       // may use 1-based index.
       Array<scalar_type> buf(n + 1);
-      std::fill_n(buf.begin(), n, scalar_type(0));
+      std::fill_n(buf.begin(), n + 1, scalar_type(0));
       // determine the thresholds for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
         buf[_indices[i]] = std::max(buf[_indices[i]], std::abs(_vals[i]));
-      for (size_type i(0); i < n; ++i) buf[i] *= eps;
+      for (size_type i(0); i <= n; ++i) buf[i] *= eps;
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
-        auto            v_itr = v_itr_first + pos;
-        auto            i_itr = i_itr_first + pos;
+        auto            v_itr = v_itr_first + (pos - base);
+        auto            i_itr = i_itr_first + (pos - base);
         const auto      lnnz  = _ind_start[i + 1] - pos;
         if (lnnz) {
           auto              last = v_itr + lnnz;
-- 
2.43.0


From a282346950f6b88991ff9bedfb42743d68b99eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:03 +0000
Subject: [PATCH 71/77] fix: work space of solves with several right-hand sides
 was wrapped too short in deep hierarchies

---
 src/hif/alg/prec_solve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index cd19d6c..ceb8eef 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -483,8 +483,8 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
     }
   } else {
     auto y_mn = interface_array_type(nm, y.data() + m, WRAP);
-    // advance to next buffer region
-    auto work_next = work_array_type(nm, &work[n], WRAP);
+    // advance to next buffer region, which is shared by all remaining levels
+    auto work_next = work_array_type(work.size() - n, &work[n], WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
       for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
-- 
2.43.0


From 0d0a1d13d3265646ba15795487868d4cb5674764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:08 +0000
Subject: [PATCH 72/77] fix: products did not compile with LU as the dense
 solver (HIF_DENSE_MODE=0)

---
 src/hif/small_scale/LUP.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 5743baa..ddd8e9f 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -198,6 +198,26 @@ class LUP {
     std::copy(_y.cbegin(), _y.cend(), y.begin());
   }
 
+  /// \brief compute \f$\mathbf{x}=\mathbf{P}^{T}\mathbf{LUx}\f$ in place
+  /// \param[in,out] x input vector, output product
+  /// \param[in] tran (optional) tranpose flag
+  inline void multiply(Array<value_type> &x, const size_type /* rank */ = 0,
+                       const bool         tran = false) const {
+    _y.resize(x.size());
+    multiply(x, _y, size_type(0), tran);
+    std::copy(_y.cbegin(), _y.cend(), x.begin());
+  }
+
+  /// \brief wrapper if \a value_type is different from input's
+  template <class ArrayType>
+  inline void multiply(ArrayType &x, const size_type /* rank */ = 0,
+                       const bool tran = false) const {
+    _x.resize(x.size());
+    std::copy(x.cbegin(), x.cend(), _x.begin());
+    multiply(_x, size_type(0), tran);
+    std::copy(_x.cbegin(), _x.cend(), x.begin());
+  }
+
  protected:
   dense_type                _mat;         ///< matrix
   dense_type                _mat_backup;  ///< backup matrix
-- 
2.43.0


From e3e8b210f1b483b251b0e431208f58a472bb6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:13 +0000
Subject: [PATCH 73/77] fix: rows beyond the symmetric block mixed into L with
 HIF_DISABLE_SPACE_DROP

---
 src/hif/alg/factor.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 1fdf6fb..64d6e32 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -958,18 +958,17 @@ inline CsType level_factorize(
     apply_num_dropping(tau_L, std::abs(k_l) * kappa_d, l);
 
     if (IsSymm) {
-#ifndef HIF_DISABLE_SPACE_DROP
       // for symmetric cases, we need first find the leading block size
       auto info =
           find_sorted(ut.inds().cbegin(), ut.inds().cbegin() + ut.size(), m2);
+#ifndef HIF_DISABLE_SPACE_DROP
       apply_space_dropping(col_sizes[q[step]], alpha_L, l,
                            info.second - ut.inds().cbegin());
 
-      auto u_last = info.second;
-#else   // !HIF_DISABLE_SPACE_DROP
-      auto u_last = ut.inds().cbegin() + ut.size();
 #endif  // HIF_DISABLE_SPACE_DROP
 
+      auto u_last = info.second;
+
       l.sort_indices();
       Crout_info(
           "  l sizes (asymm parts) before/after dropping %zd/%zd, drops=%zd",
-- 
2.43.0


From 5c4e39aebb649f5a0e910b947276702dc46451f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:50 +0000
Subject: [PATCH 74/77] fix: transposed products of several vectors were
 rounded to the input's precision

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 5dd7b16..ed97181 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2231,7 +2231,7 @@ class CCS
                    size_type(*i_itr));
         const auto avc = conjugate(*v_itr);
         for (size_type k(0); k < Nrhs; ++k)
-          tmp[k] += x[*i_itr * Nrhs + k] * avc;
+          tmp[k] += static_cast<v_t>(x[*i_itr * Nrhs + k]) * avc;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
     }
-- 
2.43.0


From 8648e8d4b2c2376e22697362aa0781300edb3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 75/77] fix: verbose summaries of levels without a leading
 block read empty work arrays

---
 src/hif/alg/factor.hpp       | 10 +++++-----
 src/hif/alg/pivot_factor.hpp | 10 +++++-----
 src/hif/alg/symm_factor.hpp  |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 64d6e32..414367b 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -1083,27 +1083,27 @@ inline CsType level_factorize(
         (size_type)info_counter[1], (size_type)info_counter[5],
         (size_type)info_counter[3], (size_type)info_counter[6],
         (size_type)info_counter[4],
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::min_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::min_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(d.cbegin(), d.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index f005cb5..85c58ca 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -538,27 +538,27 @@ inline CsType pivot_level_factorize(
         (size_type)info_counter[8], (size_type)info_counter[9],
         (size_type)info_counter[10], (size_type)info_counter[11],
         (size_type)info_counter[12],
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::min_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::min_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(d.cbegin(), d.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index aeb9641..a5def54 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -478,17 +478,17 @@ inline CsType symm_level_factorize(
         step.defers(), m0, m, m0 - m, (size_type)info_counter[0],
         (size_type)info_counter[1], (size_type)info_counter[6],
         (size_type)info_counter[4],
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::min_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
                               })),
-        (double)std::abs(
+        !m ? 0.0 : (double)std::abs(
             *std::max_element(d.cbegin(), d.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-- 
2.43.0


From 74b923bf74acadba36b9dd22b8cc29d956b3a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 76/77] fix: the step counter object was passed as a variadic
 argument to the messages of the Crout loop

---
 src/hif/alg/factor.hpp       | 9 +++++----
 src/hif/alg/pivot_factor.hpp | 9 +++++----
 src/hif/alg/symm_factor.hpp  | 7 ++++---
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 414367b..dc459df 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -809,7 +809,8 @@ inline CsType level_factorize(
     const size_type defers_prev = step.defers();
     info_counter[0] += pvt;
 
-    Crout_info(" Crout step %zd, leading block size %zd", step, m);
+    Crout_info(" Crout step %zd, leading block size %zd",
+               (size_type)step, m);
 
     // compute kappa for u wrp deferred index
     step.update_kappa(U, U_list, U_start, kappa_ut);
@@ -917,7 +918,7 @@ inline CsType level_factorize(
 #endif
         step.scale_inv_diag(d, ut);
     hif_assert(!u_is_nonsingular, "u is singular at level %zd step %zd",
-               cur_level, step);
+               cur_level, (size_type)step);
 
     // update diagonals b4 dropping
     step.update_diag<IsSymm>(l, ut, m2, d);
@@ -929,7 +930,7 @@ inline CsType level_factorize(
 #endif
         step.scale_inv_diag(d, l);
     hif_assert(!l_is_nonsingular, "l is singular at level %zd step %zd",
-               cur_level, step);
+               cur_level, (size_type)step);
 
     //---------------
     // drop and sort
@@ -1001,7 +1002,7 @@ inline CsType level_factorize(
       else
         step.symm_update_lstart(L, m2, L_offsets);
     }
-    Crout_info(" Crout step %zd done!", step);
+    Crout_info(" Crout step %zd done!", (size_type)step);
   }  // for
 
   // compress permutation vectors
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 85c58ca..f94a246 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -281,7 +281,8 @@ inline CsType pivot_level_factorize(
     const size_type m_prev      = m;
     const size_type defers_prev = step.defers();
 
-    Crout_info(" Crout step %zd, leading block size %zd", step, m);
+    Crout_info(" Crout step %zd, leading block size %zd",
+               (size_type)step, m);
 
     //----------------------
     // thresholded pivoting
@@ -405,7 +406,7 @@ inline CsType pivot_level_factorize(
 #endif
         step.scale_inv_diag(d, ut);
     hif_assert(!u_is_nonsingular, "u is singular at level %zd step %zd",
-               cur_level, step);
+               cur_level, (size_type)step);
 
     // Diagonal is maintained in JIT fashion due to pivoting
     // step.update_diag<false>(l, ut, m2, d);
@@ -417,7 +418,7 @@ inline CsType pivot_level_factorize(
 #endif
         step.scale_inv_diag(d, l);
     hif_assert(!l_is_nonsingular, "l is singular at level %zd step %zd",
-               cur_level, step);
+               cur_level, (size_type)step);
 
     //---------------
     // drop and sort
@@ -459,7 +460,7 @@ inline CsType pivot_level_factorize(
     // update position
     step.update_compress(U, U_start);
     step.update_compress(L, L_start);
-    Crout_info(" Crout step %zd done!", step);
+    Crout_info(" Crout step %zd done!", (size_type)step);
   }  // for
 
   // compress permutation vectors
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index a5def54..d65fbdb 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -311,7 +311,8 @@ inline CsType symm_level_factorize(
     const size_type defers_prev = step.defers();
     info_counter[0] += pvt;
 
-    Crout_info(" Crout step %zd, leading block size %zd", step, m);
+    Crout_info(" Crout step %zd, leading block size %zd",
+               (size_type)step, m);
 
     // compute kappa for l wrt deferred index
     step.update_kappa(L, L_list, L_start, kappa_l);
@@ -394,7 +395,7 @@ inline CsType symm_level_factorize(
 #endif
         step.scale_inv_diag(d, l);
     hif_assert(!is_nonsingular, "l is singular at level %zd step %zd",
-               cur_level, step);
+               cur_level, (size_type)step);
 
     // update diagonals b4 dropping
     step.update_diag<true>(l, l, m2, d);
@@ -421,7 +422,7 @@ inline CsType symm_level_factorize(
 
     // update position
     step.update_compress(L, L_list, L_start);
-    Crout_info(" Crout step %zd done!", step);
+    Crout_info(" Crout step %zd done!", (size_type)step);
   }  // for
 
   // compress permutation vectors
-- 
2.43.0


From ef8a07212675d86615cdf98a94198c5effd6ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 77/77] fix: hif_warning_if printed its message whatever the
 condition

---
 src/hif/utils/log.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hif/utils/log.hpp b/src/hif/utils/log.hpp
index 1fdce93..0f826ea 100644
--- a/src/hif/utils/log.hpp
+++ b/src/hif/utils/log.hpp
@@ -163,6 +163,7 @@ inline void error(const char *prefix, const char *file, const char *func,
 /// \sa hif::warning
 /// \ingroup util
 #define hif_warning_if(__cond, __msgs...)                                     \
+  if (__cond)                                                                 \
   ::hif::warning("condition " #__cond " alerted", __HIF_FILE__, __HIF_FUNC__, \
                  __LINE__, __msgs);
 
-- 
2.43.0

