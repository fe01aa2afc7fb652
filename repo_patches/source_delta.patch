From 2f6699aa0532e6bab07a92ffa776518e74c78537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 01/30] fix: gaussian-spline entropy misses the maximum
 occupancy factor

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..2d264c2 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return mo * 0.25 *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return mo * 0.25 *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From 552a16247fc844b2a6a26bd3853bd4ea6faf0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 02/30] fix: dxdelta of Methfessel-Paxton and gaussian-spline
 smearing misses a factor x

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 2d264c2..bb27099 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -208,7 +208,7 @@ struct gaussian_spline : summed<gaussian_spline>
     if (x > 8 || x < -8) return 0;
 
     if (x <= 0) {
-      return -2 * mo * std::exp((sqrt2 - x) * x) * (sqrt2 - x);
+      return -2 * mo * std::exp((sqrt2 - x) * x) * x * (sqrt2 - x);
     } else {
       return -2 * mo * std::exp(-x * (sqrt2 + x)) * x * (sqrt2 + x);
     }
@@ -280,7 +280,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
     double sqrtpi = std::sqrt(constants::pi);
-    return mo * std::exp(-x * x) * (2 * x * x - 5) / sqrtpi;
+    return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
-- 
2.43.0


From 5e2c1522b79decacf682c29f335e88e87bbae4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 03/30] fix: gradient of eta evaluates the smeared delta at the
 wrong sign

---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From 824e8a2dd4d82b2d0fa47b43a0096ae45a14aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 04/30] fix: gradient of eta between degenerate bands is the
 limit value, not zero

---
 src/pseudo_hamiltonian/grad_eta.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 99bde17..9e5a9da 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -176,7 +176,9 @@ public:
             double ej = ek(j);
             double ei = ek(i);
             if (std::abs(ej - ei) < 1e-10) {
-              // zero contribution
+              // limit of (fn(j) - fn(i)) / (ej - ei) for degenerate band energies
+              double delta = smearing<smearing_t>::delta((mu - ei) / kT_loc, mo);
+              mgETA(i, j) += -delta / kT_loc * mHij(i, j);
             } else {
               double II = (fn(j) - fn(i)) / (ej - ei);
               mgETA(i, j) += II * mHij(i, j);
-- 
2.43.0


From bf44a24e7d16a6fbaba371a32a3016b9a3e8b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 05/30] fix: quadratic line search accepts NaN energies and
 non-finite step lengths

---
 src/linesearch/linesearch.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..a04619d 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -2,6 +2,7 @@
 
 #include "exceptions.hpp"
 #include "utils/logger.hpp"
+#include <cmath>
 #include <iomanip>
 #include <tuple>
 
@@ -121,6 +122,11 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
 
     t_min = -b / (2 * a);
 
+    // no quadratic model if the energy is not finite or if there is no curvature
+    if (!std::isfinite(F1) || !std::isfinite(t_min)) {
+      throw StepError();
+    }
+
     // check curvature, might need to increase trial point
     if (a < 0) {
       Logger::GetInstance() << "\t in line-search increase t_trial by *5 \n";
@@ -139,7 +145,7 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
                         << " q line prediction error: " << std::scientific << std::setprecision(8) << (F_pred - F_min)
                         << " dE: " << std::scientific << std::setprecision(8) << (F0 - F_min) << "\n";
 
-  if (F_min > F0) {
+  if (!(F_min <= F0)) {
     Logger::GetInstance() << std::setprecision(13)
                           << "\t quadratic line search failed:\n"
                           << "\t - F_min: " << F_min << "\n"
-- 
2.43.0


From 32c5974ebca0d8d4b6f94f35fd94bc575f3e8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 06/30] fix: failed line search leaves the host at a rejected
 trial point

---
 src/linesearch/linesearch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index a04619d..b883d40 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -79,6 +79,7 @@ line_search::bt_search(GEODESIC& G, FREE_ENERGY& FE, double F0, bool& force_rest
   // TODO: let logger print state
   Logger::GetInstance().flush();
   if (force_restart)  {
+    G(0);  // leave the host at the last accepted state
     throw DescentError();
   } else {
     force_restart = true;
-- 
2.43.0


From 85985fdcca1ee0ea2f606d3dc9d127c4f95d3860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 07/30] fix: returned residual contains the placeholder -1 of
 slope_eta

---
 src/nlcglib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..af57155 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -88,7 +88,7 @@ print_info(double free_energy,
   nlcg_info info;
   info.F = free_energy;
   info.S = entropy;
-  info.tolerance = slope_x + slope_eta;
+  info.tolerance = slope_x;
   info.iter = step;
 
   return info;
-- 
2.43.0


From e2d792f474c4aced45e9c2655772151757ba0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 08/30] fix: result record is uninitialised if no iteration is
 carried out

---
 src/nlcglib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index af57155..9604b0a 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -305,6 +305,12 @@ nlcg_us(EnergyBase& energy_base,
   double fr = slope;  // Fletcher-Reeves numerator
   bool force_restart{false};
 
+  // starting state, returned if there is nothing to iterate
+  info.F = free_energy.get_F();
+  info.S = free_energy.get_entropy();
+  info.tolerance = slope;
+  info.iter = 0;
+
   for (int cg_iter = 0; cg_iter < maxiter; ++cg_iter) {
     if (std::abs(slope) < tol) {
       info = print_info(free_energy.get_F(),
-- 
2.43.0


From cfdca7b5fab63e6ca20f9e61a238ec75f00209d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 09/30] fix: division by zero for a restart interval of zero

---
 src/nlcglib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 9604b0a..ee3f21c 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -228,6 +228,10 @@ nlcg_us(EnergyBase& energy_base,
   //                ~FE_UNDERFLOW);  // Enable all floating point exceptions but FE_INEXACT
   nlcg_info info;
 
+  if (restart < 1) {
+    throw std::runtime_error("restart must be > 0.");
+  }
+
   auto S = Overlap(overlap_base);
   auto P = USPreconditioner(us_precond_base);
 
-- 
2.43.0


From e5fc07866b52815c5a46af11e58de2d37560a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 10/30] fix: negative temperature is not rejected

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index bb27099..645b516 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -558,7 +558,7 @@ public:
       , wk(wk)
       , smearing_t(smearing_t)
   {
-    if (T == 0) {
+    if (!(T > 0)) {
       throw std::runtime_error("Temperature must be > 0.");
     }
     kT = T * physical_constants::kb;
-- 
2.43.0


From c0bde014e12d8e5e10a516e8fe1744c0f62659dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 11/30] fix: outer product of rectangular matrices uses wrong
 dimensions

---
 src/la/lapack_cpu.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..b78b835 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -190,9 +190,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
 
   // single rank
   if (A.map().is_local() && B.map().is_local() && C.map().is_local()) {
-    int m = A.map().ncols();
-    int k = A.map().nrows();
-    int n = B.map().ncols();
+    int m = A.map().nrows();
+    int k = A.map().ncols();
+    int n = B.map().nrows();
     numeric_t* A_ptr = A.array().data();
     numeric_t* B_ptr = B.array().data();
     numeric_t* C_ptr = C.array().data();
-- 
2.43.0


From e4e93caff8065d19065763e48afa20b4ae0738cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 12/30] fix: add() with beta=0 reads the uninitialised
 destination

---
 src/la/cblas.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la/cblas.hpp b/src/la/cblas.hpp
index d62b714..0671510 100644
--- a/src/la/cblas.hpp
+++ b/src/la/cblas.hpp
@@ -382,7 +382,10 @@ struct geam<Kokkos::complex<double>> : blas_base
 #pragma omp parallel for
       for (int j = 0; j < N; ++j) {
         for (int i = 0; i < M; ++i) {
-          cC[i + ldc * j] = alpha_ * (cA[i + lda * j]) + beta_ * cB[i + ldb * j];
+          std::complex<double> value = alpha_ * (cA[i + lda * j]);
+          // B must not be referenced if beta is zero
+          if (beta_ != 0.0) value += beta_ * cB[i + ldb * j];
+          cC[i + ldc * j] = value;
         }
       }
     } else {
-- 
2.43.0


From 8fbbc5e797418d4c84761153333dc918bcc76e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 13/30] fix: solve_sym ignores failure of the Cholesky
 factorization

---
 src/la/lapack_cpu.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index b78b835..c209baf 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -75,11 +75,15 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
 
     char uplo = 'U';
     auto order = CBLAS_ORDER::CblasColMajor;
-    potrf_t::call(order, uplo, n, ptr_A, lda);
+    if (potrf_t::call(order, uplo, n, ptr_A, lda) != 0) {
+      throw std::runtime_error("solve_sym: Cholesky factorization failed");
+    }
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-    potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    if (potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb) != 0) {
+      throw std::runtime_error("solve_sym: potrs failed");
+    }
   } else {
     throw std::runtime_error("not implemented");
   }
-- 
2.43.0


From 97d9391a3ccf8d63b95bd81698644c9309bfe69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 14/30] fix: loewdin silently returns NaN for a singular or
 indefinite overlap

---
 src/la/lapack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index bf411c3..b0b22b1 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -365,6 +365,11 @@ template <class memspace>
 std::enable_if_t<Kokkos::SpaceAccessibility<Kokkos::Serial, memspace>::accessible>
 loewdin_aux(Kokkos::View<double*, memspace>& w)
 {
+  for (auto i = 0ul; i < w.size(); ++i) {
+    if (!(w(i) > 0)) {
+      throw std::runtime_error("loewdin: overlap matrix is not positive definite");
+    }
+  }
   Kokkos::parallel_for(
       "scale", Kokkos::RangePolicy<Kokkos::Serial>(0, w.size()), KOKKOS_LAMBDA(int i) {
         w(i) = 1.0 / sqrt(w(i));
-- 
2.43.0


From 6b59fcc8c9f7b3e0eec77bd4c3a21b0d3a81c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 15/30] fix: transform_alloc allocates the wrong number of
 columns

---
 src/la/lapack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index b0b22b1..4e7c4c8 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -439,7 +439,8 @@ transform_alloc(
     const identity_t<typename M1::numeric_t>& alpha = identity_t<typename M1::numeric_t>{1.0},
     const identity_t<typename M1::numeric_t>& beta = identity_t<typename M1::numeric_t>{0.})
 {
-  to_layout_left_t<M1> C(A.map());
+  Map<SlabLayoutV> map(A.map().comm(), SlabLayoutV({{0, 0, A.map().nrows(), B.map().ncols()}}));
+  to_layout_left_t<M1> C(map);
   transform(C, beta, alpha, A, B);
   return C;
 }
-- 
2.43.0


From 13ecf24c27ec549210ae9139fc660cc150c982f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 16/30] fix: MPI type of a pair ignores padding

---
 src/mpi/mpi_type.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 8fdf03d..a0009a1 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -84,16 +84,23 @@ struct mpi_type<std::pair<T1, T2>>
 {
   static MPI_Datatype type()
   {
-    MPI_Datatype result;
+    using pair_t = std::pair<T1, T2>;
+    MPI_Datatype packed, result;
     int array_of_block_lengths[2] = {1, 1};
-    MPI_Aint array_of_displacements[2] = {0, sizeof(T1)};
+    // take padding into account
+    pair_t p{};
+    MPI_Aint offset =
+        reinterpret_cast<const char*>(&p.second) - reinterpret_cast<const char*>(&p.first);
+    MPI_Aint array_of_displacements[2] = {0, offset};
     MPI_Datatype types[2] = {mpi_type<T1>::type(), mpi_type<T2>::type()};
     CALL_MPI(
         MPI_Type_create_struct, (2,
                                  array_of_block_lengths,
                                  array_of_displacements,
                                  types,
-                                 &result));
+                                 &packed));
+    CALL_MPI(MPI_Type_create_resized, (packed, 0, sizeof(pair_t), &result));
+    CALL_MPI(MPI_Type_free, (&packed));
     CALL_MPI(MPI_Type_commit, (&result));
     return result;
   }
-- 
2.43.0


From 3bd1bca9926a89093619fd63840af2ce5282a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 17/30] fix: stride of one-dimensional host buffers is ignored

---
 src/la/mvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index c34610a..777a05b 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -398,8 +398,8 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       throw std::runtime_error("recompile nlcglib with CUDA support");
 #endif
     } else if (buffer.memtype == memory_type::host) {
-      Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(buffer.data,
-                                                                            buffer.size[0]);
+      Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(
+          buffer.data, Kokkos::LayoutStride(buffer.size[0], buffer.stride[0]));
       vector_t dst("vector", buffer.size[0]);
       Kokkos::deep_copy(dst, src);
       auto kindex = vector_base->kpoint_index(i);
-- 
2.43.0


From cca1f280034ae2591b7221cf2f1fcbdbe7d9ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 18/30] fix: vectors of unknown memory type are silently
 dropped

---
 src/la/mvector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index 777a05b..829ac31 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -404,6 +404,9 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       Kokkos::deep_copy(dst, src);
       auto kindex = vector_base->kpoint_index(i);
       mvector[kindex] = dst;
+    } else {
+      throw std::runtime_error("expected host or device memory, but got " +
+                               memory_names.at(buffer.memtype));
     }
   }
   return mvector;
-- 
2.43.0


From fb830d7b1c6f1fb429e901f6d10bbb4fe844d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:41 +0000
Subject: [PATCH 19/30] fix: assignment of a map to an mvector lacks a return

---
 src/la/mvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index 829ac31..20c7f0f 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -98,6 +98,7 @@ public :
   mvector& operator=(std::map<key_t, T>&& data)
   {
     data_ = std::forward<std::map<key_t, T>>(data);
+    return *this;
   }
 
   template<typename Z>
-- 
2.43.0


From 1b7fa376716f2811c9cbd5724788d4794574f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:22 +0000
Subject: [PATCH 20/30] fix: pass a valid leading dimension to gemm for
 single-column operands

---
 src/la/lapack_cpu.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index c209baf..812ea8b 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -6,6 +6,7 @@
 #include <lapacke.h>
 #endif
 
+#include <algorithm>
 #include <type_traits>
 #include "la/cblas.hpp"
 #include "la/dvector.hpp"
@@ -135,9 +136,9 @@ inner(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
     if (A.array().stride(0) != 1 || B.array().stride(0) != 1 || C.array().stride(0) != 1) {
       throw std::runtime_error("expecting column major layout");
     }
-    int lda = A.array().stride(1);
-    int ldb = B.array().stride(1);
-    int ldc = C.array().stride(1);
+    int lda = std::max<int>(A.array().stride(1), A.array().extent(0));
+    int ldb = std::max<int>(B.array().stride(1), B.array().extent(0));
+    int ldc = std::max<int>(C.array().stride(1), C.array().extent(0));
 
     // single rank inner product
     cblas::gemm<numeric_t>::call(CblasColMajor,
@@ -204,9 +205,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
     if (A.array().stride(0) != 1 || B.array().stride(0) != 1 || C.array().stride(0) != 1) {
       throw std::runtime_error("expecting column major layout");
     }
-    int lda = A.array().stride(1);
-    int ldb = B.array().stride(1);
-    int ldc = C.array().stride(1);
+    int lda = std::max<int>(A.array().stride(1), A.array().extent(0));
+    int ldb = std::max<int>(B.array().stride(1), B.array().extent(0));
+    int ldc = std::max<int>(C.array().stride(1), C.array().extent(0));
 
     // single rank inner product
     cblas::gemm<numeric_t>::call(CblasColMajor,
@@ -273,9 +274,9 @@ transform(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
     if (A.array().stride(0) != 1 || B.array().stride(0) != 1 || C.array().stride(0) != 1) {
       throw std::runtime_error("expecting column major layout");
     }
-    int lda = A.array().stride(1);
-    int ldb = B.array().stride(1);
-    int ldc = C.array().stride(1);
+    int lda = std::max<int>(A.array().stride(1), A.array().extent(0));
+    int ldb = std::max<int>(B.array().stride(1), B.array().extent(0));
+    int ldc = std::max<int>(C.array().stride(1), C.array().extent(0));
 
     // single rank inner product
     cblas::gemm<numeric_t>::call(CblasColMajor,
-- 
2.43.0


From 10f88b59912db0f62a7e482f41b036c62539b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:51 +0000
Subject: [PATCH 21/30] fix: eigh reports matrices with infinite elements

---
 src/la/lapack_cpu.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index 812ea8b..8741851 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -7,6 +7,7 @@
 #endif
 
 #include <algorithm>
+#include <cmath>
 #include <type_traits>
 #include "la/cblas.hpp"
 #include "la/dvector.hpp"
@@ -47,6 +48,10 @@ eigh(KokkosDVector<T, LAYOUT, KOKKOS...>& U,
         w.data()                                                    /* eigenvalues */
     );
     if (info != 0) throw std::runtime_error("cblas zheevd failed");
+    // LAPACKE rejects NaN, but an infinite element yields non-finite eigenvalues and info == 0
+    for (int i = 0; i < n; ++i) {
+      if (!std::isfinite(w(i))) throw std::runtime_error("eigh: matrix is not finite");
+    }
   } else {
     throw std::runtime_error("not yet implemented");
   }
-- 
2.43.0


From e90b0f7d424011effd0663c75192b5f1bd304793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:14 +0000
Subject: [PATCH 22/30] fix: solve_sym reports matrices with infinite elements

---
 src/la/lapack_cpu.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index 8741851..f1742bd 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -84,6 +84,11 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
     if (potrf_t::call(order, uplo, n, ptr_A, lda) != 0) {
       throw std::runtime_error("solve_sym: Cholesky factorization failed");
     }
+    for (int i = 0; i < n; ++i) {
+      if (!std::isfinite(A.array()(i, i).real())) {
+        throw std::runtime_error("solve_sym: matrix is not finite");
+      }
+    }
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-- 
2.43.0


From 8237b092536548386758049c1cafa11c12cfcb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:11 +0000
Subject: [PATCH 23/30] fix: Methfessel-Paxton smearing gives NaN for huge
 arguments

---
 src/smearing.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 645b516..63dc626 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -273,12 +273,14 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double delta(double x, double mo)
   {
     double x2 = x * x;
+    if (x2 > 750) return 0;  // exp(-x2) underflows, avoid 0*inf
     double sqrtpi = std::sqrt(constants::pi);
     return mo * std::exp(-x2) * (1 + 0.25 * (2 - 4 * x2)) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
+    if (x * x > 750) return 0;  // exp(-x*x) underflows, avoid 0*inf
     double sqrtpi = std::sqrt(constants::pi);
     return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
@@ -286,6 +288,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
   {
     double x2 = x * x;
+    if (x2 > 750) return 0;  // exp(-x2) underflows, avoid 0*inf
     double sqrtpi = std::sqrt(constants::pi);
     return mo * std::exp(-x2) * (1 - 2 * x2) / 4 / sqrtpi;
   }
-- 
2.43.0


From 4c227c4eaf0957a5de4b540e93c562a296360a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 24/30] fix: write out the progress report nlcg.out before
 every return

The closing lines (errors included) and, without iterations, the whole
report stayed in the stream's buffer until the next run or the end of
the process.
---
 src/nlcglib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index ee3f21c..4b1b41e 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -442,12 +442,15 @@ nlcg_us(EnergyBase& energy_base,
     } catch (DescentError&) {
       // CG failed abort
       logger << "[NLCG] Error: No descent direction found, nlcg didn't reach final tolerance\n";
+      logger.flush();
       return info;
     } catch (SlopeError&) {
       logger << "[NLCG] Error: slope > 0 after CG-restart. Abort.\n";
+      logger.flush();
       return info;
     }
   }
+  logger.flush();
   return info;
 }
 
-- 
2.43.0


From 9fcd68f541bf2591a390c001699ae74a0cdb4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:49 +0000
Subject: [PATCH 25/30] fix: create the MPI datatype of a pair only once

Every gather of k-point indices created and committed a new datatype
that nobody freed, several per energy evaluation.
---
 src/mpi/mpi_type.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index a0009a1..b202f6a 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -82,7 +82,15 @@ struct mpi_type<int>
 template <class T1, class T2>
 struct mpi_type<std::pair<T1, T2>>
 {
+  /// the datatype is created (and committed) only once, the caller must not free it
   static MPI_Datatype type()
+  {
+    static MPI_Datatype type_ = create();
+    return type_;
+  }
+
+private:
+  static MPI_Datatype create()
   {
     using pair_t = std::pair<T1, T2>;
     MPI_Datatype packed, result;
-- 
2.43.0


From e25ead04fa639fc9c74ca2022ae70216ddd1e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:00 +0000
Subject: [PATCH 26/30] fix: iterating an operator reads past the end of its
 keys

The iterator looked up the key behind the last one when it was advanced to
the end, and the first key of an operator without any k-points.
---
 src/operator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operator.hpp b/src/operator.hpp
index e7807ff..fbbc922 100644
--- a/src/operator.hpp
+++ b/src/operator.hpp
@@ -21,7 +21,7 @@ public:
   {
     if (end) {
       pos = keys.size();
-    } else {
+    } else if (!keys.empty()) {
       key_t k = keys[0];
       pair = std::make_unique<value_t>(k, obj.at(k));
     }
@@ -30,7 +30,9 @@ public:
   op_iterator& operator++()
   {
     pos++;
-    pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    if (pos < static_cast<int>(keys.size())) {
+      pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    }
     return *this;
   }
 
-- 
2.43.0


From 9591434497c699912daf8141501205efbead70fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:00 +0000
Subject: [PATCH 27/30] fix: format() writes past its buffer

The buffer was as long as the format string, without room for the values or
the terminating zero.
---
 src/utils/format.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils/format.hpp b/src/utils/format.hpp
index b14e9d6..1d8ce42 100644
--- a/src/utils/format.hpp
+++ b/src/utils/format.hpp
@@ -2,16 +2,20 @@
 
 #include <iostream>
 #include <cstdio>
+#include <string>
 
 namespace nlcglib {
 
 template<class... ARGS>
 std::string format(std::string format_string, ARGS&&... args)
 {
-  char buf[format_string.size()];
-  std::sprintf(buf, format_string.c_str(), args...);
+  int n = std::snprintf(nullptr, 0, format_string.c_str(), args...);
+  if (n < 0) return std::string{};
+  std::string buf(n + 1, '\0');
+  std::snprintf(&buf[0], buf.size(), format_string.c_str(), args...);
+  buf.resize(n);
 
-  return std::string(buf);
+  return buf;
 }
 
 }  // nlcglib
-- 
2.43.0


From 68461baf4f700233000a69d7897b5b3f04ac3577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:34 +0000
Subject: [PATCH 28/30] fix: close the previous log file before opening it anew

Opening truncates the file; the stream that still had it open then wrote its
remaining text at its old position when it was destroyed.
---
 src/utils/logger.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 4f581d7..334d92d 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -27,6 +27,7 @@ public:
   void attach_file(const std::string& prefix = "out", const std::string& suffix = ".log")
   {
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
+    stream_ptr_.reset();  // close the previous file first, it may be the same one
     stream_ptr_ = std::make_shared<std::ofstream>(prefix + std::to_string(pid_) + suffix);
   }
 
@@ -34,8 +35,10 @@ public:
   void attach_file_master(const std::string& fname = "nlcg.out")
   {
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
-    if (pid_ == 0)
+    if (pid_ == 0) {
+      stream_ptr_.reset();  // close the previous file first, it may be the same one
       stream_ptr_ = std::make_shared<std::ofstream>(fname);
+    }
   }
 
   template <typename T>
-- 
2.43.0


From a242c4baf887bf17dc3845937b864ca1d092ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:08 +0000
Subject: [PATCH 29/30] fix: StepLogger writes to the file it was given

---
 src/utils/step_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/step_logger.hpp b/src/utils/step_logger.hpp
index daf99d0..e24cba5 100644
--- a/src/utils/step_logger.hpp
+++ b/src/utils/step_logger.hpp
@@ -45,7 +45,7 @@ public:
   ~StepLogger()
   {
     if(active) {
-      std::ofstream fout(std::string("nlcg") + ".json", std::ios_base::app);
+      std::ofstream fout(fname, std::ios_base::app);
       fout << dict;
       fout.flush();
     }
-- 
2.43.0


From b42ffbb89177f789a50471134f1bebf119b2deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:34 +0000
Subject: [PATCH 30/30] fix: StepLogger logs the elements of a strided array

---
 src/utils/step_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/step_logger.hpp b/src/utils/step_logger.hpp
index e24cba5..7e91823 100644
--- a/src/utils/step_logger.hpp
+++ b/src/utils/step_logger.hpp
@@ -84,7 +84,7 @@ StepLogger::log(const std::string& key, const mvector<V>& x)
     auto array = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), elem.second);
     std::vector<typename V::value_type> v(array.size());
     // std::vector<double> v(array.size());
-    std::copy(array.data(), array.data() + array.size(), v.data());
+    for (size_t j = 0; j < v.size(); ++j) v[j] = array(j);
     nlohmann::json entry;
     entry["ik"] = x_key.first;
     entry["ispn"] = x_key.second;
-- 
2.43.0

