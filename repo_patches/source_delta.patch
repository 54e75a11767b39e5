From 39ff07ebaa31bfd18fbdc72f6cf4b1f440e3210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:19 +0000
Subject: [PATCH 01/21] fix: keep spline lookups in range for every distance
 below r_cut

The splines written by extract_mace_data end at r_cut-1e-12, so a neighbor
between there and r_cut read past the coefficients of CubicSplineSet, or was
rejected by the A0/A1 scaling splines.
---
 libsymmetrix/source/cubic_spline_set.cpp |  7 +++++--
 libsymmetrix/source/mace.cpp             | 12 ++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set.cpp b/libsymmetrix/source/cubic_spline_set.cpp
index 319d87f..cc1a0b4 100644
--- a/libsymmetrix/source/cubic_spline_set.cpp
+++ b/libsymmetrix/source/cubic_spline_set.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <vector>
 
 #include "cubic_spline_set.hpp"
@@ -29,7 +30,8 @@ void CubicSplineSet::evaluate(
     std::span<double> values)
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    // the last node may lie marginally below r_cut, so stay in the last interval
+    const int i = std::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -52,7 +54,8 @@ void CubicSplineSet::evaluate_derivs(double r,
                                      std::span<double> derivs)
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    // the last node may lie marginally below r_cut, so stay in the last interval
+    const int i = std::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
diff --git a/libsymmetrix/source/mace.cpp b/libsymmetrix/source/mace.cpp
index 21c27b4..dbe266b 100644
--- a/libsymmetrix/source/mace.cpp
+++ b/libsymmetrix/source/mace.cpp
@@ -952,8 +952,12 @@ void MACE::load_from_json(
         const double A0_spline_h = file["A0_spline_h"];
         auto A0_spline_values = file["A0_spline_values"].get<std::vector<std::vector<double>>>();
         auto A0_spline_derivs = file["A0_spline_derivs"].get<std::vector<std::vector<double>>>();
-        for (int i=0; i<A0_spline_values.size(); ++i)
+        for (int i=0; i<A0_spline_values.size(); ++i) {
+            // the last node may lie marginally below r_cut, so extend past it
+            A0_spline_values[i].push_back(A0_spline_values[i].back());
+            A0_spline_derivs[i].push_back(0.0);
             A0_splines.push_back(CubicSpline(A0_spline_h, A0_spline_values[i], A0_spline_derivs[i]));
+        }
     }
 
     // M0
@@ -997,8 +1001,12 @@ void MACE::load_from_json(
         const double A1_spline_h = file["A1_spline_h"];
         auto A1_spline_values = file["A1_spline_values"].get<std::vector<std::vector<double>>>();
         auto A1_spline_derivs = file["A1_spline_derivs"].get<std::vector<std::vector<double>>>();
-        for (int i=0; i<A1_spline_values.size(); ++i)
+        for (int i=0; i<A1_spline_values.size(); ++i) {
+            // the last node may lie marginally below r_cut, so extend past it
+            A1_spline_values[i].push_back(A1_spline_values[i].back());
+            A1_spline_derivs[i].push_back(0.0);
             A1_splines.push_back(CubicSpline(A1_spline_h, A1_spline_values[i], A1_spline_derivs[i]));
+        }
     }
 
     // M1
-- 
2.43.0


From f208949db45843b07a972e9a375307775d35db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:34 +0000
Subject: [PATCH 02/21] fix: keep Kokkos spline lookups in range for every
 distance below r_cut

The splines written by extract_mace_data end at r_cut-1e-12, so a neighbor
between there and r_cut read past the coefficients of R0, R1 and the A0/A1
scaling splines.
---
 libsymmetrix/source/cubic_spline_set_kokkos.cpp    | 9 ++++++---
 libsymmetrix/source/mace_kokkos.cpp                | 3 ++-
 libsymmetrix/source/radial_function_set_kokkos.cpp | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 08c7484..d2c0571 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -75,7 +75,8 @@ void CubicSplineSetKokkos::evaluate(
     Kokkos::View<double*> values)
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    // the last node may lie marginally below r_cut, so stay in the last interval
+    const int i = Kokkos::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -97,7 +98,8 @@ void CubicSplineSetKokkos::evaluate_derivs(double r,
                                            Kokkos::View<double*> derivs) const
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    // the last node may lie marginally below r_cut, so stay in the last interval
+    const int i = Kokkos::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -137,7 +139,8 @@ void CubicSplineSetKokkos::evaluate_derivs(Kokkos::View<const double*> r,
         Kokkos::TeamPolicy<>(r.size(), 1, 32),
         KOKKOS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
             const int i = team_member.league_rank();
-            const int ii = static_cast<int>(r(i)/h); // TODO: bounds checking?
+            // the last node may lie marginally below r_cut, so stay in the last interval
+            const int ii = Kokkos::min(static_cast<int>(r(i)/h), static_cast<int>(c.extent(0))-1);
             const double x = r(i) - h*ii;
             const double xx = x*x;
             const double xxx = xx*x;
diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 80ba9bd..ae185c9 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -151,7 +151,8 @@ void MACEKokkos<Precision>::compute_R0(
             const int type_j = neigh_types(ij);
             const int type_ij = type_i*num_types+type_j;
             // compute x, x^2, x^3
-            const int n = static_cast<int>(r(ij)/h); // TODO: bounds checking?
+            // the last node may lie marginally below r_cut, so stay in the last interval
+            const int n = Kokkos::min(static_cast<int>(r(ij)/h), static_cast<int>(c.extent(1))-1);
             const double x = r(ij) - h*n;
             const double xx = x*x;
             const double xxx = xx*x;
diff --git a/libsymmetrix/source/radial_function_set_kokkos.cpp b/libsymmetrix/source/radial_function_set_kokkos.cpp
index ae0dec3..05d98a8 100644
--- a/libsymmetrix/source/radial_function_set_kokkos.cpp
+++ b/libsymmetrix/source/radial_function_set_kokkos.cpp
@@ -177,7 +177,8 @@ void RadialFunctionSetKokkos<Precision>::evaluate(
                 ? type_i*(2*num_unique_types-type_i-1)/2 + type_j
                 : type_j*(2*num_unique_types-type_j-1)/2 + type_i;
             // compute x, x^2, x^3
-            const int n = static_cast<int>(r(ij)/h); // TODO: bounds checking?
+            // the last node may lie marginally below r_cut, so stay in the last interval
+            const int n = Kokkos::min(static_cast<int>(r(ij)/h), static_cast<int>(c.extent(1))-1);
             const double x = r(ij) - h*n;
             const double xx = x*x;
             const double xxx = xx*x;
-- 
2.43.0


From 5c7daf3f260383c2a3f21d8b2d6cec21cf0ff19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:34 +0000
Subject: [PATCH 03/21] fix: allocate all coefficients in the View constructor
 of CubicSplineSetKokkos

---
 libsymmetrix/source/cubic_spline_set_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index d2c0571..710ca89 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -60,7 +60,7 @@ CubicSplineSetKokkos::CubicSplineSetKokkos(
     this->h = h;
     num_splines = nodal_values.extent(0);
     num_nodes = nodal_values.extent(1);
-    Kokkos::realloc(c, num_nodes-1, num_splines);
+    Kokkos::realloc(c, num_nodes-1, 4, num_splines);
 
     // Create and use the functor for initialization
     InitializeCoefficientsFunctor functor(h, nodal_values, nodal_derivs, c);
-- 
2.43.0


From f8633b0f4b34d49b0192d109720c2d33faa4699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:34 +0000
Subject: [PATCH 04/21] fix: reject points beyond the last node in all
 CubicSplineKokkos evaluations

---
 libsymmetrix/source/cubic_spline_kokkos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index 882788b..ea86d2a 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -51,7 +51,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i > num_coeffs / 4)
+    if (i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h * i;
@@ -76,7 +76,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i> num_coeffs)
+    if (i<0 or i>=num_coeffs/4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h*i;
-- 
2.43.0


From 45367db5b8391e61be174b27f8745e460a1a6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:34 +0000
Subject: [PATCH 05/21] fix: add monomial derivatives atomically in
 MultivariatePolynomialKokkos::evaluate_gradient_simple

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index f587a28..7973528 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -121,7 +121,7 @@ double MultivariatePolynomialKokkos::evaluate_gradient_simple(
                     if (j == k) continue;
                     monomial_deriv *= x(monomials(i,k));
                 }
-                g(monomials(i,j)) += coefficients(i) * monomial_deriv;
+                Kokkos::atomic_add(&g(monomials(i,j)), coefficients(i) * monomial_deriv);
             }
         });
     return f;
-- 
2.43.0


From 7a8cf773f1bb66cbe404130b95fc1ce8e1d68393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:39 +0000
Subject: [PATCH 06/21] fix: require one element per LAMMPS type in pair_coeff
 and size the kk type map by LAMMPS types

---
 pair_symmetrix/pair_symmetrix_mace.cpp        | 3 +++
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index f16cf66..6814f7b 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -116,6 +116,9 @@ void PairSymmetrixMACE::coeff(int narg, char **arg)
 {
   if (!allocated) allocate();
 
+  if (narg != 3+atom->ntypes)
+    error->all(FLERR, "Incorrect number of pair_coeff arguments for symmetrix/mace");
+
   utils::logmesg(lmp, "Loading MACE model from \'{}\' ... ", arg[2]);
   mace = std::make_unique<MACE>(arg[2]);
   utils::logmesg(lmp, "success\n");
diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index ae555e1..2d390bb 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -133,12 +133,15 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
 {
   if (!allocated) allocate();
 
+  if (narg != 3+atom->ntypes)
+    error->all(FLERR, "Incorrect number of pair_coeff arguments for symmetrix/mace/kk");
+
   utils::logmesg(lmp, "Loading MACEKokkos model from \'{}\' ... ", arg[2]);
   mace = std::make_unique<MACEKokkos<Precision>>(arg[2]);
   utils::logmesg(lmp, "success\n");
 
   // extract atomic numbers from pair_coeff
-  mace_types = Kokkos::View<int*>("mace_types", mace->atomic_numbers.size());
+  mace_types = Kokkos::View<int*>("mace_types", atom->ntypes);
   auto h_mace_types = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace_types);
   auto h_mace_atomic_numbers = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace->atomic_numbers);
   for (int i=3; i<narg; ++i) {
-- 
2.43.0


From 38b59e2264dd15b4e063eeb5543cf2eaaafa4211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:39 +0000
Subject: [PATCH 07/21] fix: reject elements that are missing from the model in
 pair_style symmetrix/mace/kk

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 2d390bb..9de8f52 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -155,6 +155,8 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
     for (int j=0; j<mace->atomic_numbers.size(); ++j)
         if (h_mace_atomic_numbers(j) == atomic_number)
             mace_index = j;
+    if (mace_index == -1)
+      error->all(FLERR, "Problem matching LAMMPS types to MACE types.");
     utils::logmesg(lmp, "  mapping LAMMPS type {} ({}) to MACEKokkos type {}\n",
                    i-2, arg[i], mace_index);
     h_mace_types(i-3) = mace_index;
-- 
2.43.0


From 0add0a94c37bda0c3095faf44f7c81573a05c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:39 +0000
Subject: [PATCH 08/21] fix: do not accumulate per-atom energies over computes
 in pair_style symmetrix/mace/kk

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 9de8f52..44112f4 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -509,7 +509,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
     auto d_eatom = k_eatom.template view<DeviceType>();
     auto node_energies = mace->node_energies;
     Kokkos::parallel_for("PairSymmetrixMACEKokkos::extract_atomic_energies", num_nodes, KOKKOS_LAMBDA (const int ii) {
-        d_eatom(ii) += node_energies(ii);
+        d_eatom(ii) = node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
   }
@@ -775,7 +775,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
     auto d_eatom = k_eatom.template view<DeviceType>();
     auto node_energies = mace->node_energies;
     Kokkos::parallel_for("Extract Atomic Energies", num_nodes, KOKKOS_LAMBDA (const int ii) {
-        d_eatom(ii) += node_energies(ii);
+        d_eatom(ii) = node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
   }
@@ -1103,7 +1103,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
     auto d_eatom = k_eatom.template view<DeviceType>();
     auto node_energies = mace->node_energies;
     Kokkos::parallel_for("extract atomic energies", num_local_nodes, KOKKOS_LAMBDA (const int ii) {
-        d_eatom(ii) += node_energies(ii);
+        d_eatom(ii) = node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
   }
-- 
2.43.0


From 12696235f1a3d349ebe8d37685b5fe9f65e31b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:39 +0000
Subject: [PATCH 09/21] fix: reshape H1 after pair_coeff loads a different
 model in pair_style symmetrix/mace/kk

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 44112f4..eda7a99 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -718,7 +718,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
   mace->compute_H1(num_nodes);
 
   // sort H1 contributions by i (rather than ii)
-  if (H1.extent(0) < k_list->inum+atom->nghost)
+  if (H1.extent(0) < k_list->inum+atom->nghost || H1.extent(1) != mace->num_LM || H1.extent(2) != mace->num_channels)
     Kokkos::realloc(H1, (k_list->inum+atom->nghost), mace->num_LM, mace->num_channels);
   auto num_LM = mace->num_LM;
   auto num_channels = mace->num_channels;
-- 
2.43.0


From 94845dea844c6f22f98f2a368e71baa764866b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:55 +0000
Subject: [PATCH 10/21] fix: evaluate atoms without neighbours in the ASE
 calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 067af9a..a18e80a 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -75,7 +75,7 @@ class Symmetrix(Calculator):
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
         mace_atomic_numbers = self.evaluator.atomic_numbers
         i_list, j_list, r, xyz = neighbor_list('ijdD', self.atoms, self.cutoff)
-        num_nodes = np.max(i_list) + 1
+        num_nodes = len(self.atoms)
         node_types = [mace_atomic_numbers.index(ase_atomic_numbers[i]) for i in range(num_nodes)]
         num_neigh = np.bincount(j_list, minlength=num_nodes)
         neigh_types = [mace_atomic_numbers.index(ase_atomic_numbers[j]) for j in j_list]
-- 
2.43.0


From df270cab99ca82c5905c6fb23168ce9eb112848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:08 +0000
Subject: [PATCH 11/21] fix: flush the converted model before the ASE
 calculator loads it

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index a18e80a..f948ed7 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -65,6 +65,7 @@ class Symmetrix(Calculator):
             with NamedTemporaryFile("w") as fout:
                 logging.warning(f"Converting via NamedTemporaryFile {fout.name}")
                 fout.write(json.dumps(data))
+                fout.flush()
                 self.evaluator = MACE(fout.name)
 
         self.cutoff = self.evaluator.r_cut
-- 
2.43.0


From 6a7679fbfbd68c7980b1a3d31d37d0e4b58024db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:22 +0000
Subject: [PATCH 12/21] fix: evaluate structures without a full cell in the ASE
 calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index f948ed7..11a7c77 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -99,5 +99,9 @@ class Symmetrix(Calculator):
 
         self.results['forces'] = atom_forces
 
+        # no stress for structures without a volume
+        if self.atoms.cell.rank < 3:
+            return
+
         # stress from pair_forces
         self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
-- 
2.43.0


From ba50fb2cdea8c7a7de319e0e7ed64fb953469855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:49 +0000
Subject: [PATCH 13/21] fix: convert model files whose first bytes are not
 utf-8 in the ASE calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 11a7c77..8b99f43 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -53,7 +53,7 @@ class Symmetrix(Calculator):
             MACE = symmetrix.MACE
         try:
             self.evaluator = MACE(str(model_file))
-        except RuntimeError: # expecting json.exception.parse_error.101
+        except (RuntimeError, UnicodeDecodeError): # expecting json.exception.parse_error.101, which may quote a byte that is not utf-8
             # import this here so that torch/mace support isn't needed if file is already symmetrix json
             from .extract_mace_data import extract_mace_data
             kwargs_extract = {k: v for k, v in kwargs.items()
-- 
2.43.0


From 377b3edb92a8e1190515c843c3fe6c4ff0bacc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:34 +0000
Subject: [PATCH 14/21] fix: return one energy per atom after larger structures
 in the ASE calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 8b99f43..855b440 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -84,7 +84,7 @@ class Symmetrix(Calculator):
             num_nodes, node_types, num_neigh, j_list, neigh_types, xyz.flatten(), r)
 
         self.results['energy'] = self.results['free_energy'] = np.sum(self.evaluator.node_energies)
-        self.results['energies'] = np.asarray(self.evaluator.node_energies)
+        self.results['energies'] = np.asarray(self.evaluator.node_energies)[:num_nodes]
 
         pair_forces = np.asarray(self.evaluator.node_forces).reshape((-1, 3))
         pair_forces = pair_forces[:len(i_list), :]  # currently, `evaluator.node_forces` is a container
-- 
2.43.0


From c8691eff98e6cb2d12316da880eb51ce073474c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:15 +0000
Subject: [PATCH 15/21] fix: compute the azimuth of sph_harm_xyz and
 real_sph_harm_xyz on the negative x axis and at the poles

---
 libsymmetrix/source/spherical_harmonic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/spherical_harmonic.cpp b/libsymmetrix/source/spherical_harmonic.cpp
index 1e2957c..9b44705 100644
--- a/libsymmetrix/source/spherical_harmonic.cpp
+++ b/libsymmetrix/source/spherical_harmonic.cpp
@@ -21,7 +21,7 @@ std::complex<double> sph_harm(int l, int m, double polar, double azimuth) {
 std::complex<double> sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return sph_harm(l, m, polar, azimuth);
 }
 
@@ -38,7 +38,7 @@ double real_sph_harm(int l, int m, double polar, double azimuth) {
 double real_sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return real_sph_harm(l, m, polar, azimuth);
 }
 
-- 
2.43.0


From 247d532ba4141189bcfd24e6a116d708e66c1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:06 +0000
Subject: [PATCH 16/21] fix: size the Kokkos monomial tables by the largest
 degree in the file

The per-channel monomial tables were three columns wide, so a model with
correlation order above three was written out of bounds on loading.
---
 libsymmetrix/source/mace_kokkos.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index ae185c9..8dbb143 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 #include <numbers>
 
@@ -1668,9 +1669,12 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
                 for (int w=0; w<M0_monomials_file[std::to_string(LM)].size(); ++w)
                     h_M0_weights_LM(a,k,w) = M0_weights_file[std::to_string(a)][std::to_string(LM)][std::to_string(k)][w];
         Kokkos::deep_copy(M0_weights(LM), h_M0_weights_LM);
+        size_t max_degree = 0;
+        for (const auto& monomial : M0_monomials_file[std::to_string(LM)])
+            max_degree = std::max(max_degree, monomial.size());
         M0_monomials(LM) = Kokkos::View<int**,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_monomials_") + std::to_string(LM), Kokkos::WithoutInitializing),
-            M0_monomials_file[std::to_string(LM)].size(), 3);// TODO: hardcoded 3
+            M0_monomials_file[std::to_string(LM)].size(), max_degree);
         auto h_M0_monomials_LM = Kokkos::create_mirror_view(M0_monomials(LM));
         Kokkos::deep_copy(h_M0_monomials_LM, -1);
         for (int i=0; i<M0_monomials_file[std::to_string(LM)].size(); ++i) {
@@ -1826,7 +1830,10 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
                 h_M1_weights(a,k,w) = M1_weights[std::to_string(a)][std::to_string(k)][w];
     Kokkos::deep_copy(this->M1_weights, h_M1_weights);
     auto M1_monomials = file["M1_monomials"].get<std::vector<std::vector<int>>>();
-    Kokkos::resize(this->M1_monomials, num_terms, 3);// TODO: hardcoded 3
+    size_t max_degree = 0;
+    for (const auto& monomial : M1_monomials)
+        max_degree = std::max(max_degree, monomial.size());
+    Kokkos::resize(this->M1_monomials, num_terms, max_degree);
     auto h_M1_monomials = Kokkos::create_mirror_view(this->M1_monomials);
     Kokkos::deep_copy(h_M1_monomials, -1);
     for (int i=0; i<num_terms; ++i)
-- 
2.43.0


From a2d5e157c7b8ca4ad4bb412e26d90ba0206e7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:06 +0000
Subject: [PATCH 17/21] fix: convert every correlation order, not only three

The contraction weights were taken as exactly three arrays in the second
layer and the orders 1..3 were assumed: other orders either failed or, for
a second layer of order four, were converted to a wrong potential.
---
 symmetrix/source/symmetrix/extract_mace_data.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symmetrix/source/symmetrix/extract_mace_data.py b/symmetrix/source/symmetrix/extract_mace_data.py
index 143c878..675d59f 100755
--- a/symmetrix/source/symmetrix/extract_mace_data.py
+++ b/symmetrix/source/symmetrix/extract_mace_data.py
@@ -283,8 +283,8 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
             # extract weights from model
             # warning: slightly odd order of the contractions weights due to reverse countdown
             W = [[]]  # list of lists because W[0] should be empty
-            W.append(model.products[0].symmetric_contractions.contractions[l].weights[1].numpy(force=True))
-            W.append(model.products[0].symmetric_contractions.contractions[l].weights[0].numpy(force=True))
+            for w in reversed(list(model.products[0].symmetric_contractions.contractions[l].weights)):
+                W.append(w.numpy(force=True))
             W.append(model.products[0].symmetric_contractions.contractions[l].weights_max.numpy(force=True))
             # combine U and W into polynomial-like terms for recursive evaluator
             for m in range(-l,l+1):
@@ -429,7 +429,7 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
     irreps_out = Irreps("0e")
     # extract U in sparse format
     U = [[]]
-    for corr in range(1,4):
+    for corr in range(1,correlation+1):
         # get U matrix for this correlation order
         try:
             U_matrix = U_matrix_real(irreps_in, irreps_out, corr, use_cueq_cg=False)[1]
@@ -452,8 +452,8 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
     # extract weights from model
     # warning: slightly odd order of the contractions weights due to reverse countdown
     W = [[]]
-    W.append(model.products[1].symmetric_contractions.contractions[0].weights[1].numpy(force=True))
-    W.append(model.products[1].symmetric_contractions.contractions[0].weights[0].numpy(force=True))
+    for w in reversed(list(model.products[1].symmetric_contractions.contractions[0].weights)):
+        W.append(w.numpy(force=True))
     W.append(model.products[1].symmetric_contractions.contractions[0].weights_max.numpy(force=True))
     # combine U and W into polynomial-like terms for recursive evaluator
     C = {}
@@ -462,7 +462,7 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
         C[i] = {}
         for k in range(num_channels):
             P_ik = {}
-            for corr in range(1,4):
+            for corr in range(1,correlation+1):
                 for nu in range(len(U[corr])):
                     for key,value in U[corr][nu].items():
                         if key not in P_ik.keys():
-- 
2.43.0


From 7737f6b45c3162f17b8b06154ff9eebff5122167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:39 +0000
Subject: [PATCH 18/21] fix: install.sh can be repeated, run from any directory
 and handle paths with spaces

A second run appended the build instructions again, so CMake stopped on the
duplicate add_subdirectory; unquoted paths broke with spaces; called from
another directory it linked files that do not exist.
---
 pair_symmetrix/install.sh | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pair_symmetrix/install.sh b/pair_symmetrix/install.sh
index c6f1a45..52e3a2f 100755
--- a/pair_symmetrix/install.sh
+++ b/pair_symmetrix/install.sh
@@ -10,17 +10,26 @@ if [ "$#" -ne 1 ]; then
 fi
 
 lammps=$1
+here=$(cd "$(dirname "$0")" && pwd)
 
 # add new lammps source files
-ln -sf $(pwd)/pair_symmetrix_mace.h ${lammps}/src/pair_symmetrix_mace.h
-ln -sf $(pwd)/pair_symmetrix_mace.cpp ${lammps}/src/pair_symmetrix_mace.cpp
-ln -sf $(pwd)/pair_symmetrix_mace_kokkos.h ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h
-ln -sf $(pwd)/pair_symmetrix_mace_kokkos.cpp ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp
+ln -sf "${here}/pair_symmetrix_mace.h" "${lammps}/src/pair_symmetrix_mace.h"
+ln -sf "${here}/pair_symmetrix_mace.cpp" "${lammps}/src/pair_symmetrix_mace.cpp"
+ln -sf "${here}/pair_symmetrix_mace_kokkos.h" "${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h"
+ln -sf "${here}/pair_symmetrix_mace_kokkos.cpp" "${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp"
 
-# update lammps build instructions
-echo "
-add_subdirectory($(pwd)/../libsymmetrix libsymmetrix)
-target_include_directories(lammps PRIVATE $(pwd)/../libsymmetrix/source)
+# update lammps build instructions, replacing those of an earlier installation
+cmakelists=${lammps}/cmake/CMakeLists.txt
+other_instructions=$(grep -v \
+    -e '^add_subdirectory(.*libsymmetrix"\{0,1\} libsymmetrix)$' \
+    -e '^target_include_directories(lammps PRIVATE .*libsymmetrix/source"\{0,1\})$' \
+    -e '^target_link_libraries(lammps PRIVATE symmetrix)$' \
+    -e '^install(TARGETS symmetrix EXPORT LAMMPS_Targets)$' \
+    "${cmakelists}")
+echo "${other_instructions}
+
+add_subdirectory(\"${here}/../libsymmetrix\" libsymmetrix)
+target_include_directories(lammps PRIVATE \"${here}/../libsymmetrix/source\")
 target_link_libraries(lammps PRIVATE symmetrix)
 install(TARGETS symmetrix EXPORT LAMMPS_Targets)
-" >> $lammps/cmake/CMakeLists.txt
+" > "${cmakelists}"
-- 
2.43.0


From e49545b53a73637648cdf24506ea57e7368447e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:51 +0000
Subject: [PATCH 19/21] fix: reject model files that lack entries of the
 polynomial tables

A missing element, harmonic or channel of M0_weights, M0_monomials or M1_weights
was default-constructed on lookup and then read out of range.
---
 libsymmetrix/source/mace.cpp        |  6 ++---
 libsymmetrix/source/mace_kokkos.cpp | 34 ++++++++++++++---------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/libsymmetrix/source/mace.cpp b/libsymmetrix/source/mace.cpp
index dbe266b..38eefd9 100644
--- a/libsymmetrix/source/mace.cpp
+++ b/libsymmetrix/source/mace.cpp
@@ -969,8 +969,8 @@ void MACE::load_from_json(
             for (int k=0; k<num_channels; ++k) {
                 P0.push_back(MultivariatePolynomial(
                     num_lm,
-                    M0_weights[std::to_string(a)][std::to_string(lm)][std::to_string(k)],
-                    M0_monomials[std::to_string(lm)]));
+                    M0_weights.at(std::to_string(a)).at(std::to_string(lm)).at(std::to_string(k)),
+                    M0_monomials.at(std::to_string(lm))));
             }
         }
     }
@@ -1017,7 +1017,7 @@ void MACE::load_from_json(
         for (int k=0; k<num_channels; ++k) {
             P1.push_back(MultivariatePolynomial(
                 num_lm,
-                M1_weights[std::to_string(a)][std::to_string(k)],
+                M1_weights.at(std::to_string(a)).at(std::to_string(k)),
                 M1_monomials));
         }
     }
diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 8dbb143..7fe1c05 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -1662,24 +1662,24 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
     for (int LM=0; LM<num_LM; ++LM) {
         M0_weights(LM) = Kokkos::View<Precision***,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_weights_") + std::to_string(LM), Kokkos::WithoutInitializing),
-            atomic_numbers.size(), num_channels, M0_monomials_file[std::to_string(LM)].size());
+            atomic_numbers.size(), num_channels, M0_monomials_file.at(std::to_string(LM)).size());
         auto h_M0_weights_LM = Kokkos::create_mirror_view(M0_weights(LM));
         for (int a=0; a<atomic_numbers.size(); ++a)
             for (int k=0; k<num_channels; ++k)
-                for (int w=0; w<M0_monomials_file[std::to_string(LM)].size(); ++w)
-                    h_M0_weights_LM(a,k,w) = M0_weights_file[std::to_string(a)][std::to_string(LM)][std::to_string(k)][w];
+                for (int w=0; w<M0_monomials_file.at(std::to_string(LM)).size(); ++w)
+                    h_M0_weights_LM(a,k,w) = M0_weights_file.at(std::to_string(a)).at(std::to_string(LM)).at(std::to_string(k))[w];
         Kokkos::deep_copy(M0_weights(LM), h_M0_weights_LM);
         size_t max_degree = 0;
-        for (const auto& monomial : M0_monomials_file[std::to_string(LM)])
+        for (const auto& monomial : M0_monomials_file.at(std::to_string(LM)))
             max_degree = std::max(max_degree, monomial.size());
         M0_monomials(LM) = Kokkos::View<int**,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_monomials_") + std::to_string(LM), Kokkos::WithoutInitializing),
-            M0_monomials_file[std::to_string(LM)].size(), max_degree);
+            M0_monomials_file.at(std::to_string(LM)).size(), max_degree);
         auto h_M0_monomials_LM = Kokkos::create_mirror_view(M0_monomials(LM));
         Kokkos::deep_copy(h_M0_monomials_LM, -1);
-        for (int i=0; i<M0_monomials_file[std::to_string(LM)].size(); ++i) {
-            for (int j=0; j<M0_monomials_file[std::to_string(LM)][i].size(); ++j) {
-                h_M0_monomials_LM(i,j) = M0_monomials_file[std::to_string(LM)][i][j];
+        for (int i=0; i<M0_monomials_file.at(std::to_string(LM)).size(); ++i) {
+            for (int j=0; j<M0_monomials_file.at(std::to_string(LM))[i].size(); ++j) {
+                h_M0_monomials_LM(i,j) = M0_monomials_file.at(std::to_string(LM))[i][j];
             }
         }
         Kokkos::deep_copy(M0_monomials(LM), h_M0_monomials_LM);
@@ -1691,8 +1691,8 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
     for (int LM=0; LM<num_LM; ++LM) {
         auto P = MultivariatePolynomial(
             num_lm,
-            M0_weights_file[std::to_string(0)][std::to_string(LM)][std::to_string(0)],
-            M0_monomials_file[std::to_string(LM)]);
+            M0_weights_file.at(std::to_string(0)).at(std::to_string(LM)).at(std::to_string(0)),
+            M0_monomials_file.at(std::to_string(LM)));
         M0_poly_spec(LM) = Kokkos::View<int**,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_poly_spec_")+std::to_string(LM),Kokkos::WithoutInitializing),
             P.edges.size(), 2);
@@ -1709,8 +1709,8 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
     for (int LM=0; LM<num_LM; ++LM) {
         auto P = MultivariatePolynomial(
             num_lm,
-            M0_weights_file[std::to_string(0)][std::to_string(LM)][std::to_string(0)],
-            M0_monomials_file[std::to_string(LM)]);
+            M0_weights_file.at(std::to_string(0)).at(std::to_string(LM)).at(std::to_string(0)),
+            M0_monomials_file.at(std::to_string(LM)));
         M0_poly_coeff(LM) = Kokkos::View<Precision***,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_poly_coeff_")+std::to_string(LM),Kokkos::WithoutInitializing),
             atomic_numbers.size(), P.node_coefficients.size(), num_channels);
@@ -1719,8 +1719,8 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
             for (int k=0; k<num_channels; ++k) {
                 auto P = MultivariatePolynomial(
                     num_lm,
-                    M0_weights_file[std::to_string(a)][std::to_string(LM)][std::to_string(k)],
-                    M0_monomials_file[std::to_string(LM)]);
+                    M0_weights_file.at(std::to_string(a)).at(std::to_string(LM)).at(std::to_string(k)),
+                    M0_monomials_file.at(std::to_string(LM)));
                 for (int p=0; p<P.node_coefficients.size(); ++p) {
                     h_M0_poly_coeff_LM(a,p,k) = P.node_coefficients[p];
                 }
@@ -1821,13 +1821,13 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
 
     // M1 weights and monomials
     auto M1_weights = file["M1_weights"].get<std::map<std::string,std::map<std::string,std::vector<double>>>>();
-    const int num_terms = M1_weights[std::to_string(0)][std::to_string(0)].size();
+    const int num_terms = M1_weights.at(std::to_string(0)).at(std::to_string(0)).size();
     Kokkos::resize(this->M1_weights, atomic_numbers.size(), num_channels, num_terms);
     auto h_M1_weights = Kokkos::create_mirror_view(this->M1_weights);
     for (int a=0; a<atomic_numbers.size(); ++a)
         for (int k=0; k<num_channels; ++k)
             for (int w=0; w<num_terms; ++w)
-                h_M1_weights(a,k,w) = M1_weights[std::to_string(a)][std::to_string(k)][w];
+                h_M1_weights(a,k,w) = M1_weights.at(std::to_string(a)).at(std::to_string(k))[w];
     Kokkos::deep_copy(this->M1_weights, h_M1_weights);
     auto M1_monomials = file["M1_monomials"].get<std::vector<std::vector<int>>>();
     size_t max_degree = 0;
@@ -1846,7 +1846,7 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
         for (int k=0; k<num_channels; ++k) {
             P1.push_back(MultivariatePolynomial(
                 num_lm,
-                M1_weights[std::to_string(a)][std::to_string(k)],
+                M1_weights.at(std::to_string(a)).at(std::to_string(k)),
                 M1_monomials));
         }
     }
-- 
2.43.0


From 44fedeed725cb7a35e6cdaa45651e68432d8def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:58 +0000
Subject: [PATCH 20/21] fix: set the message size when a run starts, not in
 pair_coeff

pair_style may be repeated with another mode without repeating pair_coeff; the
message size of the old mode was kept, so switching to mpi_message_passing sent
messages larger than their buffers.
---
 pair_symmetrix/pair_symmetrix_mace.cpp        | 20 +++++++++----------
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 18 ++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index 6814f7b..ea10678 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -40,7 +40,7 @@ PairSymmetrixMACE::PairSymmetrixMACE(LAMMPS *lmp)
   manybody_flag = 1;
   no_virial_fdotr_compute = 1;
   // WARNING: for mace, these variables are model-dependent, so i 
-  //          reset them after the model is loaded (in coeff).
+  //          reset them after the model is loaded (in init_style).
   //          however, i can't make them zero here, because that 
   //          confusingly yields seg faults with hybrid/overlay.
   //          so, i set them to a fairly big number here and hope.
@@ -141,15 +141,6 @@ void PairSymmetrixMACE::coeff(int narg, char **arg)
     mace_types.push_back(mace_index);
   }
 
-  // set message size
-  if (mode == "mpi_message_passing") {
-    comm_forward = mace->num_LM*mace->num_channels;
-    comm_reverse = mace->num_LM*mace->num_channels;
-  } else {
-    comm_forward = 0;
-    comm_reverse = 0;
-  }
-
   for (int i=1; i<atom->ntypes+1; i++)
     for (int j=i; j<atom->ntypes+1; j++)
       setflag[i][j] = 1;
@@ -175,6 +166,15 @@ void PairSymmetrixMACE::init_style()
   if (atom->map_user == atom->MAP_NONE) error->all(FLERR, "symmetrix/mace requires \'atom_modify map [yes|array|hash]\'");
   if (force->newton_pair == 0) error->all(FLERR, "symmetrix/mace requires newton pair on");
 
+  // set message size (the mode may have changed since pair_coeff)
+  if (mode == "mpi_message_passing") {
+    comm_forward = mace->num_LM*mace->num_channels;
+    comm_reverse = mace->num_LM*mace->num_channels;
+  } else {
+    comm_forward = 0;
+    comm_reverse = 0;
+  }
+
   if (mode == "no_domain_decomposition" or mode == "mpi_message_passing") {
     neighbor->add_request(this, NeighConst::REQ_FULL);
   } else {
diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index eda7a99..4381916 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -163,15 +163,6 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
   }
   Kokkos::deep_copy(mace_types, h_mace_types);
 
-  // set message size
-  if (mode == "mpi_message_passing") {
-    comm_forward = mace->num_LM*mace->num_channels;
-    comm_reverse = mace->num_LM*mace->num_channels;
-  } else {
-    comm_forward = 0;
-    comm_reverse = 0;
-  }
-
   for (int i=1; i<atom->ntypes+1; i++)
     for (int j=i; j<atom->ntypes+1; j++)
       setflag[i][j] = 1;
@@ -199,6 +190,15 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::init_style()
   if (atom->map_user == atom->MAP_NONE) error->all(FLERR, "symmetrix/mace/kk requires \'atom_modify map [yes|array|hash]\'");
   if (force->newton_pair == 0) error->all(FLERR, "symmetrix/mace/kk requires newton pair on");
 
+  // set message size (the mode may have changed since pair_coeff)
+  if (mode == "mpi_message_passing") {
+    comm_forward = mace->num_LM*mace->num_channels;
+    comm_reverse = mace->num_LM*mace->num_channels;
+  } else {
+    comm_forward = 0;
+    comm_reverse = 0;
+  }
+
   if (mode == "no_domain_decomposition" or mode == "mpi_message_passing") {
     auto request = neighbor->add_request(this, NeighConst::REQ_FULL);
     request->set_kokkos_host(std::is_same_v<DeviceType,LMPHostType> &&
-- 
2.43.0


From 82b90c273b226a505deac16c74a9c4fb8bacb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:21 +0000
Subject: [PATCH 21/21] fix: extract_mace_data converts all species by default

Symmetrix('model.model') passes only the options it was given, so the
conversion without species= raised a TypeError.
---
 symmetrix/source/symmetrix/extract_mace_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symmetrix/source/symmetrix/extract_mace_data.py b/symmetrix/source/symmetrix/extract_mace_data.py
index 675d59f..b2cd778 100755
--- a/symmetrix/source/symmetrix/extract_mace_data.py
+++ b/symmetrix/source/symmetrix/extract_mace_data.py
@@ -16,7 +16,7 @@ from mace.tools.scripts_utils import remove_pt_head
 
 from ase.data import chemical_symbols
 
-def extract_mace_data(model, species, head=None, num_spline_points=256):
+def extract_mace_data(model, species=None, head=None, num_spline_points=256):
     """Extract data from pytorch model file into structure that can be
     written as symmetrix JSON data file
 
@@ -24,8 +24,8 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
     ----------
     model: str / Path
         path to pytorch model file
-    species: list(int / str)
-        list of atomic numbers or chemical symbols to extract
+    species: list(int / str), default None
+        list of atomic numbers or chemical symbols to extract, default all in the model
     head: str, default None
         head to keep, if multihead model, default same as mace.tools.scripts_utils.remove_pt_head
     num_spline_points: int, default 256
-- 
2.43.0

