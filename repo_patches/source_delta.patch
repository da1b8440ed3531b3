From 214dfb21c25b131fc0dbd9dab487f9eafbc3420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 01/21] fix: exact area of the phi faces in 3D spherical
 geometry

---
 src/mesh/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..95a4b81 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -62,7 +62,7 @@ void Spherical::execute(
         KV_cdouble_1d const& x0,
         KV_cdouble_1d const& x1,
         KV_cdouble_1d const& /*x2*/,
-        KV_cdouble_1d const& dx0,
+        KV_cdouble_1d const& /*dx0*/,
         KV_cdouble_1d const& dx1,
         KV_cdouble_1d const& dx2,
         KV_double_4d const& ds,
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * dx1(j); // phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From 1f382a5878637b303a73d8666a8e58098305368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 02/21] fix: apply boundary conditions in the requested
 priority, reject repeated names

---
 src/boundary_distribute.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..11f35de 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -42,32 +42,30 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
         ssin >> tmp_arr[i];
     }
 
-    int counter = 0;
+    std::array<bool, nfaces> is_set {};
     for (int i = 0; i < nfaces; ++i) {
+        int bc_id = -1;
         if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
-            ++counter;
+            bc_id = 0;
         } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
-            ++counter;
+            bc_id = 1;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
-            ++counter;
+            bc_id = 2;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
-            ++counter;
+            bc_id = 3;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
-            ++counter;
+            bc_id = 4;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
-            ++counter;
+            bc_id = 5;
         }
+        if (bc_id < 0 || is_set[bc_id]) {
+            throw std::runtime_error("boundary priority not fully defined !");
+        }
+        is_set[bc_id] = true;
+        bc_order[i] = bc_id;
     }
+    // From high to low priority, the boundary condition of highest priority is applied last
     std::ranges::reverse(bc_order);
-    if (counter != nfaces) {
-        throw std::runtime_error("boundary priority not fully defined !");
-    }
 }
 
 } // namespace
-- 
2.43.0


From 64a0577e3c26784085c656f2d4f578db0df9f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 03/21] fix: accept the X0_left... spelling of the shipped
 input files in the boundary priority

---
 src/boundary_distribute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 11f35de..fb523c0 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -45,17 +45,17 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     std::array<bool, nfaces> is_set {};
     for (int i = 0; i < nfaces; ++i) {
         int bc_id = -1;
-        if (tmp_arr[i] == "X_left") {
+        if (tmp_arr[i] == "X_left" || tmp_arr[i] == "X0_left") {
             bc_id = 0;
-        } else if (tmp_arr[i] == "X_right") {
+        } else if (tmp_arr[i] == "X_right" || tmp_arr[i] == "X0_right") {
             bc_id = 1;
-        } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
+        } else if ((tmp_arr[i] == "Y_left" || tmp_arr[i] == "X1_left") && ndim >= 2) {
             bc_id = 2;
-        } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
+        } else if ((tmp_arr[i] == "Y_right" || tmp_arr[i] == "X1_right") && ndim >= 2) {
             bc_id = 3;
-        } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
+        } else if ((tmp_arr[i] == "Z_left" || tmp_arr[i] == "X2_left") && ndim == 3) {
             bc_id = 4;
-        } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
+        } else if ((tmp_arr[i] == "Z_right" || tmp_arr[i] == "X2_right") && ndim == 3) {
             bc_id = 5;
         }
         if (bc_id < 0 || is_set[bc_id]) {
-- 
2.43.0


From a7a17f51119b055b374a133b3e334437ff72c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 04/21] fix: refuse decompositions into subdomains smaller than
 the ghost layer

---
 src/mesh/grid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesh/grid.cpp b/src/mesh/grid.cpp
index d98fad8..7f61394 100644
--- a/src/mesh/grid.cpp
+++ b/src/mesh/grid.cpp
@@ -12,6 +12,7 @@
 #include <array>
 #include <cassert>
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 #include <Kokkos_Core.hpp>
@@ -96,6 +97,12 @@ void Grid::mpi_decomposition()
     for (int n = ndim; n < 3; ++n) {
         mpi_dims_cart[n] = 1;
     }
+    for (int i = 0; i < ndim; ++i) {
+        // the ghost cells of a process are filled with cells of its direct neighbours only
+        if (mpi_dims_cart[i] > 1 && Nx_glob_ng[i] / mpi_dims_cart[i] < Nghost[i]) {
+            throw std::runtime_error("Too many MPI processes: a subdomain is smaller than the ghost layer in dimension " + std::to_string(i));
+        }
+    }
     std::array<int, 3> periodic = {1, 1, 1};
 
     MPI_Cart_create(MPI_COMM_WORLD, 3, mpi_dims_cart.data(), periodic.data(), 1, &comm_cart);
-- 
2.43.0


From d042712fa9ac8a11b54bc647a2f334ad147eaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 05/21] fix: repair the energy with the kinetic energy of the
 updated momentum

The internal energy of the new time was combined with the kinetic energy
of the old one, so that the repaired cell did not get the internal
energy the repair computed for it.
---
 src/hydro/pressure_fix.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..a1b67ac 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -157,14 +157,9 @@ void pressure_fix(
 
                             double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                            double sum = 0;
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                            }
-
                             double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
+                            E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
                         }
                     }
                 }
-- 
2.43.0


From 8bc741c100317b06d5234aad87dd624fd32512fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 06/21] fix: repair the energy with the face-normal velocities
 and areas only

The loop over ipos combined the velocity component and the area of
direction ipos with the neighbours of direction idim, so that in several
dimensions the divergence had ndim-1 spurious terms per direction.
---
 src/hydro/pressure_fix.hpp | 118 ++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 60 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index a1b67ac..7469e9b 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -82,85 +82,83 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
-                            EulerCons var_L; // Left, front, down (i,j,k)
-                            EulerCons var_R; // Right, back, top (i,j,k)
+                        EulerCons var_L; // Left, front, down (i,j,k)
+                        EulerCons var_R; // Right, back, top (i,j,k)
 
-                            var_L.rho = rho_rec(i, j, k, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
-                            }
-                            var_L.E = E_rec(i, j, k, 0, idim);
+                        var_L.rho = rho_rec(i, j, k, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
+                        }
+                        var_L.E = E_rec(i, j, k, 0, idim);
 
-                            var_R.rho = rho_rec(i, j, k, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
-                            }
-                            var_R.E = E_rec(i, j, k, 1, idim);
+                        var_R.rho = rho_rec(i, j, k, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
+                        }
+                        var_R.E = E_rec(i, j, k, 1, idim);
 
-                            EulerPrim const primL = to_prim(var_L, eos);
-                            EulerPrim const primR = to_prim(var_R, eos);
+                        EulerPrim const primL = to_prim(var_L, eos);
+                        EulerPrim const primR = to_prim(var_R, eos);
 
-                            EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
-                            EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
+                        EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
+                        EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
 
-                            minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
-                            }
-                            minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
+                        minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
+                        }
+                        minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
 
-                            plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
-                            }
-                            plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
+                        plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
+                        }
+                        plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
 
-                            EulerPrim const prim_mR = to_prim(minus_oneR, eos);
-                            EulerPrim const prim_pL = to_prim(plus_oneL, eos);
+                        EulerPrim const prim_mR = to_prim(minus_oneR, eos);
+                        EulerPrim const prim_pL = to_prim(plus_oneL, eos);
 
-                            EulerCons cons_p; // (i,j,k) + 1
-                            EulerCons cons_m; // (i,j,k) - 1
+                        EulerCons cons_p; // (i,j,k) + 1
+                        EulerCons cons_m; // (i,j,k) - 1
 
-                            cons_p.rho = rho(i_p, j_p, k_p);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
-                            }
-                            cons_p.E = E(i_p, j_p, k_p);
+                        cons_p.rho = rho(i_p, j_p, k_p);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
+                        }
+                        cons_p.E = E(i_p, j_p, k_p);
 
-                            cons_m.rho = rho(i_m, j_m, k_m);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
-                            }
-                            cons_m.E = E(i_m, j_m, k_m);
+                        cons_m.rho = rho(i_m, j_m, k_m);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
+                        }
+                        cons_m.E = E(i_m, j_m, k_m);
 
-                            //--------------------------------------------//
+                        //--------------------------------------------//
 
-                            double const us = (prim_mR.u[ipos] + primL.u[ipos]) / 2; // Not the values from the Riemann solver
-                            double const us_p = (primR.u[ipos] + prim_pL.u[ipos]) / 2;
+                        double const us = (prim_mR.u[idim] + primL.u[idim]) / 2; // Not the values from the Riemann solver
+                        double const us_p = (primR.u[idim] + prim_pL.u[idim]) / 2;
 
-                            divU += ((us_p * ds(i_p, j_p, k_p, ipos)) - (us * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divU += ((us_p * ds(i_p, j_p, k_p, idim)) - (us * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            if (us_p > 0) {
-                                einR = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
-                            }
+                        if (us_p > 0) {
+                            einR = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
+                        }
 
-                            if (us < 0) {
-                                einL = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
-                            }
+                        if (us < 0) {
+                            einL = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
+                        }
 
-                            divUE += ((us_p * einR * ds(i_p, j_p, k_p, ipos)) - (us * einL * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divUE += ((us_p * einR * ds(i_p, j_p, k_p, idim)) - (us * einL * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            double const de_pf = dt * ((-prim.P * divU) - divUE);
+                        double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                            double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
+                        double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
-                        }
+                        E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
                     }
                 }
             });
-- 
2.43.0


From 632b2af5d86a82587d944540ddda19b3e15c2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 07/21] fix: read the hexadecimal integers the documentation of
 GetInteger promises

std::stoi and the like use base 10 by default, so that 0x4D2 was read as 0.
---
 vendor/inih/src/INIReader.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index a6d51c6..f267562 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>  // for transform
 #include <cctype>     // for tolower
+#include <cstddef>    // for size_t
 #include <stdexcept>
 #include <limits>
 #include <string>
@@ -14,6 +15,19 @@
 #include <inih/ini.h>      // for ini_parse
 #include <inih/INIReader.hpp>
 
+namespace {
+
+// 16 for the notation "0x4D2" (with or without a sign), 10 otherwise
+int base_of(std::string const& str)
+{
+    std::size_t const i = str.find_first_not_of("+-");
+    bool const is_hex = i != std::string::npos && i <= 1 && str.size() > i + 2 && str[i] == '0'
+                        && (str[i + 1] == 'x' || str[i + 1] == 'X');
+    return is_hex ? 16 : 10;
+}
+
+} // namespace
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -39,7 +53,7 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr);
+    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, base_of(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -51,35 +65,35 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr);
+    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, base_of(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr);
+    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, base_of(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoi(valstr);
+    return valstr.empty() ? default_value : std::stoi(valstr, nullptr, base_of(valstr));
 }
 
 long INIReader::GetInteger(const std::string& section, const std::string& name, long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stol(valstr);
+    return valstr.empty() ? default_value : std::stol(valstr, nullptr, base_of(valstr));
 }
 
 long long INIReader::GetInteger(const std::string& section, const std::string& name, long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoll(valstr);
+    return valstr.empty() ? default_value : std::stoll(valstr, nullptr, base_of(valstr));
 }
 
 float INIReader::GetReal(const std::string& section, const std::string& name, float default_value) const
-- 
2.43.0


From 1576be136e1a222916a8a5b0c2e36a80d9b2ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 08/21] fix: do not count a time output due after the end time
 as written

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index b20af58..3f621cb 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -364,7 +364,9 @@ void main(int argc, char** argv)
         }
         if (param.time_output_frequency > 0) {
             double const next_output = param.time_first_output + ((time_output_id + 1) * param.time_output_frequency);
-            if ((t + dt) >= next_output) {
+            // an output due after the end time is left to a restarted run
+            bool const is_due = next_output <= param.t_end + (1E-9 * param.time_output_frequency);
+            if (is_due && (t + dt) >= next_output) {
                 dt = next_output - t;
                 if (dt <= 0) {
                     throw std::runtime_error("Error: the time step is negative");
-- 
2.43.0


From ae8cd1d319c93bb91cb311d71f03a2e6859deaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 09/21] fix: write the times of the XDMF index with all their
 digits

---
 src/io/io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index 44272f1..bfefa1d 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <ostream>
 #include <sstream>
 #include <stdexcept>
@@ -459,6 +460,7 @@ void XmlWriter::operator()(
     IndentFn indent;
 
     std::ofstream xdmfFile(m_directory + '/' + m_prefix + ".xmf", std::ofstream::trunc);
+    xdmfFile.precision(std::numeric_limits<double>::max_digits10);
 
     xdmfFile << indent << "<?xml version=\"1.0\"?>\n";
     xdmfFile << indent << "<!DOCTYPE Xdmf SYSTEM \"Xdmf.dtd\" []>\n";
-- 
2.43.0


From 70ae0dbfa6b990e5f28f0389191844c5de17ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 10/21] fix: detect NaN internal energies

A NaN compares false with everything, so the minimum reduction skipped the cell and the run went on with an invalid state.
---
 src/analysis/internal_energy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/internal_energy.cpp b/src/analysis/internal_energy.cpp
index b6eec69..2e146cf 100644
--- a/src/analysis/internal_energy.cpp
+++ b/src/analysis/internal_energy.cpp
@@ -33,7 +33,11 @@ auto minimum_internal_energy(Range const& range, Grid const& grid, KV_cdouble_3d
                 }
                 cons.E = E(i, j, k);
 
-                double const cell_evol = compute_evol(cons);
+                double cell_evol = compute_evol(cons);
+                if (Kokkos::isnan(cell_evol)) {
+                    // a comparison with NaN is false, the minimum would ignore this cell
+                    cell_evol = -Kokkos::Experimental::infinity_v<double>;
+                }
 
                 local_evol = Kokkos::min(local_evol, cell_evol);
             },
-- 
2.43.0


From 65ba0a11dc316ffff08f1eee552a50a45404ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 11/21] fix: refuse boundary priority lists with additional
 entries

---
 src/boundary_distribute.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index fb523c0..e84ed78 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -41,6 +41,9 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     for (int i = 0; i < nfaces && ssin.good(); ++i) {
         ssin >> tmp_arr[i];
     }
+    if (std::string extra; ssin >> extra) {
+        throw std::runtime_error("boundary priority has too many faces !");
+    }
 
     std::array<bool, nfaces> is_set {};
     for (int i = 0; i < nfaces; ++i) {
-- 
2.43.0


From 07767fd96473dd36429183bc8789437e1d308371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 12/21] fix: start the search of the temperature from the
 smaller estimate

Starting far above the root takes more iterations than allowed when
radiation dominates, and an unconverged temperature was returned.
---
 src/thermodynamics/rad_gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermodynamics/rad_gas.hpp b/src/thermodynamics/rad_gas.hpp
index 3e27619..8d79cbb 100644
--- a/src/thermodynamics/rad_gas.hpp
+++ b/src/thermodynamics/rad_gas.hpp
@@ -77,7 +77,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp);
         double const Tg = P / C1;
         double const Tr = Kokkos::pow(3 * P / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg;
         double T = T0;
         int itr = 0;
         double delta_T = 0;
@@ -107,7 +107,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp * m_gamma_m1);
         double const Tg = evol / C1;
         double const Tr = Kokkos::pow(evol / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg;
         double T = T0;
         int itr = 0;
         double delta_T = 0;
-- 
2.43.0


From 94f10656fe71ebc74d08e8579483c050e97bf4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 13/21] fix: sedov1d puts the blast in the innermost cell of
 the domain

The blast was in local cell 2 of process 0 and the energies were divided by
the volume of local cell 2 of every process: with a number of ghost cells
other than 2 the blast was not in the innermost cell, and in spherical
coordinates the background pressure depended on the number of processes.
---
 src/setups/sedov1d/setup.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..6e7a9b9 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <mpi.h>
+
 #include <cassert>
 #include <string>
 
@@ -64,8 +66,6 @@ public:
         assert(u.extent_int(3) == ndim);
         assert(fx.extent_int(3) == 0);
 
-        int const mpi_rank = grid.mpi_rank;
-
         double alpha = -1;
 
         if (geom == Geometry::Geom_cartesian) {
@@ -78,13 +78,22 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
+
+        // The energies refer to the volume of the innermost cell of the global domain,
+        // it belongs to the process of rank 0
+        int const i_beg = grid.Nghost[0];
+        bool const is_innermost = grid.is_border[0][0];
+        int const bcast_root = 0;
+        double dv_beg = 0;
+        if (grid.mpi_rank == bcast_root) {
+            Kokkos::deep_copy(dv_beg, Kokkos::subview(grid.dv, i_beg, 0, 0));
+        }
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, bcast_root, grid.comm_cart);
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +103,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (is_innermost && i == i_beg) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0


From 9215a195539542ef3583d83a7a86db731f081427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 14/21] fix: sedov3d puts the blast in the middle cell of the
 domain

The local indices, that count the ghost cells, were compared with half the
global number of cells: the blast was off the middle by the number of ghost
cells, and with several processes it was in several cells or in none.
---
 src/setups/sedov3d/setup.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..5ddb153 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // Local indices of the cell in the middle of the global domain
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) - range.Corner_min[1] + grid.Nghost[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) - range.Corner_min[2] + grid.Nghost[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
-- 
2.43.0


From 652625373e4281c51c5a7ba972abd8d628f1d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 15/21] fix: no passive scalar in shock_tube1d_sph.ini

The setup shock_tube has no passive scalar, and asserts it.
---
 inputs/shock_tube1d_sph.ini | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/inputs/shock_tube1d_sph.ini b/inputs/shock_tube1d_sph.ini
index 92643b5..5f93917 100644
--- a/inputs/shock_tube1d_sph.ini
+++ b/inputs/shock_tube1d_sph.ini
@@ -14,9 +14,6 @@ x0max = 2
 [Perfect Gas]
 gamma = 1.4
 
-[Passive Scalar]
-nfx = 1
-
 [Run]
 timeout = 0.2
 cfl = 0.4
-- 
2.43.0


From 23fc389236ed2d9a7c99695037e90d76e5d559cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 16/21] fix: centrifugal term along theta of a flow in phi

The term is cot(theta) rho u_phi^2 / r. The difference of the areas of the
theta faces over the volume is cot(theta) / r already, as in the pressure
term: the code multiplied it once more by cot(theta) and by 1/2, so that the
force had the wrong sign in the southern hemisphere.
---
 src/hydro/extrapolation_reconstruction.hpp | 4 ----
 src/hydro/godunov_scheme.hpp               | 2 --
 src/hydro/source_terms.hpp                 | 5 ++---
 3 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/hydro/extrapolation_reconstruction.hpp b/src/hydro/extrapolation_reconstruction.hpp
index 5de8662..665e8ac 100644
--- a/src/hydro/extrapolation_reconstruction.hpp
+++ b/src/hydro/extrapolation_reconstruction.hpp
@@ -253,8 +253,6 @@ public:
                                         // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                         rhou_rec(i, j, k, 0, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
@@ -263,8 +261,6 @@ public:
                                                 ds(i_p, j_p, k_p, idim));
                                         rhou_rec(i, j, k, 1, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
diff --git a/src/hydro/godunov_scheme.hpp b/src/hydro/godunov_scheme.hpp
index 881ba76..f3986e2 100644
--- a/src/hydro/godunov_scheme.hpp
+++ b/src/hydro/godunov_scheme.hpp
@@ -229,8 +229,6 @@ public:
                                     // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                     rhou_new(i, j, k, idim) += source_grad_u_th(
                                             dtodv,
-                                            x1(j),
-                                            x1(j + 1),
                                             primL.rho,
                                             primR.rho,
                                             primL.u[2],
diff --git a/src/hydro/source_terms.hpp b/src/hydro/source_terms.hpp
index 1f90d87..39211af 100644
--- a/src/hydro/source_terms.hpp
+++ b/src/hydro/source_terms.hpp
@@ -50,10 +50,9 @@ auto source_grad_u_idir_r(
 
 // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
 KOKKOS_FORCEINLINE_FUNCTION
-auto source_grad_u_th(double dtodv, double x1, double x1_p, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
+auto source_grad_u_th(double dtodv, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
 {
-    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (Kokkos::cos((x1 + x1_p) / 2) / Kokkos::sin((x1 + x1_p) / 2))
-           * (dS_p - dS) / 2;
+    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (dS_p - dS);
 }
 
 // Velocity term (e_{phi}): cot(th) * rho * u_{phi} * u_{th} / r
-- 
2.43.0


From 99aa91aa42c7a66b0847ab475771afcd1443aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 17/21] fix: scalar of the lower fluid in rayleigh_taylor

---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From fb435ffb68ec8cedae1d2a568636bc0e2e8c2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 18/21] fix: amplitude of the perturbation in rayleigh_taylor

---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index dc1b03b..a0a80e2 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -81,7 +81,7 @@ public:
                 KOKKOS_LAMBDA(int i, int j, int k) {
                     double const x = xc(i);
                     double const y = yc(j);
-                    double const h = 0.01 * Kokkos::cos(4 * Kokkos::numbers::pi * x);
+                    double const h = param_setup.A * Kokkos::cos(4 * Kokkos::numbers::pi * x);
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-- 
2.43.0


From 7767192ba79e235d87b667ff5b546bdcb461941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 19/21] fix: mean performance of a restarted run

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 3f621cb..29ea43b 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -345,6 +345,8 @@ void main(int argc, char** argv)
 
     double const initial_mass = integrate(grid.range.no_ghosts(), grid, rho(device, read_only));
 
+    int const initial_iter = iter;
+
     Kokkos::fence("HERACLES++: before main time loop");
     MPI_Barrier(grid.comm_cart);
     std::chrono::steady_clock::time_point const start = std::chrono::steady_clock::now();
@@ -574,7 +576,7 @@ void main(int argc, char** argv)
         double const ny_glob_ng = grid.Nx_glob_ng[1];
         double const nz_glob_ng = grid.Nx_glob_ng[2];
         double const nb_cells = nx_glob_ng * ny_glob_ng * nz_glob_ng;
-        double const nb_iter = iter;
+        double const nb_iter = iter - initial_iter;
         double const duration = std::chrono::duration<double>(end - start).count();
         double const nb_cell_updates_per_sec = nb_iter * nb_cells / duration;
         double const mega = 1E-6;
-- 
2.43.0


From 3e6196203b30db4faf5c79662fbb52722bfbf4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:07 +0000
Subject: [PATCH 20/21] fix: free the horizontal communicator of the grid

---
 src/mesh/grid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/grid.cpp b/src/mesh/grid.cpp
index 7f61394..5905fdd 100644
--- a/src/mesh/grid.cpp
+++ b/src/mesh/grid.cpp
@@ -78,6 +78,9 @@ Grid::Grid(std::array<int, 3> const& nx_glob_ng, std::array<int, 3> const& mpi_d
 
 Grid::~Grid() noexcept
 {
+    if (comm_cart_horizontal != MPI_COMM_NULL) {
+        MPI_Comm_free(&comm_cart_horizontal);
+    }
     if (comm_cart != MPI_COMM_NULL) {
         MPI_Comm_free(&comm_cart);
     }
-- 
2.43.0


From 20af9f4988c6bedd687729fafd2aadf6f1d35685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:05 +0000
Subject: [PATCH 21/21] fix: refuse an undefined user boundary on every process

The error of the default BoundarySetup was raised by execute(), which only
the processes at the border call: the others waited for them for ever. The
boundary is built by every process, and only when the input file asks for
it: raise the error there.
---
 src/default_boundary_setup.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/default_boundary_setup.hpp b/src/default_boundary_setup.hpp
index 4c36cfd..ed2b301 100644
--- a/src/default_boundary_setup.hpp
+++ b/src/default_boundary_setup.hpp
@@ -20,7 +20,12 @@ template <class Gravity>
 class BoundarySetup : public IBoundaryCondition<Gravity>
 {
 public:
-    BoundarySetup(int idim, int iface, EOS const& /*eos*/, ParamSetup const& /*param_setup*/) : IBoundaryCondition<Gravity>(idim, iface) {}
+    // All the processes build the boundary but only those at the border execute it:
+    // the error is raised here, otherwise the others would wait for them.
+    BoundarySetup(int idim, int iface, EOS const& /*eos*/, ParamSetup const& /*param_setup*/) : IBoundaryCondition<Gravity>(idim, iface)
+    {
+        throw std::runtime_error("Boundary setup not implemented");
+    }
 
     void execute(
             Grid const& /*grid*/,
-- 
2.43.0

