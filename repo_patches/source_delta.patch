From b45a7d2ce44703b511be62edf5a4729d131ca966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 01/20] fix: do not add the previous patch's values again for
 an empty patch in fast_ap

The copy data of a WorkStream worker is reused.  Returning early for an
agglomerate without a boundary layer left the previous patch's rows in it, and
the copier added them to the delta correction matrix a second time.
---
 source/dealii/dealii_hierarchy_helpers.cc             | 3 +++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 39bc2ce..7b7350e 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -140,6 +140,9 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
                                                  patch_to_global_map);
             if (patch_to_global_map.empty())
             {
+              // The copy data is reused from one patch to the next: do not
+              // hand the previous patch's values to the copier once more.
+              local_copy_data.rows.clear();
               return;
             }
 
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index bc3cb36..8f886d7 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -140,6 +140,9 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
             *agglomerate_it, agglomerate_triangulation, patch_to_global_map);
         if (patch_to_global_map.empty())
         {
+          // The copy data is reused from one patch to the next: do not
+          // hand the previous patch's values to the copier once more.
+          local_copy_data.rows.clear();
           return;
         }
 
-- 
2.43.0


From 2496472302830ae213538c3f9ee9ae24f74dd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 02/20] fix: list every process's file in the master record of
 the agglomerate output

---
 include/mfmg/common/amge.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 9601b98..afc66a0 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -262,7 +262,7 @@ void AMGe<dim, VectorType>::output(std::string const &filename) const
         dealii::Utilities::MPI::n_mpi_processes(_comm);
     std::vector<std::string> full_filenames(comm_size);
     for (unsigned int i = 0; i < comm_size; ++i)
-      full_filenames[0] = filename + std::to_string(i) + ".vtu";
+      full_filenames[i] = filename + std::to_string(i) + ".vtu";
     std::ofstream master_output(filename + ".pvtu");
     data_out.write_pvtu_record(master_output, full_filenames);
   }
-- 
2.43.0


From cdb4c13b0255c0c51c3f5bedc22f378815b4d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 03/20] fix: flag the cells for block agglomerates
 independently of earlier user indices

---
 include/mfmg/common/amge.templates.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index afc66a0..78803af 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -419,6 +419,12 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
   unsigned int constexpr y_p = 3;
   unsigned int constexpr z_p = 5;
 
+  // Forget the agglomerates of a previous call (or whatever else is stored in
+  // the user indices): zero means that a cell has not been flagged yet.
+  for (auto cell : _dof_handler.active_cell_iterators())
+    if (cell->is_locally_owned())
+      cell->clear_user_index();
+
   // Flag the cells to create the agglomerates
   unsigned int agglomerate = 1;
   for (auto cell : _dof_handler.active_cell_iterators())
-- 
2.43.0


From bc65dde48f83cd760a3350a55b121f0940f69df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 04/20] fix: do not enter ARPACK from several threads at once

---
 include/mfmg/dealii/amge_host.templates.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 214e999..056e317 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -29,6 +29,8 @@
 
 #include <EpetraExt_MatrixMatrix.h>
 
+#include <mutex>
+
 namespace mfmg
 {
 
@@ -427,6 +429,10 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     // Compute the eigenvectors. Arpack outputs eigenvectors with a L2 norm of
     // one.
     solver.set_initial_vector(initial_vector);
+    // ARPACK keeps the state of its iteration in static variables and
+    // agglomerates are processed concurrently.
+    static std::mutex arpack_mutex;
+    std::lock_guard<std::mutex> arpack_lock(arpack_mutex);
     solver.solve(agglomerate_system_matrix, agglomerate_mass_matrix,
                  inv_system_matrix, eigenvalues, eigenvectors);
   }
-- 
2.43.0


From e8f8eb1aaf8c615e117c11adea4b6b7198bf56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 05/20] fix: search all the eigenvalues of an agglomerate with
 LAPACK

---
 include/mfmg/dealii/amge_host.templates.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 056e317..0272e16 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -456,7 +456,10 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     full_matrix.copy_from(agglomerate_system_matrix);
 
     double const lower_bound = -0.5;
-    double const upper_bound = 100.;
+    // All the eigenvalues have to be in the search interval. Otherwise, there
+    // may be less than n_eigenvectors of them.
+    double const upper_bound =
+        std::max(100., 1.01 * full_matrix.linfty_norm());
     double const tol = 1e-12;
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
-- 
2.43.0


From 4dadfe3f31ff09e3cc14156017772f672702df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 06/20] fix: refuse an unusable eigensolver type on every
 process

---
 include/mfmg/dealii/amge_host.templates.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 0272e16..9c49d9d 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -131,6 +131,20 @@ AMGe_host<dim, MeshEvaluator, VectorType>::AMGe_host(
     : AMGe<dim, VectorType>(comm, dof_handler),
       _eigensolver_params(eigensolver_params)
 {
+  // Refuse an eigensolver that we cannot use here, on every process. Later, in
+  // the loop over the agglomerates, a process without agglomerates would not
+  // notice and would be left alone in the collective operations that follow.
+  bool constexpr matrix_free = is_matrix_free<MeshEvaluator>::value;
+  auto const eigensolver_type = _eigensolver_params.get<std::string>(
+      "type", matrix_free ? "lanczos" : "arpack");
+  bool const direct =
+      (eigensolver_type == "arpack") || (eigensolver_type == "lapack");
+  ASSERT_THROW((eigensolver_type == "lanczos") ||
+                   (eigensolver_type == "anasazi") || direct,
+               "Unknown eigensolver type '" + eigensolver_type + "'");
+  ASSERT_THROW(!(direct && matrix_free),
+               "Eigensolver type '" + eigensolver_type +
+                   "' is not available in matrix-free mode");
 }
 } // namespace mfmg
 
-- 
2.43.0


From fe494aa5d4802b944f936581977353a8f8991095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 07/20] fix: do not take cells away from an agglomerate that is
 already built

---
 include/mfmg/common/amge.templates.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 78803af..c18d0a1 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -425,8 +425,16 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
     if (cell->is_locally_owned())
       cell->clear_user_index();
 
-  // Flag the cells to create the agglomerates
+  // A cell is left alone if it belongs to another process or if it is already
+  // part of another agglomerate. The latter happens when the mesh, or the part
+  // of it owned by this process, is not a regular lattice of cells.
   unsigned int agglomerate = 1;
+  auto const is_available = [&agglomerate](auto const &cell) {
+    return cell->is_locally_owned() && ((cell->user_index() == 0) ||
+                                        (cell->user_index() == agglomerate));
+  };
+
+  // Flag the cells to create the agglomerates
   for (auto cell : _dof_handler.active_cell_iterators())
   {
     if ((cell->is_locally_owned()) && (cell->user_index() == 0))
@@ -456,7 +464,7 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
                   (neighbor_cell->level() != cell_level))
                 throw std::runtime_error("Mesh locally refined");
 #endif
-              if (neighbor_cell->is_locally_owned())
+              if (is_available(neighbor_cell))
                 current_cell = neighbor_cell;
             }
             else
@@ -465,7 +473,7 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
           if (current_y_cell->at_boundary(y_p) == false)
           {
             auto neighbor_y_cell = current_y_cell->neighbor(y_p);
-            if (neighbor_y_cell->is_locally_owned())
+            if (is_available(neighbor_y_cell))
             {
 #if MFMG_DEBUG
               if ((!neighbor_y_cell->active()) ||
@@ -481,7 +489,7 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
         if ((dim == 3) && (current_z_cell->at_boundary(z_p) == false))
         {
           auto neighbor_z_cell = current_z_cell->neighbor(z_p);
-          if (neighbor_z_cell->is_locally_owned())
+          if (is_available(neighbor_z_cell))
           {
 #if MFMG_DEBUG
             if ((!neighbor_z_cell->active()) ||
-- 
2.43.0


From 9f0bd59e65a68bfe4daa20522aee6a87faa82c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 08/20] fix: do not enter Anasazi from several threads at once

---
 include/mfmg/dealii/anasazi.templates.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/mfmg/dealii/anasazi.templates.hpp b/include/mfmg/dealii/anasazi.templates.hpp
index f751be0..268ea35 100644
--- a/include/mfmg/dealii/anasazi.templates.hpp
+++ b/include/mfmg/dealii/anasazi.templates.hpp
@@ -21,9 +21,23 @@
 #include <AnasaziBasicEigenproblem.hpp>
 #include <AnasaziFactory.hpp>
 
+#include <mutex>
+
 namespace mfmg
 {
 
+/// \brief Mutex protecting the calls to Anasazi
+///
+/// The solvers of Anasazi register their timers in a container shared by all
+/// the solvers of the program. This container is not protected against
+/// concurrent accesses. The mutex is shared by all the instantiations of
+/// AnasaziSolver for the same reason.
+inline std::mutex &anasazi_mutex()
+{
+  static std::mutex mutex;
+  return mutex;
+}
+
 /// \brief Anasazi solver: constructor
 template <typename OperatorType, typename VectorType>
 AnasaziSolver<OperatorType, VectorType>::AnasaziSolver(OperatorType const &op)
@@ -40,6 +54,8 @@ AnasaziSolver<OperatorType, VectorType>::solve(
     std::vector<std::shared_ptr<VectorType>> const &initial_guess) const
 {
   using MultiVectorType = MultiVector<VectorType>;
+  std::lock_guard<std::mutex> anasazi_lock(anasazi_mutex());
+
   const int n_eigenvectors = params.get<int>("number of eigenvectors");
 
   Anasazi::BasicEigenproblem<double, MultiVectorType, OperatorType> problem;
-- 
2.43.0


From 91168fd60e111e4049343705cbd8a00eaf6e8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 09/20] fix: let ARPACK iterate until convergence and work on
 small agglomerates

---
 include/mfmg/dealii/amge_host.templates.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 9c49d9d..d0871e6 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -428,8 +428,15 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::SparseDirectUMFPACK inv_system_matrix;
     inv_system_matrix.initialize(agglomerate_system_matrix);
 
-    dealii::SolverControl solver_control(n_dofs_agglomerate, tolerance);
-    unsigned int const n_arnoldi_vectors = 2 * n_eigenvectors + 2;
+    // If ARPACK does not converge within the maximum number of iterations, the
+    // vectors that it returns are not eigenvectors and, in release mode, nobody
+    // complains. The size of the agglomerate alone is a too tight limit: there
+    // are agglomerates with only a few unknowns.
+    unsigned int const max_iterations = std::max(n_dofs_agglomerate, 1000u);
+    dealii::SolverControl solver_control(max_iterations, tolerance);
+    // ARPACK cannot use more Arnoldi vectors than there are unknowns
+    unsigned int const n_arnoldi_vectors =
+        std::min(2 * n_eigenvectors + 2, n_dofs_agglomerate);
     bool const symmetric = true;
     // We want the eigenvalues of the smallest magnitudes but we need to ask
     // for the ones with the largest magnitudes because they are computed for
-- 
2.43.0


From ea621cb756b729696b8b81039f655fc737a879d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 10/20] fix: forget earlier user indices on the cells of other
 processes too

---
 include/mfmg/common/amge.templates.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index c18d0a1..4ddef18 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -55,6 +55,14 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates(
   std::string partitioner_type = ptree.get<std::string>("partitioner");
   std::transform(partitioner_type.begin(), partitioner_type.end(),
                  partitioner_type.begin(), ::tolower);
+
+  // Forget the agglomerates of a previous call (or whatever else is stored in
+  // the user indices): zero means that a cell is not part of an agglomerate.
+  // This includes the cells that are not locally owned: they may have been
+  // before the mesh was repartitioned.
+  for (auto cell : _dof_handler.active_cell_iterators())
+    cell->clear_user_index();
+
   if ((partitioner_type == "zoltan") || (partitioner_type == "metis"))
   {
 #ifdef DEAL_II_TRILINOS_WITH_ZOLTAN
@@ -419,12 +427,6 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
   unsigned int constexpr y_p = 3;
   unsigned int constexpr z_p = 5;
 
-  // Forget the agglomerates of a previous call (or whatever else is stored in
-  // the user indices): zero means that a cell has not been flagged yet.
-  for (auto cell : _dof_handler.active_cell_iterators())
-    if (cell->is_locally_owned())
-      cell->clear_user_index();
-
   // A cell is left alone if it belongs to another process or if it is already
   // part of another agglomerate. The latter happens when the mesh, or the part
   // of it owned by this process, is not a regular lattice of cells.
-- 
2.43.0


From ee991aeaafe403554678468deafceae2b0f96239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 11/20] fix: restart LOBPCG from the user's vector when the
 recycled ones break it down

---
 include/mfmg/dealii/amge_host.templates.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index d0871e6..c202f89 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -282,6 +282,19 @@ void anasazi_compute_eigenvalues_and_eigenvectors(
   }
   std::tie(real_eigenvalues, eigenvectors) =
       solver.solve(eigensolver_params, lobpcg_initial_guess);
+
+  // LOBPCG breaks down without any result when the vectors it starts from are
+  // already eigenvectors, e.g., when they come from an identical agglomerate.
+  // In that case, start again from the vector provided by the user.
+  if ((eigenvectors.size() < n_eigenvectors) &&
+      (lobpcg_initial_guess.size() > 1))
+  {
+    lobpcg_initial_guess.resize(1);
+    lobpcg_initial_guess[0] =
+        std::make_shared<dealii::Vector<double>>(initial_guess);
+    std::tie(real_eigenvalues, eigenvectors) =
+        solver.solve(eigensolver_params, lobpcg_initial_guess);
+  }
   ASSERT(n_eigenvectors == eigenvectors.size(),
          "Wrong number of computed eigenpairs");
 
-- 
2.43.0


From 9af438f0998d53481e1c01b412fb0080a0ee0111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 12/20] fix: keep the constrained unknowns out of the
 eigenvectors of stiff agglomerates

---
 include/mfmg/dealii/amge_host.templates.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index c202f89..7e34b14 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -416,10 +416,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   for (unsigned int i = 0; i < size; ++i)
     agglomerate_system_matrix.diag_element(i) += average_diagonal;
   // Shift diagonal entries for constrained degrees of freedom, to avoid
-  // using the corresponding eigenvectors
+  // using the corresponding eigenvectors. No eigenvalue is larger than the norm
+  // of the matrix.
+  double const constrained_diagonal =
+      std::max(200., 2. * agglomerate_system_matrix.linfty_norm());
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
-    agglomerate_system_matrix.diag_element(constraint.index) = 200;
+    agglomerate_system_matrix.diag_element(constraint.index) =
+        constrained_diagonal;
   }
 
   // Compute the eigenvalues and the eigenvectors
-- 
2.43.0


From da9b7f60c7b19883d51e243d3f0f414ffddecde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 13/20] fix: let LAPACK find the eigenvectors of agglomerates
 in any units

---
 include/mfmg/dealii/amge_host.templates.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 7e34b14..3540f38 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -418,8 +418,8 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   // Shift diagonal entries for constrained degrees of freedom, to avoid
   // using the corresponding eigenvectors. No eigenvalue is larger than the norm
   // of the matrix.
-  double const constrained_diagonal =
-      std::max(200., 2. * agglomerate_system_matrix.linfty_norm());
+  double const matrix_norm = agglomerate_system_matrix.linfty_norm();
+  double const constrained_diagonal = std::max(200., 2. * matrix_norm);
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
     agglomerate_system_matrix.diag_element(constraint.index) =
@@ -489,15 +489,20 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else if (eigensolver_type == "lapack")
   {
-    // Use Lapack to compute the eigenvalues
+    // Use Lapack to compute the eigenvalues. The search interval and the
+    // tolerance are absolute: normalize the matrix so that they suit any choice
+    // of units.
+    double const scaling = (matrix_norm > 0.) ? matrix_norm : 1.;
     dealii::LAPACKFullMatrix<double> full_matrix;
     full_matrix.copy_from(agglomerate_system_matrix);
+    for (auto const constraint : agglomerate_constraints.get_lines())
+      full_matrix(constraint.index, constraint.index) = 2. * scaling;
+    full_matrix /= scaling;
 
     double const lower_bound = -0.5;
     // All the eigenvalues have to be in the search interval. Otherwise, there
     // may be less than n_eigenvectors of them.
-    double const upper_bound =
-        std::max(100., 1.01 * full_matrix.linfty_norm());
+    double const upper_bound = 1.01 * full_matrix.linfty_norm();
     double const tol = 1e-12;
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
@@ -506,7 +511,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
 
     // Copy the eigenvalues and the eigenvectors in the right format
     for (unsigned int i = 0; i < n_eigenvectors; ++i)
-      eigenvalues[i] = lapack_eigenvalues[i];
+      eigenvalues[i] = scaling * lapack_eigenvalues[i];
 
     for (unsigned int i = 0; i < n_eigenvectors; ++i)
       for (unsigned int j = 0; j < n_dofs_agglomerate; ++j)
-- 
2.43.0


From b79360511cb5b054d1493e7fe67eb34e2099d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 14/20] fix: do not go on with less eigenvectors than requested

---
 include/mfmg/dealii/amge_host.templates.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 3540f38..47e4ae7 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -214,8 +214,8 @@ void lanczos_compute_eigenvalues_and_eigenvectors(
   std::vector<double> real_eigenvalues;
   std::tie(real_eigenvalues, eigenvectors) =
       solver.solve(lanczos_params, initial_guess);
-  ASSERT(n_eigenvectors == eigenvectors.size(),
-         "Wrong number of computed eigenpairs");
+  ASSERT_THROW(n_eigenvectors == eigenvectors.size(),
+               "Wrong number of computed eigenpairs");
 
   // Copy real eigenvalues to complex
   std::copy(real_eigenvalues.begin(), real_eigenvalues.end(),
@@ -295,8 +295,8 @@ void anasazi_compute_eigenvalues_and_eigenvectors(
     std::tie(real_eigenvalues, eigenvectors) =
         solver.solve(eigensolver_params, lobpcg_initial_guess);
   }
-  ASSERT(n_eigenvectors == eigenvectors.size(),
-         "Wrong number of computed eigenpairs");
+  ASSERT_THROW(n_eigenvectors == eigenvectors.size(),
+               "Wrong number of computed eigenpairs");
 
   // Copy real eigenvalues to complex
   std::copy(real_eigenvalues.begin(), real_eigenvalues.end(),
-- 
2.43.0


From 13acb7ed3671d9c5b87c2f393a1158b8231a3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 15/20] fix: miss a mandatory parameter of the eigensolver on
 every process

---
 include/mfmg/dealii/amge_host.templates.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 47e4ae7..68650c0 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -145,6 +145,19 @@ AMGe_host<dim, MeshEvaluator, VectorType>::AMGe_host(
   ASSERT_THROW(!(direct && matrix_free),
                "Eigensolver type '" + eigensolver_type +
                    "' is not available in matrix-free mode");
+
+  // Likewise for the parameters that do not have a default value
+  if (eigensolver_type == "anasazi")
+  {
+    _eigensolver_params.get<int>("number of eigenvectors");
+    _eigensolver_params.get<double>("tolerance");
+  }
+  else if ((eigensolver_type == "lanczos") &&
+           _eigensolver_params.get("is_deflated", false))
+  {
+    _eigensolver_params.get<int>("num_cycles");
+    _eigensolver_params.get<int>("num_eigenpairs_per_cycle");
+  }
 }
 } // namespace mfmg
 
-- 
2.43.0


From 19fbf2ecb5ffe0c1850f6ded8b34ede6ee716b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 16/20] fix: keep the small entries of coarse operators in
 small units

---
 include/mfmg/dealii/dealii_utils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/dealii_utils.hpp b/include/mfmg/dealii/dealii_utils.hpp
index 76b70e6..afe3413 100644
--- a/include/mfmg/dealii/dealii_utils.hpp
+++ b/include/mfmg/dealii/dealii_utils.hpp
@@ -16,6 +16,8 @@
 #include <deal.II/lac/trilinos_sparse_matrix.h>
 #include <deal.II/lac/trilinos_vector.h>
 
+#include <algorithm>
+#include <cmath>
 #include <string>
 
 namespace mfmg
@@ -57,6 +59,9 @@ matrix_transpose_matrix_multiply(
                                                tmp->get_mpi_communicator());
     A.apply(src, dst);
 
+    // What is negligible depends on the scale of the operator.
+    double const epsilon = 1e-14 * std::min(1., dst.linfty_norm());
+
     // NOTE: getting an error that the index set is not compressed when calling
     // IndexSet::index_within_set() directly on dst.locally_owned_elements() so
     // ended up making a copy and calling IndexSet::compress() on it.  Not sure
@@ -69,7 +74,7 @@ matrix_transpose_matrix_multiply(
       if (local_i != dealii::numbers::invalid_dof_index)
       {
         auto const value = dst[i];
-        if (std::abs(value) > 1e-14) // is that an appropriate epsilon?
+        if (std::abs(value) > epsilon)
         {
           C->set(i, j, value);
         }
-- 
2.43.0


From 209acc5cbcef7fbd7a5e15129819d6948efa3be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 17/20] fix: give ARPACK enough vectors to converge on small
 agglomerates

---
 include/mfmg/dealii/amge_host.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 68650c0..423a1c9 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -466,7 +466,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::SolverControl solver_control(max_iterations, tolerance);
     // ARPACK cannot use more Arnoldi vectors than there are unknowns
     unsigned int const n_arnoldi_vectors =
-        std::min(2 * n_eigenvectors + 2, n_dofs_agglomerate);
+        std::min(std::max(2 * n_eigenvectors + 2, 20u), n_dofs_agglomerate);
     bool const symmetric = true;
     // We want the eigenvalues of the smallest magnitudes but we need to ask
     // for the ones with the largest magnitudes because they are computed for
-- 
2.43.0


From ef7e0b95aadc909b695bfd8332a08b1e4f195997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 18/20] fix: refuse a hierarchy without levels in release mode
 too

---
 include/mfmg/common/hierarchy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 24811ac..eeb8ca4 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -170,8 +170,9 @@ public:
 
     // TODO: add stopping criteria for levels (number of levels / coarse size)
     int const num_levels = params->get("max levels", 2);
-    ASSERT(num_levels > 0, "number of levels specified by \"max levels\" "
-                           "parameter must be positive");
+    ASSERT_THROW(num_levels > 0,
+                 "number of levels specified by \"max levels\" "
+                 "parameter must be positive");
     _levels.resize(num_levels);
 
     _levels[0].set_operator(hierarchy_helpers->get_global_operator(evaluator));
-- 
2.43.0


From 8ded0f87ed1a2b75fac0433d86940c4f767343d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 19/20] fix: refuse a Lanczos solve that cannot find the
 eigenvectors asked for

---
 include/mfmg/common/lanczos.templates.hpp | 29 +++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 93d654e..d326afc 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -97,9 +97,12 @@ Lanczos<OperatorType, VectorType>::solve(
     num_cycles = params.get<int>("num_cycles");
   }
 
-  ASSERT(num_cycles >= 1, "Number of cycles must be positive");
-  ASSERT(num_evecs_per_cycle >= 1,
-         "Number of computed eigenpairs per cycle must be positive");
+  ASSERT_THROW(num_cycles >= 1, "Number of cycles must be positive");
+  ASSERT_THROW(num_evecs_per_cycle >= 1,
+               "Number of computed eigenpairs per cycle must be positive");
+  ASSERT_THROW(num_cycles * num_evecs_per_cycle >= n_eigenvectors,
+               "Not enough Lanczos cycles to produce required number of "
+               "eigenvectors.");
 
   std::vector<double> evals;
   std::vector<VectorType> evecs;
@@ -187,11 +190,12 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   double const tol = params.get<double>("tolerance");
   int const percent_overshoot = params.get<int>("percent_overshoot", 0);
 
-  ASSERT(0 <= percent_overshoot && percent_overshoot < 100,
-         "Lanczos overshoot percentage should be in [0, 100)");
-  ASSERT(tol >= 0., "Lanczos tolerance must be non-negative");
-  ASSERT(maxit >= num_requested, "Lanczos max iterations is too small to "
-                                 "produce required number of eigenvectors.");
+  ASSERT_THROW(0 <= percent_overshoot && percent_overshoot < 100,
+               "Lanczos overshoot percentage should be in [0, 100)");
+  ASSERT_THROW(tol >= 0., "Lanczos tolerance must be non-negative");
+  ASSERT_THROW(maxit >= num_requested,
+               "Lanczos max iterations is too small to "
+               "produce required number of eigenvectors.");
 
   int const n = op.n();
 
@@ -276,8 +280,9 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   }
   it = it < maxit ? it : maxit;
 
-  ASSERT(it >= num_requested,
-         "Internal error: required number of iterations not reached");
+  // Spurious and redundant eigenpairs do not count
+  ASSERT_THROW(evals.size() == static_cast<size_t>(num_requested),
+               "Lanczos did not find the required number of eigenvectors");
 
   // Calculate full operator eigenvectors from tridiagonal eigenvectors.
   // ISSUE: may be needed to modify this code to not save all Lanczos vectors
@@ -462,6 +467,10 @@ bool Lanczos<OperatorType, VectorType>::details_check_convergence(
   if (num_evecs < num_requested)
     return false;
 
+  // There may be fewer once the spurious and the redundant ones are purged
+  if (evecs.empty())
+    return false;
+
   bool is_converged = true;
 
   // Terminate if every approximate eigenvalue has converged to tolerance
-- 
2.43.0


From f86d03fa31610a9bbb9ab6d15925cae717625622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 20/20] fix: refuse more eigenvectors than Lanczos or an
 agglomerate can provide

---
 include/mfmg/dealii/amge_host.templates.hpp | 26 +++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 423a1c9..27e609a 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -152,11 +152,25 @@ AMGe_host<dim, MeshEvaluator, VectorType>::AMGe_host(
     _eigensolver_params.get<int>("number of eigenvectors");
     _eigensolver_params.get<double>("tolerance");
   }
-  else if ((eigensolver_type == "lanczos") &&
-           _eigensolver_params.get("is_deflated", false))
+  else if (eigensolver_type == "lanczos")
   {
-    _eigensolver_params.get<int>("num_cycles");
-    _eigensolver_params.get<int>("num_eigenpairs_per_cycle");
+    int const n_eigenvectors =
+        _eigensolver_params.get("number of eigenvectors", 1);
+    int n_eigenvectors_per_cycle = n_eigenvectors;
+    if (_eigensolver_params.get("is_deflated", false))
+    {
+      int const n_cycles = _eigensolver_params.get<int>("num_cycles");
+      n_eigenvectors_per_cycle =
+          _eigensolver_params.get<int>("num_eigenpairs_per_cycle");
+      ASSERT_THROW((n_cycles >= 1) && (n_eigenvectors_per_cycle >= 1) &&
+                       (n_cycles * n_eigenvectors_per_cycle >= n_eigenvectors),
+                   "Not enough Lanczos cycles to produce required number of "
+                   "eigenvectors.");
+    }
+    ASSERT_THROW(_eigensolver_params.get("max_iterations", 200) >=
+                     n_eigenvectors_per_cycle,
+                 "Lanczos max iterations is too small to produce required "
+                 "number of eigenvectors.");
   }
 }
 } // namespace mfmg
@@ -345,6 +359,8 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
 
   // Compute the eigenvalues and the eigenvectors
   unsigned int const n_dofs_agglomerate = agglomerate_operator.m();
+  ASSERT_THROW(n_eigenvectors <= n_dofs_agglomerate,
+               "An agglomerate has less unknowns than required eigenvectors");
   std::vector<std::complex<double>> eigenvalues(n_eigenvectors);
   std::vector<dealii::Vector<double>> eigenvectors(
       n_eigenvectors, dealii::Vector<double>(n_dofs_agglomerate));
@@ -441,6 +457,8 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
 
   // Compute the eigenvalues and the eigenvectors
   unsigned int const n_dofs_agglomerate = agglomerate_system_matrix.m();
+  ASSERT_THROW(n_eigenvectors <= n_dofs_agglomerate,
+               "An agglomerate has less unknowns than required eigenvectors");
   std::vector<std::complex<double>> eigenvalues(n_eigenvectors);
   // Arpack only works with double not float
   std::vector<dealii::Vector<double>> eigenvectors(
-- 
2.43.0

