From 50ddcedc800dcd5a9e69e233c7b105a6259dc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 01/23] fix: forget the previous agglomerates when building
 block agglomerates

The cells flagged by a previous call were skipped, a second call to
build_agglomerates() therefore created no (or too few) agglomerates.
---
 include/mfmg/common/amge.templates.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 9601b98..cc1cf5c 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -419,6 +419,12 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
   unsigned int constexpr y_p = 3;
   unsigned int constexpr z_p = 5;
 
+  // Remove the flags left by a previous call, otherwise the cells would not be
+  // part of any new agglomerate
+  for (auto cell : _dof_handler.active_cell_iterators())
+    if (cell->is_locally_owned())
+      cell->set_user_index(0);
+
   // Flag the cells to create the agglomerates
   unsigned int agglomerate = 1;
   for (auto cell : _dof_handler.active_cell_iterators())
-- 
2.43.0


From fbf82f1c7fe535559c49a479235c1f1b4ac6ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 02/23] fix: block agglomerates do not take cells from each
 other

On unstructured meshes an agglomerate could lose all its cells to a later one
and the eigenproblem was then solved on an empty triangulation.
---
 include/mfmg/common/amge.templates.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index cc1cf5c..b2d941c 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -445,7 +445,10 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
           auto current_cell = current_y_cell;
           for (unsigned int i = 0; i < agglomerate_dim[0]; ++i)
           {
-            current_cell->set_user_index(agglomerate);
+            // Do not take cells away from another agglomerate, it could lose
+            // all its cells
+            if (current_cell->user_index() == 0)
+              current_cell->set_user_index(agglomerate);
             if (current_cell->at_boundary(x_p) == false)
             {
               // TODO For now, we assume that there is no adaptive refinement.
-- 
2.43.0


From f9ac6eda86f9ec95e986d703b500435a28458800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 03/23] fix: the pvtu file lists the files of all the
 processors

---
 include/mfmg/common/amge.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index b2d941c..c702030 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -262,7 +262,7 @@ void AMGe<dim, VectorType>::output(std::string const &filename) const
         dealii::Utilities::MPI::n_mpi_processes(_comm);
     std::vector<std::string> full_filenames(comm_size);
     for (unsigned int i = 0; i < comm_size; ++i)
-      full_filenames[0] = filename + std::to_string(i) + ".vtu";
+      full_filenames[i] = filename + std::to_string(i) + ".vtu";
     std::ofstream master_output(filename + ".pvtu");
     data_out.write_pvtu_record(master_output, full_filenames);
   }
-- 
2.43.0


From e178f754ead458449ae601b64a84bfe9725eb3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 04/23] fix: deflated Lanczos returns the smallest of the
 computed eigenpairs

The list of eigenpairs was truncated before it was sorted, which dropped
eigenpairs smaller than the ones that were returned.
---
 include/mfmg/common/lanczos.templates.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 93d654e..4e8068c 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -145,25 +145,22 @@ Lanczos<OperatorType, VectorType>::solve(
     }
   }
 
-  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors
-  evals.resize(n_eigenvectors);
-  evecs.resize(n_eigenvectors);
-
   // Sort eigenvalues in ascending order if we run multiple Lanczos
   // The reason is that while each Lanczos solve produces sorted eigenvalues,
   // they may be the same, and thus need to be interleaved
   if (num_cycles > 1)
   {
-    std::vector<double> sorted_evals(n_eigenvectors);
-    std::vector<VectorType> sorted_evecs(n_eigenvectors);
+    int const n_computed = evals.size();
+    std::vector<double> sorted_evals(n_computed);
+    std::vector<VectorType> sorted_evecs(n_computed);
 
     // Compute permutation for ascending order
-    std::vector<int> perm_index(n_eigenvectors);
+    std::vector<int> perm_index(n_computed);
     std::iota(perm_index.begin(), perm_index.end(), 0);
     std::sort(perm_index.begin(), perm_index.end(),
               [&](int i, int j) { return evals[i] < evals[j]; });
 
-    for (int i = 0; i < n_eigenvectors; i++)
+    for (int i = 0; i < n_computed; i++)
     {
       sorted_evals[i] = evals[perm_index[i]];
       sorted_evecs[i] = evecs[perm_index[i]];
@@ -172,6 +169,11 @@ Lanczos<OperatorType, VectorType>::solve(
     evecs = sorted_evecs;
   }
 
+  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors. This
+  // has to be done on the sorted eigenpairs to keep the smallest ones.
+  evals.resize(n_eigenvectors);
+  evecs.resize(n_eigenvectors);
+
   return std::make_tuple(evals, evecs);
 }
 
-- 
2.43.0


From ecbe65cd64c0ae72b0f5fbb9084c7c0865c1e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 05/23] fix: Lanczos throws when it cannot compute the
 requested eigenpairs

It read out of bounds, returned NaNs or padded the eigenpairs with zeros.
---
 include/mfmg/common/lanczos.templates.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 4e8068c..ec50257 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -100,6 +100,8 @@ Lanczos<OperatorType, VectorType>::solve(
   ASSERT(num_cycles >= 1, "Number of cycles must be positive");
   ASSERT(num_evecs_per_cycle >= 1,
          "Number of computed eigenpairs per cycle must be positive");
+  ASSERT_THROW(num_cycles * num_evecs_per_cycle >= n_eigenvectors,
+               "Lanczos cycles compute fewer eigenpairs than requested");
 
   std::vector<double> evals;
   std::vector<VectorType> evecs;
@@ -221,7 +223,8 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   for (int it_prev_check = 0; it <= maxit; ++it)
   {
     // Normalize lanczos vector
-    ASSERT(beta, "Internal error"); // TODO: set up better check for near-zero
+    // TODO: set up better check for near-zero
+    ASSERT_THROW(beta > 0., "Lanczos vector cannot be normalized");
 
     lanc_vectors[it - 1] /= beta;
 
@@ -256,7 +259,9 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
     bool const max_iterations_reached = (it == maxit);
     bool const percent_overshoot_exceeded =
         (100 * (it - it_prev_check) > percent_overshoot * it_prev_check);
-    if (first_iteration || max_iterations_reached || percent_overshoot_exceeded)
+    bool const krylov_space_exhausted = (beta == 0.);
+    if (first_iteration || max_iterations_reached ||
+        percent_overshoot_exceeded || krylov_space_exhausted)
     {
       int const dim_hessenberg = it;
       ASSERT((size_t)dim_hessenberg == main_diagonal.size(), "Internal error");
@@ -266,20 +271,27 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
       std::tie(evals, evecs_tridiag) = details_calc_tridiag_epairs(
           main_diagonal, sub_diagonal, num_requested);
 
-      if (details_check_convergence(beta, dim_hessenberg, num_requested, tol,
+      // There are no eigenpairs if too few of them are available
+      if (!evals.empty() &&
+          details_check_convergence(beta, dim_hessenberg, num_requested, tol,
                                     evecs_tridiag))
       {
         break;
       }
 
+      if (krylov_space_exhausted)
+      {
+        break;
+      }
+
       // Record iteration number when this check done
       it_prev_check = it;
     }
   }
   it = it < maxit ? it : maxit;
 
-  ASSERT(it >= num_requested,
-         "Internal error: required number of iterations not reached");
+  ASSERT_THROW(evals.size() == static_cast<size_t>(num_requested),
+               "Lanczos could not compute the requested number of eigenpairs");
 
   // Calculate full operator eigenvectors from tridiagonal eigenvectors.
   // ISSUE: may be needed to modify this code to not save all Lanczos vectors
-- 
2.43.0


From 682d6d0f6094e16854d845b2904407158580573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 06/23] fix: MvAddMv supports an output which aliases its
 second operand

The operand was overwritten before it was used.
---
 include/mfmg/dealii/anasazi_traits.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/anasazi_traits.hpp b/include/mfmg/dealii/anasazi_traits.hpp
index b946542..70df8b4 100644
--- a/include/mfmg/dealii/anasazi_traits.hpp
+++ b/include/mfmg/dealii/anasazi_traits.hpp
@@ -161,8 +161,16 @@ public:
 
     for (int i = 0; i < n_vectors; i++)
     {
-      *mv[i] = *A[i];
-      (*mv[i]).sadd(alpha, beta, *B[i]);
+      // mv is allowed to be A or B
+      if (mv[i] == B[i])
+      {
+        (*mv[i]).sadd(beta, alpha, *A[i]);
+      }
+      else
+      {
+        *mv[i] = *A[i];
+        (*mv[i]).sadd(alpha, beta, *B[i]);
+      }
     }
   }
 
-- 
2.43.0


From f61bd5ef3e98fedd7cb80bf7258c8252b5bc40cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 07/23] fix: ptree2plist escapes the characters reserved in XML

Names and values with <, >, &, " could not be converted or were altered.
---
 source/common/utils.cc | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/source/common/utils.cc b/source/common/utils.cc
index ffdb0a1..847820d 100644
--- a/source/common/utils.cc
+++ b/source/common/utils.cc
@@ -17,6 +17,36 @@
 
 namespace mfmg
 {
+// Replace the characters which cannot be part of an XML attribute
+static std::string escape_xml(std::string const &str)
+{
+  std::string escaped;
+  for (char const c : str)
+  {
+    switch (c)
+    {
+    case '&':
+      escaped += "&amp;";
+      break;
+    case '<':
+      escaped += "&lt;";
+      break;
+    case '>':
+      escaped += "&gt;";
+      break;
+    case '"':
+      escaped += "&quot;";
+      break;
+    case '\'':
+      escaped += "&apos;";
+      break;
+    default:
+      escaped += c;
+    }
+  }
+  return escaped;
+}
+
 static std::ostream &
 ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
 {
@@ -28,7 +58,8 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
     bool child_is_sublist = !item.second.empty();
     if (child_is_sublist)
     {
-      os << "<ParameterList name=\"" << item.first << "\">" << std::endl;
+      os << "<ParameterList name=\"" << escape_xml(item.first) << "\">"
+         << std::endl;
       ptree2plist_internal(item.second, os);
       os << "</ParameterList>" << std::endl;
     }
@@ -54,8 +85,8 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
         value_type = "string";
       }
 
-      os << "<Parameter name=\"" << item.first << "\" type=\"" << value_type
-         << "\" value=\"" << value << "\"/>" << std::endl;
+      os << "<Parameter name=\"" << escape_xml(item.first) << "\" type=\""
+         << value_type << "\" value=\"" << escape_xml(value) << "\"/>" << std::endl;
     }
   }
   return os;
-- 
2.43.0


From 06f02ebb1dc7eb8f045834e7be142657ff6d91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:42 +0000
Subject: [PATCH 08/23] fix: the Anasazi solver throws when it does not
 converge

ASSERT is a no-op unless MFMG_DEBUG is set: without it, an unconverged solve
silently returned fewer eigenpairs than requested (often none).
---
 include/mfmg/dealii/anasazi.templates.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/anasazi.templates.hpp b/include/mfmg/dealii/anasazi.templates.hpp
index f751be0..0c69254 100644
--- a/include/mfmg/dealii/anasazi.templates.hpp
+++ b/include/mfmg/dealii/anasazi.templates.hpp
@@ -73,7 +73,8 @@ AnasaziSolver<OperatorType, VectorType>::solve(
                                          solverParams);
 
   Anasazi::ReturnType rr = solver->solve();
-  ASSERT(rr == Anasazi::Converged, "Anasazi could not solve the problem");
+  ASSERT_THROW(rr == Anasazi::Converged,
+               "Anasazi could not solve the problem");
 
   // Extract solution
   Anasazi::Eigensolution<double, MultiVectorType> solution =
-- 
2.43.0


From 94c544c8df924d9b47d4cf8eb2988ed5ae8d8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 09/23] fix: deflated Lanczos keeps the Lanczos vectors
 deflated

The three-term recurrence amplifies the roundoff in the directions which have
been deflated until copies of the deflated subspace show up as eigenpairs, with
wrong eigenvectors.
---
 include/mfmg/common/lanczos.templates.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index ec50257..d1dd76c 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -250,6 +250,10 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
 
     lanc_vectors[it].add(-alpha, lanc_vectors[it - 1]);
 
+    // Deflating the result of the operator is not enough: the recurrence
+    // amplifies the roundoff in the directions which have been deflated.
+    op.deflate(lanc_vectors[it]);
+
     beta = lanc_vectors[it].l2_norm(); // = tridiag_{it+1,it}
 
     // Check convergence if requested
-- 
2.43.0


From 15ac09a9e82f2aa47cc21ea903e9d105f53f99a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 10/23] fix: the tolerance for spurious Lanczos eigenvalues is
 relative

The roundoff in the eigenvalues is proportional to the norm of the operator.
With the absolute tolerance, the smallest eigenvalues of an operator of norm
1e3 were purged as spurious and their copies were returned as new ones.
---
 include/mfmg/common/lanczos.templates.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index d1dd76c..30f2747 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -360,8 +360,11 @@ Lanczos<OperatorType, VectorType>::details_calc_tridiag_epairs(
   // revisions of the simplified algorithm implemented here.
 
   // The following tolerance may need adjustment, however this doesn't
-  // seem critical (cf. C/W vol. 1). Cullum/Willoughby use 1e-12.
-  double const tol2 = 5.e-12;
+  // seem critical (cf. C/W vol. 1). Cullum/Willoughby use 1e-12. The roundoff
+  // in the eigenvalues is proportional to the norm of the matrix, so the
+  // tolerance has to be too.
+  double const tol2 =
+      5.e-12 * std::max(std::abs(evals.front()), std::abs(evals.back()));
 
   // Identify repeated eigenvalues.
   // A "marked" eigenvalue here is nonrepeated or first of a set of repeated.
-- 
2.43.0


From a5422b75f3522c080ce6f6315a1230f231eedaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 11/23] fix: the parameters of ML augment the SA defaults

ptree2plist replaces the list it is given: as soon as there was one user
parameter (Hierarchy always adds one when there is one level), the smoothed
aggregation defaults were lost.
---
 source/dealii/dealii_solver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index b77e22a..ce2586a 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -58,7 +58,9 @@ DealIISolver<VectorType>::DealIISolver(
       if (ml_tree)
       {
         // Augment with user provided parameters
-        ptree2plist(*ml_tree, ml_params);
+        Teuchos::ParameterList user_params;
+        ptree2plist(*ml_tree, user_params);
+        ml_params.setParameters(user_params);
       }
 
       _smoother.reset(new dealii::TrilinosWrappers::PreconditionAMG());
-- 
2.43.0


From 87a8971eff24ba2a1386e2d693d163a6190bb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 12/23] fix: the product A B^T drops the entries relatively to
 the operator

An absolute threshold of 1e-14 loses the coarse operator of problems with small
coefficients.
---
 include/mfmg/dealii/dealii_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/dealii_utils.hpp b/include/mfmg/dealii/dealii_utils.hpp
index 76b70e6..1758991 100644
--- a/include/mfmg/dealii/dealii_utils.hpp
+++ b/include/mfmg/dealii/dealii_utils.hpp
@@ -57,6 +57,9 @@ matrix_transpose_matrix_multiply(
                                                tmp->get_mpi_communicator());
     A.apply(src, dst);
 
+    // The entries are only roundoff with respect to the size of the column
+    double const threshold = 1e-14 * dst.linfty_norm();
+
     // NOTE: getting an error that the index set is not compressed when calling
     // IndexSet::index_within_set() directly on dst.locally_owned_elements() so
     // ended up making a copy and calling IndexSet::compress() on it.  Not sure
@@ -69,7 +72,7 @@ matrix_transpose_matrix_multiply(
       if (local_i != dealii::numbers::invalid_dof_index)
       {
         auto const value = dst[i];
-        if (std::abs(value) > 1e-14) // is that an appropriate epsilon?
+        if (std::abs(value) > threshold)
         {
           C->set(i, j, value);
         }
-- 
2.43.0


From a63120134a9ece5a345bb47d89413b2027d514a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 13/23] fix: ARPACK iterates until it converges and throws when
 it does not

The number of iterations was limited to the number of degrees of freedom of
the agglomerate, with a Krylov space of four vectors for one eigenvector.
When ARPACK hit the limit, deal.II in release mode silently returned zero
eigenvalues and vectors of the Krylov basis.
---
 include/mfmg/dealii/amge_host.templates.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 214e999..4b3620f 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -412,8 +412,15 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::SparseDirectUMFPACK inv_system_matrix;
     inv_system_matrix.initialize(agglomerate_system_matrix);
 
-    dealii::SolverControl solver_control(n_dofs_agglomerate, tolerance);
-    unsigned int const n_arnoldi_vectors = 2 * n_eigenvectors + 2;
+    // Small agglomerates need more restarts than they have degrees of freedom,
+    // and clustered eigenvalues need a Krylov space that is large enough.
+    unsigned int const max_iterations =
+        std::max<unsigned int>(n_dofs_agglomerate, 1000);
+    unsigned int const n_arnoldi_vectors =
+        std::max<unsigned int>(2 * n_eigenvectors + 2,
+                               std::min<unsigned int>(n_dofs_agglomerate - 1,
+                                                      20));
+    dealii::SolverControl solver_control(max_iterations, tolerance);
     bool const symmetric = true;
     // We want the eigenvalues of the smallest magnitudes but we need to ask
     // for the ones with the largest magnitudes because they are computed for
@@ -429,6 +436,11 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     solver.set_initial_vector(initial_vector);
     solver.solve(agglomerate_system_matrix, agglomerate_mass_matrix,
                  inv_system_matrix, eigenvalues, eigenvectors);
+
+    // deal.II reports the failures of ARPACK only in debug mode. When it fails,
+    // ARPACK leaves the number of iterations at the limit.
+    ASSERT_THROW(solver_control.last_step() < max_iterations,
+                 "ARPACK did not converge");
   }
   else if (eigensolver_type == "lanczos")
   {
-- 
2.43.0


From 01ba263605b2b60c84755f35ba17cd19d0a553d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:03 +0000
Subject: [PATCH 14/23] fix: the bounds for the local eigenvalues scale with
 the operator

The diagonal of the constrained degrees of freedom and the window given to
LAPACK were absolute. With a large coefficient the eigenvectors of the
constrained degrees of freedom were selected and LAPACK did not find enough
eigenvalues, which was not checked.
---
 include/mfmg/dealii/amge_host.templates.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 4b3620f..cdd3577 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -387,10 +387,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   for (unsigned int i = 0; i < size; ++i)
     agglomerate_system_matrix.diag_element(i) += average_diagonal;
   // Shift diagonal entries for constrained degrees of freedom, to avoid
-  // using the corresponding eigenvectors
+  // using the corresponding eigenvectors. The norm of the matrix bounds its
+  // eigenvalues.
+  double const max_eigenvalue = agglomerate_system_matrix.linfty_norm();
+  double const constrained_diagonal = std::max(200., 2. * max_eigenvalue);
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
-    agglomerate_system_matrix.diag_element(constraint.index) = 200;
+    agglomerate_system_matrix.diag_element(constraint.index) =
+        constrained_diagonal;
   }
 
   // Compute the eigenvalues and the eigenvectors
@@ -460,15 +464,22 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     // Use Lapack to compute the eigenvalues
     dealii::LAPACKFullMatrix<double> full_matrix;
     full_matrix.copy_from(agglomerate_system_matrix);
+    // The accuracy is relative to the largest eigenvalue
+    for (auto const constraint : agglomerate_constraints.get_lines())
+      full_matrix(constraint.index, constraint.index) = 2. * max_eigenvalue;
 
     double const lower_bound = -0.5;
-    double const upper_bound = 100.;
-    double const tol = 1e-12;
+    double const upper_bound = 1.5 * max_eigenvalue;
+    double const tol = 1e-14 * max_eigenvalue;
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
     full_matrix.compute_eigenvalues_symmetric(
         lower_bound, upper_bound, tol, lapack_eigenvalues, lapack_eigenvectors);
 
+    ASSERT_THROW(lapack_eigenvalues.size() >= n_eigenvectors,
+                 "LAPACK found less than " + std::to_string(n_eigenvectors) +
+                     " eigenvectors");
+
     // Copy the eigenvalues and the eigenvectors in the right format
     for (unsigned int i = 0; i < n_eigenvectors; ++i)
       eigenvalues[i] = lapack_eigenvalues[i];
-- 
2.43.0


From af6b2bc712fd3194e79a9e9db278a31d533b37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 15/23] fix: LOBPCG in matrix-free mode starts from vectors
 that satisfy the constraints

Anasazi completed the initial guess with random vectors: eigenvectors of the
constrained degrees of freedom were returned, because their eigenvalues are in
the spectrum in matrix-free mode.
---
 include/mfmg/dealii/amge_host.templates.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index cdd3577..6f2431b 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -29,6 +29,8 @@
 
 #include <EpetraExt_MatrixMatrix.h>
 
+#include <random>
+
 namespace mfmg
 {
 
@@ -319,10 +321,25 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else if (eigensolver_type == "anasazi")
   {
+    // Anasazi completes the initial guess with random vectors which do not
+    // satisfy the constraints. Unlike in the matrix-based mode, the eigenvalues
+    // of the constrained degrees of freedom are not moved away from the wanted
+    // ones. Thus, we need to provide all the vectors; the entries of the
+    // constrained degrees of freedom are zeroed out later.
+    auto lobpcg_init_guess = scratch_data.lobpcg_init_guess;
+    if (lobpcg_init_guess.empty() ||
+        lobpcg_init_guess[0].size() != initial_vector.size())
+    {
+      lobpcg_init_guess.assign(n_eigenvectors, initial_vector);
+      std::mt19937 gen(1337);
+      std::uniform_real_distribution<double> dist(0., 1.);
+      for (unsigned int i = 1; i < n_eigenvectors; ++i)
+        for (auto &value : lobpcg_init_guess[i])
+          value = dist(gen);
+    }
     anasazi_compute_eigenvalues_and_eigenvectors(
         n_eigenvectors, _eigensolver_params, agglomerate_operator,
-        initial_vector, scratch_data.lobpcg_init_guess, eigenvalues,
-        eigenvectors);
+        initial_vector, lobpcg_init_guess, eigenvalues, eigenvectors);
   }
   else if (eigensolver_type == "arpack")
   {
-- 
2.43.0


From 3beddb9878f76db0dd288dc1462310d293c9e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:35 +0000
Subject: [PATCH 16/23] fix: fast_ap does not add the data of the previous
 patch for an empty patch

The worker returned early for an agglomerate without neighbors and the copier
added the data of the patch handled before once more.
---
 source/dealii/dealii_hierarchy_helpers.cc             | 2 ++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 39bc2ce..18ea79d 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
                                                  patch_to_global_map);
             if (patch_to_global_map.empty())
             {
+              // The data of the previous patch has already been copied.
+              local_copy_data.rows.clear();
               return;
             }
 
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index bc3cb36..133f289 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
             *agglomerate_it, agglomerate_triangulation, patch_to_global_map);
         if (patch_to_global_map.empty())
         {
+          // The data of the previous patch has already been copied.
+          local_copy_data.rows.clear();
           return;
         }
 
-- 
2.43.0


From 4df27dabaadefc70657e9d943e4f7fd78954f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 17/23] fix: LAPACK is asked for the accuracy which it
 recommends

With a larger tolerance the inverse iteration of dsyevx fails to converge for
clustered eigenvalues, and the setup of the local problems throws.
---
 include/mfmg/dealii/amge_host.templates.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 6f2431b..3348191 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -29,6 +29,7 @@
 
 #include <EpetraExt_MatrixMatrix.h>
 
+#include <limits>
 #include <random>
 
 namespace mfmg
@@ -481,13 +482,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     // Use Lapack to compute the eigenvalues
     dealii::LAPACKFullMatrix<double> full_matrix;
     full_matrix.copy_from(agglomerate_system_matrix);
-    // The accuracy is relative to the largest eigenvalue
     for (auto const constraint : agglomerate_constraints.get_lines())
       full_matrix(constraint.index, constraint.index) = 2. * max_eigenvalue;
 
     double const lower_bound = -0.5;
     double const upper_bound = 1.5 * max_eigenvalue;
-    double const tol = 1e-14 * max_eigenvalue;
+    // The accuracy recommended by LAPACK. With a larger one the inverse iteration
+    // fails for clustered eigenvalues.
+    double const tol = 2. * std::numeric_limits<double>::min();
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
     full_matrix.compute_eigenvalues_symmetric(
-- 
2.43.0


From df261fd14d7a4ec1ff9d1b54a83d67df2aba5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 18/23] fix: the calls to ARPACK are serialized

ARPACK is not reentrant but the local eigenvalue problems are solved by several
threads when the number of threads is not limited to one: memory corruption and
hangs.
---
 include/mfmg/dealii/amge_host.templates.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 3348191..f19c2b3 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -30,6 +30,7 @@
 #include <EpetraExt_MatrixMatrix.h>
 
 #include <limits>
+#include <mutex>
 #include <random>
 
 namespace mfmg
@@ -44,6 +45,15 @@ struct Identity
   }
 };
 
+/**
+ * ARPACK is not reentrant, this mutex serializes the calls.
+ */
+inline std::mutex &arpack_mutex()
+{
+  static std::mutex mutex;
+  return mutex;
+}
+
 /**
  * A class representing the operator on a given agglomerate
  * wrapping a MeshEvaluator object to restrict the interface
@@ -456,6 +466,9 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     // Compute the eigenvectors. Arpack outputs eigenvectors with a L2 norm of
     // one.
     solver.set_initial_vector(initial_vector);
+    // ARPACK keeps its state in static variables while the agglomerates are
+    // worked on by several threads.
+    std::lock_guard<std::mutex> lock(arpack_mutex());
     solver.solve(agglomerate_system_matrix, agglomerate_mass_matrix,
                  inv_system_matrix, eigenvalues, eigenvectors);
 
-- 
2.43.0


From d7a9856efbe271da3458eae5203eda4f4a7665d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 19/23] fix: levels, smoothers and solvers which cannot work
 are refused in release mode

No level at all, more than two levels or the coarse solver as the only one with
a matrix-free evaluator led to invalid memory accesses.
---
 include/mfmg/common/hierarchy.hpp            | 4 ++--
 source/dealii/dealii_matrix_free_smoother.cc | 6 +++---
 source/dealii/dealii_smoother.cc             | 2 +-
 source/dealii/dealii_solver.cc               | 3 +++
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 24811ac..7e6153a 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -170,8 +170,8 @@ public:
 
     // TODO: add stopping criteria for levels (number of levels / coarse size)
     int const num_levels = params->get("max levels", 2);
-    ASSERT(num_levels > 0, "number of levels specified by \"max levels\" "
-                           "parameter must be positive");
+    ASSERT_THROW(num_levels > 0, "number of levels specified by \"max levels\" "
+                                 "parameter must be positive");
     _levels.resize(num_levels);
 
     _levels[0].set_operator(hierarchy_helpers->get_global_operator(evaluator));
diff --git a/source/dealii/dealii_matrix_free_smoother.cc b/source/dealii/dealii_matrix_free_smoother.cc
index 6031ed3..3f03101 100644
--- a/source/dealii/dealii_matrix_free_smoother.cc
+++ b/source/dealii/dealii_matrix_free_smoother.cc
@@ -25,9 +25,9 @@ DealIIMatrixFreeSmoother<dim, VectorType>::DealIIMatrixFreeSmoother(
 
   auto matrix_free_operator =
       std::dynamic_pointer_cast<operator_type const>(this->_operator);
-  ASSERT(matrix_free_operator != nullptr,
-         "DealIIMartixFreeSmoother must be constructed from a "
-         "DealIIMatrixFreeOperator");
+  ASSERT_THROW(matrix_free_operator != nullptr,
+               "DealIIMartixFreeSmoother must be constructed from a "
+               "DealIIMatrixFreeOperator");
 
   std::transform(prec_name.begin(), prec_name.end(), prec_name.begin(),
                  ::tolower);
diff --git a/source/dealii/dealii_smoother.cc b/source/dealii/dealii_smoother.cc
index a5c9197..d3adb69 100644
--- a/source/dealii/dealii_smoother.cc
+++ b/source/dealii/dealii_smoother.cc
@@ -29,7 +29,7 @@ DealIISmoother<VectorType>::DealIISmoother(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
-  ASSERT(
+  ASSERT_THROW(
       trilinos_operator != nullptr,
       "DealIISmoother must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index ce2586a..852b795 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -34,6 +34,9 @@ DealIISolver<VectorType>::DealIISolver(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
+  ASSERT_THROW(
+      trilinos_operator != nullptr,
+      "DealIISolver must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
   // Make parameters case-insensitive
   std::string coarse_type_lower = coarse_type;
-- 
2.43.0


From d31e79b1e256d1df2e97522a6c1b3093e27f69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 20/23] fix: products with operators which have no matrix are
 refused

The downcast operand was used without a check.
---
 source/dealii/dealii_matrix_free_operator.cc     | 2 ++
 source/dealii/dealii_trilinos_matrix_operator.cc | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/source/dealii/dealii_matrix_free_operator.cc b/source/dealii/dealii_matrix_free_operator.cc
index 9abfc7b..8badf02 100644
--- a/source/dealii/dealii_matrix_free_operator.cc
+++ b/source/dealii/dealii_matrix_free_operator.cc
@@ -101,6 +101,8 @@ DealIIMatrixFreeOperator<dim, VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The operand must be a DealIITrilinosMatrixOperator");
 
   auto tmp = this->build_range_vector();
   auto b_mat = downcast_b->get_matrix();
diff --git a/source/dealii/dealii_trilinos_matrix_operator.cc b/source/dealii/dealii_trilinos_matrix_operator.cc
index bce586a..07371a3 100644
--- a/source/dealii/dealii_trilinos_matrix_operator.cc
+++ b/source/dealii/dealii_trilinos_matrix_operator.cc
@@ -61,6 +61,8 @@ DealIITrilinosMatrixOperator<VectorType>::multiply(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The operand must be a DealIITrilinosMatrixOperator");
 
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
@@ -80,6 +82,8 @@ DealIITrilinosMatrixOperator<VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The operand must be a DealIITrilinosMatrixOperator");
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
   auto c_mat = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>(
-- 
2.43.0


From aa53754059ec660b1d8cb94d4ab220847230f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 21/23] fix: serialize the calls of Anasazi

The agglomerates are worked on by several threads, but Anasazi starts and stops
timers that are shared by all of them: the stacked timer of Teuchos throws when
the timers of two threads interleave, which ends the program.
---
 include/mfmg/dealii/amge_host.templates.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index f19c2b3..108efe7 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -54,6 +54,16 @@ inline std::mutex &arpack_mutex()
   return mutex;
 }
 
+/**
+ * Anasazi uses global timers and is not thread-safe, this mutex serializes the
+ * calls.
+ */
+inline std::mutex &anasazi_mutex()
+{
+  static std::mutex mutex;
+  return mutex;
+}
+
 /**
  * A class representing the operator on a given agglomerate
  * wrapping a MeshEvaluator object to restrict the interface
@@ -229,6 +239,7 @@ void anasazi_compute_eigenvalues_and_eigenvectors(
     std::vector<std::complex<double>> &eigenvalues,
     std::vector<dealii::Vector<double>> &eigenvectors)
 {
+  std::lock_guard<std::mutex> lock(anasazi_mutex());
   AnasaziSolver<AgglomerateOperator, dealii::Vector<double>> solver(
       agglomerate_operator);
 
-- 
2.43.0


From 465065e4951a538132738eef8c17e31e8b37903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 22/23] fix: refuse unknown eigensolvers in release mode

ASSERT does nothing in release mode and the restrictor was built from zero
vectors.
---
 include/mfmg/dealii/amge_host.templates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 108efe7..dec2cc4 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -375,7 +375,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Compute the map between the local and the global dof indices.
@@ -533,7 +533,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Shift eigenvalues back
-- 
2.43.0


From c5ffa788c9a3789cae92c03b3551c90d9cc1f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 23/23] fix: write the small entries of matrices

By default, deal.II drops all the entries below 1e-13 when a matrix is copied to
a Trilinos matrix.
---
 source/dealii/dealii_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dealii/dealii_utils.cc b/source/dealii/dealii_utils.cc
index 9cc5c39..0f3670f 100644
--- a/source/dealii/dealii_utils.cc
+++ b/source/dealii/dealii_utils.cc
@@ -74,7 +74,8 @@ void matrix_market_output_file(std::string const &filename,
                                dealii::SparseMatrix<double> const &matrix)
 {
   dealii::TrilinosWrappers::SparseMatrix trilinos_matrix;
-  trilinos_matrix.reinit(matrix);
+  // Write all the entries, also the small ones
+  trilinos_matrix.reinit(matrix, 0.);
 
   matrix_market_output_file(filename, trilinos_matrix);
 }
-- 
2.43.0

