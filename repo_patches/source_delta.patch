From 5be896e75b150407f020fc58ac03d633c80f4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 01/28] fix: multistart returns a failed solve over a
 successful one

The comparator only preferred a successful left-hand side; with a failed
left-hand side it fell through to comparing costs, so a failed solve with a
lower cost beat a successful one.
---
 include/sleipnir/optimization/multistart.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..f1308e7 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -64,8 +64,10 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    const bool a_succeeded = a.status == ExitStatus::SUCCESS;
+    const bool b_succeeded = b.status == ExitStatus::SUCCESS;
+    if (a_succeeded != b_succeeded) {
+      return a_succeeded;
     }
 
     // Otherwise prioritize solution with lower cost
-- 
2.43.0


From ad236e0409623aa59ed35e9d5c9954625844cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 02/28] fix: solvers report success when the KKT error is NaN
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

If the cost or constraint values stayed finite but a gradient or Jacobian
became NaN at the new iterate (e.g., x√x at x = 0), NaN elements were dropped
by the max reductions or made the loop condition false, so the solver returned
SUCCESS at a non-optimal point. Nonfinite KKT conditions now give an infinite
error.
---
 .../optimization/solver/util/kkt_error.hpp    | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/kkt_error.hpp b/include/sleipnir/optimization/solver/util/kkt_error.hpp
index 1e391ad..4d10adb 100644
--- a/include/sleipnir/optimization/solver/util/kkt_error.hpp
+++ b/include/sleipnir/optimization/solver/util/kkt_error.hpp
@@ -3,6 +3,8 @@
 #pragma once
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 #include <Eigen/Core>
 #include <Eigen/SparseCore>
@@ -13,6 +15,32 @@
 
 namespace slp {
 
+namespace detail {
+
+/// Returns the ∞-norm of a KKT condition error divided by its scale factor, or
+/// infinity if either isn't finite.
+///
+/// NaNs compare false with everything, so they'd otherwise get dropped by the
+/// maximums used to compute the error or make it look like the error is below
+/// the solver's tolerance.
+///
+/// @tparam Scalar Scalar type.
+/// @param error KKT condition error.
+/// @param scale Scale factor.
+template <typename Scalar>
+Scalar scaled_inf_norm(const Eigen::Vector<Scalar, Eigen::Dynamic>& error,
+                       Scalar scale) {
+  using std::isfinite;
+
+  if (!isfinite(scale) || !error.allFinite()) {
+    return std::numeric_limits<Scalar>::infinity();
+  }
+
+  return error.template lpNorm<Eigen::Infinity>() / scale;
+}
+
+}  // namespace detail
+
 /// Type of KKT error to compute.
 enum class KKTErrorType {
   /// ∞-norm of scaled KKT condition errors.
@@ -33,7 +61,7 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g) {
   //   ∇f = 0
 
   if constexpr (T == KKTErrorType::INF_NORM_SCALED) {
-    return g.template lpNorm<Eigen::Infinity>();
+    return detail::scaled_inf_norm<Scalar>(g, Scalar(1));
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return g.template lpNorm<1>();
   }
@@ -68,8 +96,8 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
     // ‖∇f − Aₑᵀy‖_∞ / s_d
     // ‖cₑ‖_∞
     return std::max(
-        {(g - A_e.transpose() * y).template lpNorm<Eigen::Infinity>() / s_d,
-         c_e.template lpNorm<Eigen::Infinity>()});
+        {detail::scaled_inf_norm<Scalar>(g - A_e.transpose() * y, s_d),
+         detail::scaled_inf_norm<Scalar>(c_e, Scalar(1))});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return (g - A_e.transpose() * y).template lpNorm<1>() +
            c_e.template lpNorm<1>();
@@ -127,12 +155,11 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
     // ‖Sz − μe‖_∞ / s_c
     // ‖cₑ‖_∞
     // ‖cᵢ − s‖_∞
-    return std::max({(g - A_e.transpose() * y - A_i.transpose() * z)
-                             .template lpNorm<Eigen::Infinity>() /
-                         s_d,
-                     (S * z - μe).template lpNorm<Eigen::Infinity>() / s_c,
-                     c_e.template lpNorm<Eigen::Infinity>(),
-                     (c_i - s).template lpNorm<Eigen::Infinity>()});
+    return std::max({detail::scaled_inf_norm<Scalar>(
+                         g - A_e.transpose() * y - A_i.transpose() * z, s_d),
+                     detail::scaled_inf_norm<Scalar>(S * z - μe, s_c),
+                     detail::scaled_inf_norm<Scalar>(c_e, Scalar(1)),
+                     detail::scaled_inf_norm<Scalar>(c_i - s, Scalar(1))});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     const auto S = s.asDiagonal();
     const Eigen::Vector<Scalar, Eigen::Dynamic> μe =
-- 
2.43.0


From 4273b89fbd6a2066507176adf24c4d2b8286191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 03/28] fix: user's stop request is swallowed during
 feasibility restoration

Feasibility restoration treats a callback-requested stop as its own success
condition, so when a user's callback requested the stop, the solve carried on
instead of returning CALLBACK_REQUESTED_STOP.
---
 .../sleipnir/optimization/solver/interior_point.hpp    | 10 +++++++++-
 include/sleipnir/optimization/solver/sqp.hpp           | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..8adf5f5 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -732,8 +732,12 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -761,6 +765,10 @@ ExitStatus interior_point(
 #endif
                                           x, s, y, z, μ, iterations);
 
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..f8386ca 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -515,8 +515,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -536,6 +540,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       auto status = feasibility_restoration<Scalar>(matrices, callbacks,
                                                     options, x, y, iterations);
 
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
-- 
2.43.0


From 7251a73f326383740fb56c0fe5ae545b279c826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 04/28] fix: feasibility restoration ignores the solve's
 timeout and hides limits

The nested solve restarted the timeout clock, so a solve could take a multiple
of its timeout, and hitting the iteration or time limit inside of restoration
was reported as FEASIBILITY_RESTORATION_FAILED.
---
 include/sleipnir/optimization/solver/interior_point.hpp  | 8 +++++++-
 include/sleipnir/optimization/solver/sqp.hpp             | 9 +++++++--
 .../optimization/solver/util/feasibility_restoration.hpp | 8 ++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 8adf5f5..2c29f13 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -758,8 +758,14 @@ ExitStatus interior_point(
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
+      // Feasibility restoration counts against the solve's timeout
+      Options restoration_options = options;
+      restoration_options.timeout -=
+          std::chrono::steady_clock::now() - solve_start_time;
+
       auto status =
-          feasibility_restoration<Scalar>(matrices, callbacks, options,
+          feasibility_restoration<Scalar>(matrices, callbacks,
+                                          restoration_options,
 #ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
                                           bound_constraint_mask,
 #endif
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f8386ca..d5b6e31 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -537,8 +537,13 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
-      auto status = feasibility_restoration<Scalar>(matrices, callbacks,
-                                                    options, x, y, iterations);
+      // Feasibility restoration counts against the solve's timeout
+      Options restoration_options = options;
+      restoration_options.timeout -=
+          std::chrono::steady_clock::now() - solve_start_time;
+
+      auto status = feasibility_restoration<Scalar>(
+          matrices, callbacks, restoration_options, x, y, iterations);
 
       if (user_requested_stop) {
         return ExitStatus::CALLBACK_REQUESTED_STOP;
diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 2261215..a8ddf73 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -319,6 +319,10 @@ ExitStatus feasibility_restoration(
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
     return ExitStatus::LOCALLY_INFEASIBLE;
+  } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
+             status == ExitStatus::TIMEOUT) {
+    // The solve hit a user-configured limit
+    return status;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
   }
@@ -622,6 +626,10 @@ ExitStatus feasibility_restoration(
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
     return ExitStatus::LOCALLY_INFEASIBLE;
+  } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
+             status == ExitStatus::TIMEOUT) {
+    // The solve hit a user-configured limit
+    return status;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
   }
-- 
2.43.0


From d9dadc2fe5a293a2f435462cc28bceb11379822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 05/28] fix: feasible_ipm lets feasible inequality constraints
 become infeasible

Second-order corrections and the full-step fallback of the line search didn't
apply the feasible IPM slack rule, so they accepted steps that violated
inequality constraints that were already satisfied.
---
 .../optimization/solver/interior_point.hpp    | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 2c29f13..36d006f 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -508,15 +508,18 @@ ExitStatus interior_point(
     const Scalar D_ϕ =
         g.transpose() * step.p_x - μ * s.cwiseInverse().dot(step.p_s);
 
+    // If the inequality constraints are all feasible, prevent them from
+    // becoming infeasible again.
+    //
+    // See equation (19.30) in [1].
+    const bool keep_feasible =
+        options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all();
+
     // Loop until a step is accepted
     while (1) {
       trial_x = x + α * step.p_x;
       trial_c_i = matrices.c_i(trial_x);
-      if (options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all()) {
-        // If the inequality constraints are all feasible, prevent them from
-        // becoming infeasible again.
-        //
-        // See equation (19.30) in [1].
+      if (keep_feasible) {
         trial_s = trial_c_i;
       } else {
         trial_s = s + α * step.p_s;
@@ -631,6 +634,9 @@ ExitStatus interior_point(
           trial_f = matrices.f(trial_x);
           trial_c_e = matrices.c_e(trial_x);
           trial_c_i = matrices.c_i(trial_x);
+          if (keep_feasible) {
+            trial_s = trial_c_i;
+          }
 
           // Check whether filter accepts trial iterate
           FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};
@@ -700,13 +706,17 @@ ExitStatus interior_point(
         trial_f = matrices.f(trial_x);
         trial_c_e = matrices.c_e(trial_x);
         trial_c_i = matrices.c_i(trial_x);
+        if (keep_feasible) {
+          trial_s = trial_c_i;
+        }
 
         Scalar next_kkt_error = kkt_error<Scalar, KKTErrorType::ONE_NORM>(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e,
             matrices.A_i(trial_x), trial_c_i, trial_s, trial_y, trial_z, μ);
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        if (next_kkt_error <= Scalar(0.999) * current_kkt_error &&
+            (!keep_feasible || trial_c_i.cwiseGreater(Scalar(0)).all())) {
           // Accept step
           break;
         }
-- 
2.43.0


From 60aa50b2848a86d10502c5691a8a5de4c5e5e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 06/28] fix: expression pool hands out blocks too small for the
 scalar type

The pool is shared by expressions of every scalar type, but a chunk's block size
was set by whichever type allocated first, so larger expressions overlapped
each other (e.g., float, then long double). Keep a free list per block size.
---
 include/sleipnir/util/pool.hpp | 45 +++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 32c4495..d4ce5fc 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <utility>
 
 #include <gch/small_vector.hpp>
 
@@ -48,24 +49,25 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   [[nodiscard]]
   void* allocate(size_t bytes, [[maybe_unused]] size_t alignment =
                                    alignof(std::max_align_t)) {
-    if (m_free_list.empty()) {
-      add_chunk(bytes);
+    auto& free_list = free_list_for(bytes);
+    if (free_list.empty()) {
+      add_chunk(free_list, bytes);
     }
 
-    auto ptr = m_free_list.back();
-    m_free_list.pop_back();
+    auto ptr = free_list.back();
+    free_list.pop_back();
     return ptr;
   }
 
   /// Gives a block of memory back to the pool.
   ///
   /// @param p A pointer to the block of memory.
-  /// @param bytes Number of bytes in the block (unused).
+  /// @param bytes Number of bytes in the block.
   /// @param alignment Alignment of the block (unused).
   void deallocate(
-      void* p, [[maybe_unused]] size_t bytes,
+      void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
-    m_free_list.emplace_back(p);
+    free_list_for(bytes).emplace_back(p);
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -82,22 +84,43 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   ///
   /// @return The number of blocks from this pool resource that are in use.
   size_t blocks_in_use() const noexcept {
-    return m_buffer.size() * blocks_per_chunk - m_free_list.size();
+    size_t blocks_in_use = m_buffer.size() * blocks_per_chunk;
+    for (const auto& [block_size, free_list] : m_free_lists) {
+      blocks_in_use -= free_list.size();
+    }
+    return blocks_in_use;
   }
 
  private:
   gch::small_vector<std::unique_ptr<std::byte[]>> m_buffer;
-  gch::small_vector<void*> m_free_list;
+  // Free list for each block size
+  gch::small_vector<std::pair<size_t, gch::small_vector<void*>>> m_free_lists;
   size_t blocks_per_chunk;
 
+  /// Returns the free list for blocks with the given number of bytes.
+  ///
+  /// @param bytes_per_block Number of bytes in the block.
+  /// @return The free list.
+  gch::small_vector<void*>& free_list_for(size_t bytes_per_block) {
+    for (auto& [block_size, free_list] : m_free_lists) {
+      if (block_size == bytes_per_block) {
+        return free_list;
+      }
+    }
+
+    return m_free_lists.emplace_back(bytes_per_block, gch::small_vector<void*>{})
+        .second;
+  }
+
   /// Adds a memory chunk to the pool, partitions it into blocks with the given
   /// number of bytes, and appends pointers to them to the free list.
   ///
+  /// @param free_list The free list.
   /// @param bytes_per_block Number of bytes in the block.
-  void add_chunk(size_t bytes_per_block) {
+  void add_chunk(gch::small_vector<void*>& free_list, size_t bytes_per_block) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
-      m_free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
+      free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
   }
 };
-- 
2.43.0


From 5c6f6c6e98e9acb65753c8b676488f7318980d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 07/28] fix: spy files contain matrices that don't match their
 header

Feasibility restoration calls the iteration callbacks with the matrices of a
larger problem, so sparsity patterns with out-of-range coordinates were
recorded.
---
 include/sleipnir/optimization/problem.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index ccff8b9..5d514a9 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -463,6 +463,10 @@ class Problem {
             num_decision_variables);
         iteration_callbacks.push_back(
             [&](const IterationInfo<Scalar>& info) -> bool {
+              // Feasibility restoration's matrices don't match the file header
+              if (info.x.rows() != num_decision_variables) {
+                return false;
+              }
               H_spy->add(info.H);
               A_e_spy->add(info.A_e);
               return false;
@@ -586,6 +590,10 @@ class Problem {
             num_decision_variables);
         iteration_callbacks.push_back(
             [&](const IterationInfo<Scalar>& info) -> bool {
+              // Feasibility restoration's matrices don't match the file header
+              if (info.x.rows() != num_decision_variables) {
+                return false;
+              }
               H_spy->add(info.H);
               A_e_spy->add(info.A_e);
               A_i_spy->add(info.A_i);
-- 
2.43.0


From 1598573c0c3ef98d76c4758269b328dd40f82a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 08/28] fix: no-op solver reports success for violated constant
 constraints

A problem whose cost and constraints are all constant was always reported as
solved, even if a constraint was violated and nothing could satisfy it.
---
 include/sleipnir/optimization/problem.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index 5d514a9..6aecde7 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -309,6 +309,22 @@ class Problem {
         slp::println("\nInvoking no-op solver\n");
       }
 #endif
+
+      // Violated constant constraints can't be satisfied by any decision
+      // variables
+      const Scalar tolerance(options.tolerance);
+      for (auto& constraint : m_equality_constraints) {
+        const Scalar value = constraint.value();
+        if (!(value >= -tolerance && value <= tolerance)) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
+      for (auto& constraint : m_inequality_constraints) {
+        if (!(constraint.value() >= -tolerance)) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
+
       return ExitStatus::SUCCESS;
     }
 
-- 
2.43.0


From 074f28b04d7ef0a89291ff1647088885c4c2c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 09/28] fix: multiplier estimates of rank-deficient constraints
 used a failed factorization

The solve of a failed Eigen factorization reads uninitialized memory, so
multipliers after feasibility restoration depended on heap contents.
---
 .../util/lagrange_multiplier_estimate.hpp     | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
index b15962c..0ea1e20 100644
--- a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
+++ b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
@@ -39,9 +39,18 @@ Eigen::Vector<Scalar, Eigen::Dynamic> lagrange_multiplier_estimate(
   //   ∇f − Aₑᵀy = 0
   //   Aₑᵀy = ∇f
   //   y = (AₑAₑᵀ)⁻¹Aₑ∇f
-  return Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>>{A_e *
-                                                            A_e.transpose()}
-      .solve(A_e * g);
+  using DenseVector = Eigen::Vector<Scalar, Eigen::Dynamic>;
+
+  Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>> y_estimator{
+      A_e * A_e.transpose()};
+
+  // If Aₑ is rank-deficient, AₑAₑᵀ is singular and its factorization can't be
+  // used
+  if (y_estimator.info() != Eigen::Success) {
+    return DenseVector::Zero(A_e.rows());
+  }
+
+  return y_estimator.solve(A_e * g);
 }
 
 /// Estimates Lagrange multipliers for interior-point method.
@@ -105,6 +114,13 @@ LagrangeMultiplierEstimate<Scalar> lagrange_multiplier_estimate(
   DenseVector rhs = A_hat * rhs_temp;
 
   Eigen::SimplicialLDLT<SparseMatrix> yz_estimator{lhs};
+
+  // If Aₑ is rank-deficient, ÂÂᵀ is singular and its factorization can't be
+  // used
+  if (yz_estimator.info() != Eigen::Success) {
+    return {DenseVector::Zero(A_e.rows()), μ * s.cwiseInverse()};
+  }
+
   DenseVector sol = yz_estimator.solve(rhs);
   DenseVector y = sol.segment(0, A_e.rows());
   DenseVector z = sol.segment(A_e.rows(), s.rows());
-- 
2.43.0


From 9ea562333bc25e57da99e2aafac7c41f468faefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 10/28] fix: time spent entering feasibility restoration isn't
 counted against the timeout

The nested solve measured its own start, so whatever happened before that was
lost. Check the deadline of the solve itself instead.
---
 .../optimization/solver/interior_point.hpp    | 19 ++++++++++++-------
 include/sleipnir/optimization/solver/sqp.hpp  | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 36d006f..d511f3e 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -742,6 +742,13 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      // Feasibility restoration counts against the solve's timeout
+      bool timed_out = false;
+      callbacks.emplace_back([&](const IterationInfo<Scalar>&) {
+        timed_out = std::chrono::steady_clock::now() - solve_start_time >
+                    options.timeout;
+        return timed_out;
+      });
       bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
         callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
@@ -768,19 +775,17 @@ ExitStatus interior_point(
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
-      // Feasibility restoration counts against the solve's timeout
-      Options restoration_options = options;
-      restoration_options.timeout -=
-          std::chrono::steady_clock::now() - solve_start_time;
-
       auto status =
-          feasibility_restoration<Scalar>(matrices, callbacks,
-                                          restoration_options,
+          feasibility_restoration<Scalar>(matrices, callbacks, options,
 #ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
                                           bound_constraint_mask,
 #endif
                                           x, s, y, z, μ, iterations);
 
+      if (timed_out) {
+        return ExitStatus::TIMEOUT;
+      }
+
       if (user_requested_stop) {
         return ExitStatus::CALLBACK_REQUESTED_STOP;
       }
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index d5b6e31..d68890f 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -515,6 +515,13 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      // Feasibility restoration counts against the solve's timeout
+      bool timed_out = false;
+      callbacks.emplace_back([&](const IterationInfo<Scalar>&) {
+        timed_out = std::chrono::steady_clock::now() - solve_start_time >
+                    options.timeout;
+        return timed_out;
+      });
       bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
         callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
@@ -537,13 +544,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
-      // Feasibility restoration counts against the solve's timeout
-      Options restoration_options = options;
-      restoration_options.timeout -=
-          std::chrono::steady_clock::now() - solve_start_time;
+      auto status = feasibility_restoration<Scalar>(matrices, callbacks,
+                                                    options, x, y, iterations);
 
-      auto status = feasibility_restoration<Scalar>(
-          matrices, callbacks, restoration_options, x, y, iterations);
+      if (timed_out) {
+        return ExitStatus::TIMEOUT;
+      }
 
       if (user_requested_stop) {
         return ExitStatus::CALLBACK_REQUESTED_STOP;
-- 
2.43.0


From 38a717f7910e5583abf38e0b9f85431e9abe7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 11/28] fix: line search never ends when a slack variable
 becomes denormal

The fraction-to-the-boundary rule overflowed to an infinite step size.
---
 .../optimization/solver/util/fraction_to_the_boundary_rule.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp b/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp
index f48b158..85c2397 100644
--- a/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp
+++ b/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp
@@ -35,7 +35,8 @@ Scalar fraction_to_the_boundary_rule(
   Scalar α(1);
   for (int i = 0; i < x.rows(); ++i) {
     if (α * p(i) < -τ * x(i)) {
-      α = -τ / p(i) * x(i);
+      // τ/p could overflow, τx/p is at most 1
+      α = -τ * x(i) / p(i);
     }
   }
 
-- 
2.43.0


From a18c3548e48d52bdd75b711f19071f49c150d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 12/28] fix: steps with nonfinite cost or constraints are
 accepted

The filter let second-order corrections with NaN constraint violation through
if their cost decreased, and the full step accepted when the line search fails
was only checked for its KKT error, which doesn't include the cost.
---
 include/sleipnir/optimization/solver/interior_point.hpp | 6 ++++--
 include/sleipnir/optimization/solver/newton.hpp         | 8 +++++---
 include/sleipnir/optimization/solver/sqp.hpp            | 6 ++++--
 include/sleipnir/optimization/solver/util/filter.hpp    | 4 +++-
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index d511f3e..38eca00 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -714,8 +714,10 @@ ExitStatus interior_point(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e,
             matrices.A_i(trial_x), trial_c_i, trial_s, trial_y, trial_z, μ);
 
-        // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error &&
+        // If the step using αᵐᵃˣ reduced the KKT error and has a finite cost,
+        // accept it anyway
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error &&
             (!keep_feasible || trial_c_i.cwiseGreater(Scalar(0)).all())) {
           // Accept step
           break;
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 76304f0..fda0bcf 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -234,10 +234,12 @@ ExitStatus newton(
         Scalar next_kkt_error =
             kkt_error<Scalar, KKTErrorType::ONE_NORM>(matrices.g(trial_x));
 
-        // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
-          trial_f = matrices.f(trial_x);
+        trial_f = matrices.f(trial_x);
 
+        // If the step using αᵐᵃˣ reduced the KKT error and has a finite cost,
+        // accept it anyway
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index d68890f..ab7682b 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -493,8 +493,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
         Scalar next_kkt_error = kkt_error<Scalar, KKTErrorType::ONE_NORM>(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e, trial_y);
 
-        // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        // If the step using αᵐᵃˣ reduced the KKT error and has a finite cost,
+        // accept it anyway
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..8761c97 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -111,8 +111,10 @@ class Filter {
     using std::isfinite;
     using std::pow;
 
-    // Reject steps with nonfinite cost or constraint violation above maximum
+    // Reject steps with nonfinite cost, nonfinite constraint violation, or
+    // constraint violation above maximum
     if (!isfinite(trial_entry.cost) ||
+        !isfinite(trial_entry.constraint_violation) ||
         trial_entry.constraint_violation > max_constraint_violation) {
       return false;
     }
-- 
2.43.0


From d4262058ae89647722d97dc63dfbc4660fc7db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 13/28] fix: feasibility restoration reads scale factors an
 identity scaling doesn't have

---
 .../solver/util/feasibility_restoration.hpp      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index a8ddf73..d2cf48e 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -177,7 +177,10 @@ ExitStatus feasibility_restoration(
   // Inherit the parent problem's scaling for the constraints, and use no
   // scaling for the cost function since it has changed. The new rows introduced
   // are not scaled.
-  const ProblemScaling<Scalar> fr_scaling{Scalar(1), matrices.scaling.c_e,
+  const bool unscaled = matrices.scaling.is_identity();
+  const DenseVector d_c_e =
+      unscaled ? DenseVector{DenseVector::Ones(num_eq)} : matrices.scaling.c_e;
+  const ProblemScaling<Scalar> fr_scaling{Scalar(1), d_c_e,
                                           DenseVector::Ones(2 * num_eq)};
 
   InteriorPointMatrixCallbacks<Scalar> fr_matrix_callbacks{
@@ -427,11 +430,14 @@ ExitStatus feasibility_restoration(
   // Inherit the parent problem's scaling for the constraints, and use no
   // scaling for the cost function since it has changed. The new rows introduced
   // are not scaled.
+  const bool unscaled = matrices.scaling.is_identity();
+  const DenseVector d_c_e =
+      unscaled ? DenseVector{DenseVector::Ones(num_eq)} : matrices.scaling.c_e;
+  const DenseVector d_c_i = unscaled ? DenseVector{DenseVector::Ones(num_ineq)}
+                                     : matrices.scaling.c_i;
   DenseVector fr_d_c_i{c_i.rows() + 2 * num_eq + 2 * num_ineq};
-  fr_d_c_i << matrices.scaling.c_i,
-      DenseVector::Ones(2 * num_eq + 2 * num_ineq);
-  const ProblemScaling<Scalar> fr_scaling{Scalar(1), matrices.scaling.c_e,
-                                          fr_d_c_i};
+  fr_d_c_i << d_c_i, DenseVector::Ones(2 * num_eq + 2 * num_ineq);
+  const ProblemScaling<Scalar> fr_scaling{Scalar(1), d_c_e, fr_d_c_i};
 
   InteriorPointMatrixCallbacks<Scalar> fr_matrix_callbacks{
       static_cast<int>(fr_x.rows()),
-- 
2.43.0


From 5cd118e1e80dcc87af4665f9c3e35c2e3d86fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 14/28] fix: restoration converging to a feasible point is
 reported as local infeasibility

---
 .../solver/util/feasibility_restoration.hpp   | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index d2cf48e..c8841bc 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -321,6 +321,15 @@ ExitStatus feasibility_restoration(
 
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
+    // If restoration converged to a point that satisfies the constraints, the
+    // problem isn't infeasible; the normal solve's filter just rejects it
+    const Scalar tolerance(options.tolerance);
+    const DenseVector c_e_unscaled =
+        d_c_e.cwiseInverse().cwiseProduct(matrices.c_e(x));
+    if (c_e_unscaled.template lpNorm<Eigen::Infinity>() <= tolerance) {
+      return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
+    }
+
     return ExitStatus::LOCALLY_INFEASIBLE;
   } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
              status == ExitStatus::TIMEOUT) {
@@ -631,6 +640,18 @@ ExitStatus feasibility_restoration(
 
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
+    // If restoration converged to a point that satisfies the constraints, the
+    // problem isn't infeasible; the normal solve's filter just rejects it
+    const Scalar tolerance(options.tolerance);
+    const DenseVector c_e_unscaled =
+        d_c_e.cwiseInverse().cwiseProduct(matrices.c_e(x));
+    const DenseVector c_i_unscaled =
+        d_c_i.cwiseInverse().cwiseProduct(matrices.c_i(x));
+    if (c_e_unscaled.template lpNorm<Eigen::Infinity>() <= tolerance &&
+        (c_i_unscaled.array() >= -tolerance).all()) {
+      return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
+    }
+
     return ExitStatus::LOCALLY_INFEASIBLE;
   } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
              status == ExitStatus::TIMEOUT) {
-- 
2.43.0


From c14b5bef938143fbdcf2dd14ccffa32fb7e466a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 15/28] fix: bound detection reads past a constraint without
 decision variables

---
 include/sleipnir/optimization/solver/util/bounds.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..b1140ff 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -105,9 +105,10 @@ Bounds<Scalar> get_bounds(
     const Eigen::SparseVector<Scalar>& row_A_i =
         A_i.innerVector(constraint_index);
     const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    if (non_zeros != 1) {
+      // Constraint is in zero decision variables (e.g., it only constrains
+      // variables with fixed values) or more than one, and therefore not a
+      // bound.
       continue;
     }
 
-- 
2.43.0


From 31283ba9372f1ba4159105ef7a2afa740e038010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 16/28] fix: Don't allocate memory in
 PoolResource::deallocate()

Blocks are given back by destructors, so growing the free list there
ended the program when memory was short. A failure to grow it in
add_chunk() lost blocks of the new chunk.
---
 include/sleipnir/util/pool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index d4ce5fc..21e787c 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -118,7 +118,12 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   /// @param free_list The free list.
   /// @param bytes_per_block Number of bytes in the block.
   void add_chunk(gch::small_vector<void*>& free_list, size_t bytes_per_block) {
-    m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
+    // Reserve space for every block of this size now so deallocate(), which is
+    // called by destructors, never has to allocate memory
+    free_list.reserve(free_list.capacity() + blocks_per_chunk);
+
+    m_buffer.emplace_back(std::make_unique_for_overwrite<std::byte[]>(
+        bytes_per_block * blocks_per_chunk));
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
       free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
-- 
2.43.0


From bf762ed08028627b7900d482b431907ef09e420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 17/28] fix: Don't allocate memory in dec_ref_count()

It's called by destructors, so running out of memory while releasing a
graph ended the program.
---
 include/sleipnir/autodiff/expression.hpp | 60 ++++++++++++++++--------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/include/sleipnir/autodiff/expression.hpp b/include/sleipnir/autodiff/expression.hpp
index 7e1397f..205efcc 100644
--- a/include/sleipnir/autodiff/expression.hpp
+++ b/include/sleipnir/autodiff/expression.hpp
@@ -730,38 +730,60 @@ constexpr void inc_ref_count(Expression<Scalar>* expr) {
 /// @param expr The shared pointer's managed object.
 template <typename Scalar>
 constexpr void dec_ref_count(Expression<Scalar>* expr) {
+  if (--expr->ref_count != 0) {
+    return;
+  }
+
   // If a deeply nested tree is being deallocated all at once, calling the
   // Expression destructor when expr's refcount reaches zero can cause a stack
   // overflow. Instead, we iterate over its children to decrement their
   // refcounts and deallocate them.
-  gch::small_vector<Expression<Scalar>*> stack;
-  stack.emplace_back(expr);
-
-  while (!stack.empty()) {
-    auto elem = stack.back();
-    stack.pop_back();
-
-    // Decrement the current node's refcount. If it reaches zero, deallocate the
-    // node and enqueue its children so their refcounts are decremented too.
-    if (--elem->ref_count == 0) {
-      if (elem->adjoint_expr != nullptr) {
-        stack.emplace_back(elem->adjoint_expr.get());
-      }
-      for (auto& arg : elem->args) {
-        if (arg != nullptr) {
-          stack.emplace_back(arg.get());
-        }
+  //
+  // This function is called by destructors, so it can't allocate memory for a
+  // stack. A node's first child is always released before its other ones, so
+  // the link back to the node's parent is stored in its place.
+  Expression<Scalar>* parent = nullptr;
+  auto release = [](ExpressionPtr<Scalar>& ptr) {
+    // Not calling the destructor before ending its lifetime leaves the refcount
+    // as is
+    auto node = ptr.get();
+    std::construct_at(&ptr);
+    return node;
+  };
+
+  while (expr != nullptr) {
+    // Release the next child
+    Expression<Scalar>* child = nullptr;
+    for (auto ptr : {&expr->args[0], &expr->args[1], &expr->adjoint_expr}) {
+      if (*ptr != nullptr) {
+        child = release(*ptr);
+        break;
       }
+    }
 
+    if (child == nullptr) {
+      // All children were released, so deallocate the node and return to its
+      // parent.
+      //
       // Not calling the destructor here is safe because it only decrements
       // refcounts, which was already done above.
       if constexpr (USE_POOL_ALLOCATOR) {
         auto alloc = global_pool_allocator<Expression<Scalar>>();
         std::allocator_traits<decltype(alloc)>::deallocate(
-            alloc, elem, sizeof(Expression<Scalar>));
+            alloc, expr, sizeof(Expression<Scalar>));
       } else {
-        operator delete(elem);
+        operator delete(expr);
+      }
+
+      expr = parent;
+      if (expr != nullptr) {
+        parent = release(expr->args[0]);
       }
+    } else if (--child->ref_count == 0) {
+      // Descend to the child
+      std::construct_at(&expr->args[0], parent);
+      parent = expr;
+      expr = child;
     }
   }
 }
-- 
2.43.0


From af94bea68e309d853cc5f189dd570593ceb5bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 18/28] fix: Leave expressions usable when topological_sort()
 runs out of memory

The counts of incoming edges stayed in Expression::scratch, so later
evaluations visited nodes in the wrong order or not at all.
---
 .../sleipnir/autodiff/expression_graph.hpp    | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/sleipnir/autodiff/expression_graph.hpp b/include/sleipnir/autodiff/expression_graph.hpp
index b9c3615..6df47d3 100644
--- a/include/sleipnir/autodiff/expression_graph.hpp
+++ b/include/sleipnir/autodiff/expression_graph.hpp
@@ -2,6 +2,7 @@
 
 #pragma once
 
+#include <cstddef>
 #include <ranges>
 #include <utility>
 
@@ -10,6 +11,7 @@
 
 #include "sleipnir/autodiff/expression.hpp"
 #include "sleipnir/autodiff/expression_type.hpp"
+#include "sleipnir/util/scope_exit.hpp"
 
 namespace slp::detail {
 
@@ -34,25 +36,38 @@ ExpressionGraph<Scalar> topological_sort(const ExpressionPtr<Scalar>& root) {
     return list;
   }
 
-  // Stack of nodes to explore
-  gch::small_vector<Expression<Scalar>*> stack;
+  // If memory runs out, leave the nodes as they were found so they can still be
+  // used
+  scope_exit reset_scratch{[&] {
+    for (auto& node : list) {
+      node->scratch = -1;
+    }
+  }};
 
-  // Enumerate incoming edges for each node via depth-first search
+  // Enumerate incoming edges for each node via breadth-first search
   //
   // NOTE: scratch counts incoming edges, offset by -1 so -1 means no edges.
-  stack.emplace_back(root.get());
-  while (!stack.empty()) {
-    auto node = stack.back();
-    stack.pop_back();
-
-    for (auto& arg : node->args) {
-      // If the node hasn't been explored yet, add it to the stack
-      if (arg != nullptr && ++arg->scratch == 0) {
-        stack.push_back(arg.get());
+  list.emplace_back(root.get());
+  for (size_t i = 0; i < list.size(); ++i) {
+    for (auto& arg : list[i]->args) {
+      if (arg != nullptr) {
+        // If the node hasn't been explored yet, add it to the list
+        if (arg->scratch == -1) {
+          list.emplace_back(arg.get());
+        }
+        ++arg->scratch;
       }
     }
   }
 
+  // Stack of nodes to explore
+  gch::small_vector<Expression<Scalar>*> stack;
+  stack.reserve(list.size());
+
+  // Neither the list nor the stack will outgrow their capacity
+  reset_scratch.release();
+  list.clear();
+
   // Generate topological sort of graph from parent to child.
   //
   // A node is only added to the stack after all its incoming edges have been
-- 
2.43.0


From 5d3b93458e809745651ed4aee27b55e95de42fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 19/28] fix: Leave expressions usable when differentiation runs
 out of memory

gradient_tree() left adjoint expressions linked, which corrupted later
symbolic derivatives and leaked expressions; the Jacobian and Hessian
constructors left column numbers in Expression::scratch, which corrupted
later evaluations.
---
 include/sleipnir/autodiff/hessian.hpp         | 35 +++++++++++--------
 include/sleipnir/autodiff/jacobian.hpp        | 35 +++++++++++--------
 include/sleipnir/autodiff/variable_matrix.hpp | 17 +++++----
 3 files changed, 50 insertions(+), 37 deletions(-)

diff --git a/include/sleipnir/autodiff/hessian.hpp b/include/sleipnir/autodiff/hessian.hpp
index 73636b6..83ab88a 100644
--- a/include/sleipnir/autodiff/hessian.hpp
+++ b/include/sleipnir/autodiff/hessian.hpp
@@ -17,6 +17,7 @@
 #include "sleipnir/util/assert.hpp"
 #include "sleipnir/util/concepts.hpp"
 #include "sleipnir/util/empty.hpp"
+#include "sleipnir/util/scope_exit.hpp"
 #include "sleipnir/util/symbol_exports.hpp"
 
 namespace slp {
@@ -56,24 +57,28 @@ class Hessian {
       m_top_lists.emplace_back(detail::topological_sort(variable.expr));
     }
 
-    // Initialize column each expression's adjoint occupies in the Jacobian
-    for (size_t col = 0; col < m_wrt.size(); ++col) {
-      m_wrt[col].expr->scratch = col;
-    }
-
-    // Make list of only nodes in output row, and their output columns
-    for (auto& top_list : m_top_lists) {
-      m_output_lists.emplace_back();
-      for (const auto& node : top_list) {
-        if (node->scratch != -1) {
-          m_output_lists.back().emplace_back(node->scratch, node);
+    {
+      // Reset col to -1 on exit, including when memory runs out
+      scope_exit reset_col{[&] {
+        for (auto& node : m_wrt) {
+          node.expr->scratch = -1;
         }
+      }};
+
+      // Initialize column each expression's adjoint occupies in the Jacobian
+      for (size_t col = 0; col < m_wrt.size(); ++col) {
+        m_wrt[col].expr->scratch = col;
       }
-    }
 
-    // Reset col to -1
-    for (auto& node : m_wrt) {
-      node.expr->scratch = -1;
+      // Make list of only nodes in output row, and their output columns
+      for (auto& top_list : m_top_lists) {
+        m_output_lists.emplace_back();
+        for (const auto& node : top_list) {
+          if (node->scratch != -1) {
+            m_output_lists.back().emplace_back(node->scratch, node);
+          }
+        }
+      }
     }
 
     for (int row = 0; row < m_variables.rows(); ++row) {
diff --git a/include/sleipnir/autodiff/jacobian.hpp b/include/sleipnir/autodiff/jacobian.hpp
index 690067e..bb38c69 100644
--- a/include/sleipnir/autodiff/jacobian.hpp
+++ b/include/sleipnir/autodiff/jacobian.hpp
@@ -16,6 +16,7 @@
 #include "sleipnir/util/assert.hpp"
 #include "sleipnir/util/concepts.hpp"
 #include "sleipnir/util/empty.hpp"
+#include "sleipnir/util/scope_exit.hpp"
 #include "sleipnir/util/symbol_exports.hpp"
 
 namespace slp {
@@ -61,24 +62,28 @@ class Jacobian {
       m_top_lists.emplace_back(detail::topological_sort(variable.expr));
     }
 
-    // Initialize column each expression's adjoint occupies in the Jacobian
-    for (size_t col = 0; col < m_wrt.size(); ++col) {
-      m_wrt[col].expr->scratch = col;
-    }
-
-    // Make list of output rows as column-node pairs
-    for (auto& top_list : m_top_lists) {
-      m_output_lists.emplace_back();
-      for (const auto& node : top_list) {
-        if (node->scratch != -1) {
-          m_output_lists.back().emplace_back(node->scratch, node);
+    {
+      // Reset col to -1 on exit, including when memory runs out
+      scope_exit reset_col{[&] {
+        for (auto& node : m_wrt) {
+          node.expr->scratch = -1;
         }
+      }};
+
+      // Initialize column each expression's adjoint occupies in the Jacobian
+      for (size_t col = 0; col < m_wrt.size(); ++col) {
+        m_wrt[col].expr->scratch = col;
       }
-    }
 
-    // Reset col to -1
-    for (auto& node : m_wrt) {
-      node.expr->scratch = -1;
+      // Make list of output rows as column-node pairs
+      for (auto& top_list : m_top_lists) {
+        m_output_lists.emplace_back();
+        for (const auto& node : top_list) {
+          if (node->scratch != -1) {
+            m_output_lists.back().emplace_back(node->scratch, node);
+          }
+        }
+      }
     }
 
     for (int row = 0; row < m_variables.rows(); ++row) {
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..455738c 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -26,6 +26,7 @@
 #include "sleipnir/util/concepts.hpp"
 #include "sleipnir/util/empty.hpp"
 #include "sleipnir/util/function_ref.hpp"
+#include "sleipnir/util/scope_exit.hpp"
 #include "sleipnir/util/symbol_exports.hpp"
 
 namespace slp {
@@ -1765,6 +1766,15 @@ VariableMatrix<Scalar> gradient_tree(const ExpressionGraph<Scalar>& top_list,
     return VariableMatrix<Scalar>{detail::empty, wrt.rows(), 1};
   }
 
+  // Unlink adjoints on exit, including when memory runs out, to avoid circular
+  // references between them and their parent expressions. This ensures all
+  // expressions are returned to the free list.
+  scope_exit unlink_adjoints{[&] {
+    for (auto& node : top_list) {
+      node->adjoint_expr = nullptr;
+    }
+  }};
+
   // Set root node's adjoint to 1 since df/df is 1
   top_list[0]->adjoint_expr = constant_ptr(Scalar(1));
 
@@ -1794,13 +1804,6 @@ VariableMatrix<Scalar> gradient_tree(const ExpressionGraph<Scalar>& top_list,
     grad[row] = Variable{std::move(wrt[row].expr->adjoint_expr)};
   }
 
-  // Unlink adjoints to avoid circular references between them and their
-  // parent expressions. This ensures all expressions are returned to the free
-  // list.
-  for (auto& node : top_list) {
-    node->adjoint_expr = nullptr;
-  }
-
   return grad;
 }
 
-- 
2.43.0


From 585ada0d5a8d395aa59362c27f359f895e35b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 20/28] fix: Running out of memory while printing diagnostics
 ends the program

Diagnostics are printed on scope exit, where exceptions can't be thrown.
---
 .../optimization/solver/interior_point.hpp    | 37 +++++++++++--------
 include/sleipnir/optimization/solver/sqp.hpp  | 27 ++++++++------
 include/sleipnir/util/print.hpp               | 17 +++++++--
 include/sleipnir/util/print_diagnostics.hpp   | 13 +++++--
 4 files changed, 59 insertions(+), 35 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 38eca00..c528a04 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -6,6 +6,7 @@
 #include <chrono>
 #include <cmath>
 #include <functional>
+#include <new>
 #include <span>
 
 #include <Eigen/Core>
@@ -582,22 +583,26 @@ ExitStatus interior_point(
             soc_profiler.stop();
 
             if (options.diagnostics && step_acceptable) {
-              print_iteration_diagnostics(
-                  iterations, IterationType::SECOND_ORDER_CORRECTION,
-                  soc_profiler.current_duration(),
-                  unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
-                      matrices.scaling, g, A_e, trial_c_e, A_i, trial_c_i,
-                      trial_s, trial_y, trial_z, Scalar(0)),
-                  trial_f,
-                  trial_c_e.template lpNorm<1>() +
-                      (trial_c_i - trial_s).template lpNorm<1>(),
-                  trial_s.dot(trial_z), μ, solver.hessian_regularization(),
-                  solver.constraint_jacobian_regularization(),
-                  std::max(soc_step.p_x.template lpNorm<Eigen::Infinity>(),
-                           soc_step.p_s.template lpNorm<Eigen::Infinity>()),
-                  std::max(soc_step.p_y.template lpNorm<Eigen::Infinity>(),
-                           soc_step.p_z.template lpNorm<Eigen::Infinity>()),
-                  α_soc, Scalar(1), α_reduction_factor, α_z_soc);
+              // Destructors can't throw
+              try {
+                print_iteration_diagnostics(
+                    iterations, IterationType::SECOND_ORDER_CORRECTION,
+                    soc_profiler.current_duration(),
+                    unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
+                        matrices.scaling, g, A_e, trial_c_e, A_i, trial_c_i,
+                        trial_s, trial_y, trial_z, Scalar(0)),
+                    trial_f,
+                    trial_c_e.template lpNorm<1>() +
+                        (trial_c_i - trial_s).template lpNorm<1>(),
+                    trial_s.dot(trial_z), μ, solver.hessian_regularization(),
+                    solver.constraint_jacobian_regularization(),
+                    std::max(soc_step.p_x.template lpNorm<Eigen::Infinity>(),
+                             soc_step.p_s.template lpNorm<Eigen::Infinity>()),
+                    std::max(soc_step.p_y.template lpNorm<Eigen::Infinity>(),
+                             soc_step.p_z.template lpNorm<Eigen::Infinity>()),
+                    α_soc, Scalar(1), α_reduction_factor, α_z_soc);
+              } catch (const std::bad_alloc&) {
+              }
             }
           }};
 
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index ab7682b..21b6a78 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -5,6 +5,7 @@
 #include <chrono>
 #include <cmath>
 #include <functional>
+#include <new>
 #include <span>
 
 #include <Eigen/Core>
@@ -395,17 +396,21 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
             soc_profiler.stop();
 
             if (options.diagnostics && step_acceptable) {
-              print_iteration_diagnostics(
-                  iterations, IterationType::SECOND_ORDER_CORRECTION,
-                  soc_profiler.current_duration(),
-                  kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
-                      g, A_e, trial_c_e, trial_y),
-                  trial_f, trial_c_e.template lpNorm<1>(), Scalar(0), Scalar(0),
-                  solver.hessian_regularization(),
-                  solver.constraint_jacobian_regularization(),
-                  soc_step.p_x.template lpNorm<Eigen::Infinity>(),
-                  soc_step.p_y.template lpNorm<Eigen::Infinity>(), α_soc,
-                  Scalar(1), α_reduction_factor, Scalar(1));
+              // Destructors can't throw
+              try {
+                print_iteration_diagnostics(
+                    iterations, IterationType::SECOND_ORDER_CORRECTION,
+                    soc_profiler.current_duration(),
+                    kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
+                        g, A_e, trial_c_e, trial_y),
+                    trial_f, trial_c_e.template lpNorm<1>(), Scalar(0),
+                    Scalar(0), solver.hessian_regularization(),
+                    solver.constraint_jacobian_regularization(),
+                    soc_step.p_x.template lpNorm<Eigen::Infinity>(),
+                    soc_step.p_y.template lpNorm<Eigen::Infinity>(), α_soc,
+                    Scalar(1), α_reduction_factor, Scalar(1));
+              } catch (const std::bad_alloc&) {
+              }
             }
           }};
 
diff --git a/include/sleipnir/util/print.hpp b/include/sleipnir/util/print.hpp
index 41ac6be..1732b18 100644
--- a/include/sleipnir/util/print.hpp
+++ b/include/sleipnir/util/print.hpp
@@ -5,6 +5,7 @@
 #ifndef SLEIPNIR_DISABLE_DIAGNOSTICS
 #include <cstdio>
 #include <format>
+#include <new>
 #include <print>
 #include <system_error>
 #include <utility>
@@ -14,39 +15,47 @@ namespace slp {
 
 #ifndef SLEIPNIR_DISABLE_DIAGNOSTICS
 
-/// Wrapper around std::print() that squelches write failure exceptions.
+/// Wrapper around std::print() that squelches write and allocation failure
+/// exceptions.
 template <typename... T>
 void print(std::format_string<T...> fmt, T&&... args) {
   try {
     std::print(fmt, std::forward<T>(args)...);
   } catch (const std::system_error&) {
+  } catch (const std::bad_alloc&) {
   }
 }
 
-/// Wrapper around std::print() that squelches write failure exceptions.
+/// Wrapper around std::print() that squelches write and allocation failure
+/// exceptions.
 template <typename... T>
 void print(std::FILE* f, std::format_string<T...> fmt, T&&... args) {
   try {
     std::print(f, fmt, std::forward<T>(args)...);
   } catch (const std::system_error&) {
+  } catch (const std::bad_alloc&) {
   }
 }
 
-/// Wrapper around std::println() that squelches write failure exceptions.
+/// Wrapper around std::println() that squelches write and allocation failure
+/// exceptions.
 template <typename... T>
 void println(std::format_string<T...> fmt, T&&... args) {
   try {
     std::println(fmt, std::forward<T>(args)...);
   } catch (const std::system_error&) {
+  } catch (const std::bad_alloc&) {
   }
 }
 
-/// Wrapper around std::println() that squelches write failure exceptions.
+/// Wrapper around std::println() that squelches write and allocation failure
+/// exceptions.
 template <typename... T>
 void println(std::FILE* f, std::format_string<T...> fmt, T&&... args) {
   try {
     std::println(f, fmt, std::forward<T>(args)...);
   } catch (const std::system_error&) {
+  } catch (const std::bad_alloc&) {
   }
 }
 
diff --git a/include/sleipnir/util/print_diagnostics.hpp b/include/sleipnir/util/print_diagnostics.hpp
index 86276da..f864581 100644
--- a/include/sleipnir/util/print_diagnostics.hpp
+++ b/include/sleipnir/util/print_diagnostics.hpp
@@ -8,6 +8,7 @@
 #include <array>
 #include <chrono>
 #include <cmath>
+#include <new>
 #include <ranges>
 #include <ratio>
 #include <span>
@@ -299,10 +300,14 @@ inline void print_solver_diagnostics(
     double norm = solve_duration == 0.0
                       ? (&profiler == &solve_profilers[0] ? 1.0 : 0.0)
                       : to_ms(profiler.total_duration()) / solve_duration;
-    slp::println("│{:<21} {:>6.2f}%▕{}▏ {:>10.3f} {:>9.3f} {:>4}│",
-                 profiler.name(), norm * 100.0, histogram<9>(norm),
-                 to_ms(profiler.total_duration()),
-                 to_ms(profiler.average_duration()), profiler.num_solves());
+    // This function is called on scope exit, so it can't throw
+    try {
+      slp::println("│{:<21} {:>6.2f}%▕{}▏ {:>10.3f} {:>9.3f} {:>4}│",
+                   profiler.name(), norm * 100.0, histogram<9>(norm),
+                   to_ms(profiler.total_duration()),
+                   to_ms(profiler.average_duration()), profiler.num_solves());
+    } catch (const std::bad_alloc&) {
+    }
   }
 
   slp::println("└{:─^66}┘", "");
-- 
2.43.0


From 277f4dbea93fbb65a831a03b88e31fce3a9de915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 21/28] Add a hook for simulation to the expression pool

Compiles to nothing unless SLEIPNIR_POOL_FREED is defined.
---
 include/sleipnir/util/pool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 21e787c..6abefe2 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -67,6 +67,10 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   void deallocate(
       void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
+#ifdef SLEIPNIR_POOL_FREED
+    // Simulation hook: sees blocks that are no longer in use
+    SLEIPNIR_POOL_FREED(p, bytes);
+#endif
     free_list_for(bytes).emplace_back(p);
   }
 
-- 
2.43.0


From 027eb1594577e6a45ba38f6d4c063c45998652d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 22/28] fix: Nearly satisfied inequality constraints are
 reported as locally infeasible

Approaching a feasible point from outside, the violation passes 1e-6; with
constraint gradients smaller than one, the infeasibility measure is below its
threshold there and a solvable problem was given up. Use the threshold of the
equality constraints.
---
 .../sleipnir/optimization/solver/util/is_locally_infeasible.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
index 4b5b2cc..8ca75de 100644
--- a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
+++ b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
@@ -51,7 +51,7 @@ bool is_inequality_locally_infeasible(
   if (A_i.rows() > 0) {
     Eigen::Vector<Scalar, Eigen::Dynamic> c_i_plus = c_i.cwiseMin(Scalar(0));
     if ((A_i.transpose() * c_i_plus).norm() < Scalar(1e-6) &&
-        c_i_plus.norm() > Scalar(1e-6)) {
+        c_i_plus.norm() > Scalar(1e-2)) {
       return true;
     }
   }
-- 
2.43.0


From 0816e644916eb4cf112c5a7454d2f162ecf06d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 23/28] fix: Diagnostics omit equality constraints violated
 from above

---
 include/sleipnir/util/print_diagnostics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/print_diagnostics.hpp b/include/sleipnir/util/print_diagnostics.hpp
index f864581..2f3610c 100644
--- a/include/sleipnir/util/print_diagnostics.hpp
+++ b/include/sleipnir/util/print_diagnostics.hpp
@@ -96,7 +96,7 @@ void print_too_few_dofs_error(
   slp::println("The problem has too few degrees of freedom.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
@@ -119,7 +119,7 @@ void print_c_e_local_infeasibility_error(
       "constraints.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
-- 
2.43.0


From 4f7cbfc1e9057c77ba21efa78b979378a8c5d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 24/28] fix: Constraints whose coefficient cancels out are
 treated as bounds

x - x >= -1 is linear and has one (zero) entry in its gradient. Debug builds
aborted; with bound projection its slack was set to the constraint's value even
if negative, after which the line search never ended.
---
 include/sleipnir/optimization/solver/util/bounds.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index b1140ff..f262881 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -124,6 +124,11 @@ Bounds<Scalar> get_bounds(
     const auto constraint_coefficient =
         row_iter
             .value();  // The nonzero value of the j-th constraint's gradient.
+    if (constraint_coefficient == Scalar(0)) {
+      // Constraint's dependence on the variable cancels out (e.g., x − x ≥ −1),
+      // so it's not a bound.
+      continue;
+    }
     const auto decision_variable_index = row_iter.index();
     const auto decision_variable_value =
         decision_variables[decision_variable_index].value();
@@ -138,10 +143,6 @@ Bounds<Scalar> get_bounds(
       constraint_constant = inequality_constraints[constraint_index].value();
     }
 
-    // Shouldn't happen since the constraint is supposed to be linear and not a
-    // constant.
-    slp_assert(constraint_coefficient != Scalar(0));
-
     using std::isfinite;
 
     // We should always get a finite value when evaluating the constraint at
-- 
2.43.0


From 757d24f7276d4d2e50593a75a590b245cd3f5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 25/28] fix: Bound projection starts with zero slacks where
 bounds leave no interior

Slacks must be positive; their inverses were infinite.
---
 include/sleipnir/optimization/solver/interior_point.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index c528a04..484452c 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -287,8 +287,9 @@ ExitStatus interior_point(
   }
 
 #ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
-  // We set sʲ = cᵢʲ(x) for each bound inequality constraint index j
-  s = bound_constraint_mask.select(c_i, s);
+  // We set sʲ = cᵢʲ(x) for each bound inequality constraint index j, unless the
+  // bounds leave no interior
+  s = (bound_constraint_mask && c_i.array() > Scalar(0)).select(c_i, s);
 #endif
 
   // Barrier parameter minimum
-- 
2.43.0


From 09709ae92588f4bf55baaa6f7a0eaa96ec9dbfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 26/28] fix: Multiplier estimates of almost rank-deficient
 constraints can overflow

After feasibility restoration the next iterate had infinite multipliers.
---
 .../solver/util/lagrange_multiplier_estimate.hpp  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
index 0ea1e20..20e93ca 100644
--- a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
+++ b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
@@ -50,7 +50,14 @@ Eigen::Vector<Scalar, Eigen::Dynamic> lagrange_multiplier_estimate(
     return DenseVector::Zero(A_e.rows());
   }
 
-  return y_estimator.solve(A_e * g);
+  DenseVector y = y_estimator.solve(A_e * g);
+
+  // If Aₑ is almost rank-deficient, the estimate can overflow
+  if (!y.allFinite()) {
+    return DenseVector::Zero(A_e.rows());
+  }
+
+  return y;
 }
 
 /// Estimates Lagrange multipliers for interior-point method.
@@ -122,6 +129,12 @@ LagrangeMultiplierEstimate<Scalar> lagrange_multiplier_estimate(
   }
 
   DenseVector sol = yz_estimator.solve(rhs);
+
+  // If Aₑ is almost rank-deficient, the estimate can overflow
+  if (!sol.allFinite()) {
+    return {DenseVector::Zero(A_e.rows()), μ * s.cwiseInverse()};
+  }
+
   DenseVector y = sol.segment(0, A_e.rows());
   DenseVector z = sol.segment(A_e.rows(), s.rows());
 
-- 
2.43.0


From 7c1387cb11c045227bae321af15c0250cae75964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 27/28] fix: Compound matrix products read entries they have
 already overwritten

---
 include/sleipnir/autodiff/variable_block.hpp  | 24 ++++++++-----------
 include/sleipnir/autodiff/variable_matrix.hpp | 24 ++++++++-----------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..cc1e881 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -436,18 +436,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // Compute the product first in case rhs refers to this block's entries
+    return *this = *this * rhs;
   }
 
   /// Compound matrix multiplication-assignment operator.
@@ -455,9 +445,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it refers to one of this block's entries
+    const Variable<Scalar> rhs_copy{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= rhs_copy;
       }
     }
 
@@ -469,9 +462,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it refers to one of this block's entries
+    const Variable<Scalar> rhs_copy{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= rhs_copy;
       }
     }
 
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 455738c..c9e1abe 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -644,18 +644,8 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // Compute the product first in case rhs refers to this matrix's entries
+    return *this = *this * rhs;
   }
 
   /// Compound matrix-scalar multiplication-assignment operator.
@@ -663,9 +653,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it refers to one of this matrix's entries
+    const Variable<Scalar> rhs_copy{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= rhs_copy;
       }
     }
 
@@ -734,9 +727,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+    // Copy rhs in case it refers to one of this matrix's entries
+    const Variable<Scalar> rhs_copy{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= rhs_copy;
       }
     }
 
-- 
2.43.0


From 8e43401bf021750555039da5ca52c50f89e3bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 28/28] fix: Solving a 1x1 system drops all but the first
 right-hand side

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index c9e1abe..32078fc 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1517,7 +1517,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0

