From b8490e29b2befe3170643f0708c358f6fcb6dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 01/11] fix: make FMPC solver compile with dynamic inequality
 dimension

IneqIneqDimMatrix::Identity() without arguments is rejected by Eigen for dynamic sizes.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..0787fee 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -886,7 +886,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
       merit_func_const += const_func.template lpNorm<1>();
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
     }
   }
 
-- 
2.43.0


From f8e76c360fc562bb0775df8065e2bfe1dae039e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 02/11] fix: initialize unused members of terminal coefficient
 in FMPC solver

For fixed dimensions they were left uninitialized but are read by the NaN check in backward pass.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 0787fee..302926e 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -122,6 +122,20 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 {
+  // Members that are not used in terminal coefficient are also initialized because containsNaN() checks all members
+  A.setZero();
+  B.setZero();
+  C.setZero();
+  D.setZero();
+  Lu.setZero();
+  Luu.setZero();
+  Lxu.setZero();
+  x_bar.setZero();
+  g_bar.setZero();
+  Lu_bar.setZero();
+  k.setZero();
+  K.setZero();
+
   Lx.resize(state_dim);
   Lxx.resize(state_dim, state_dim);
   Lx_bar.resize(state_dim);
-- 
2.43.0


From 54051528a8587b35e50074ed74f582c07ecf5f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 03/11] fix: check variable sequence before initializing
 complementary variables in FMPC solver

With init_complementary_variable, lists of wrong length were accessed out of range instead of being rejected.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  3 +++
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..cc70a68 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -345,6 +345,9 @@ public:
   void dumpTraceDataList(const std::string & file_path) const;
 
 protected:
+  /** \brief Check sequence length of optimization variables and dimension of inputs. */
+  void checkVariableSequence() const;
+
   /** \brief Check optimization variables. */
   void checkVariable() const;
 
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 302926e..d656f2d 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -182,6 +182,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   variable_ = initial_variable;
   variable_.print_level = config_.print_level;
 
+  // Check sequence of variable_
+  checkVariableSequence();
+
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
@@ -295,8 +298,9 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::dumpTraceDataList(const std::strin
     // clang-format on
   }
 }
+
 template<int StateDim, int InputDim, int IneqDim>
-void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariableSequence() const
 {
   // Check sequence length
   if(static_cast<int>(variable_.x_list.size()) != config_.horizon_steps + 1)
@@ -339,6 +343,15 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                  + ", time: " + std::to_string(t));
       }
     }
+  }
+}
+
+template<int StateDim, int InputDim, int IneqDim>
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+{
+  // Check element dimension
+  for(int i = 0; i < config_.horizon_steps; i++)
+  {
     if constexpr(IneqDim == Eigen::Dynamic)
     {
       double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From 282006ea466534d9028c2aaa849c182239859573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 04/11] fix: handle steps without inequality constraints in
 FMPC solver

minCoeff() / maxCoeff() were called for empty vectors and the barrier parameter became NaN.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index d656f2d..25c8fa5 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -406,19 +406,20 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   {
     // (19.19) in "Nocedal, Wright. Numerical optimization"
     double s_nu_ave = 0.0;
-    double s_nu_min = std::numeric_limits<double>::max();
     int total_ineq_dim = 0;
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
-      s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
-    // double xi = s_nu_min / s_nu_ave;
+    // double xi = s_nu_min / s_nu_ave; (s_nu_min is minimum of s * nu)
     // double sigma = 0.1 * std::pow(std::min(0.05 * (1.0 - xi) / xi, 2.0), 3);
     constexpr double barrier_eps_min = 1e-8;
     constexpr double barrier_eps_max = 1e6;
@@ -936,7 +937,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());
 
-      if(i < config_.horizon_steps)
+      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
       {
         merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
       }
-- 
2.43.0


From aad2ae16b6a47b74187526b21e0b8d3651a3a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 05/11] fix: do not access empty trace data when max_iter is
 zero in FMPC solver

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 25c8fa5..fe3fb3d 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -267,7 +267,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(config_.print_level >= 3)
   {
     std::cout << "[FMPC] Solve finised. status: " << static_cast<int>(status)
-              << ", iter: " << trace_data_list_.back().iter << std::endl;
+              << ", iter: " << (trace_data_list_.empty() ? 0 : trace_data_list_.back().iter) << std::endl;
   }
 
   return status;
-- 
2.43.0


From f2f5c0743e2518ff1c49e334f5747b757a72b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 06/11] fix: evaluate directional derivative of merit function
 along the whole step in FMPC solver

The L1-norm terms were evaluated separately for each block of the step, which overestimates the derivative
where a constraint residual is zero.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index fe3fb3d..12afa45 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -903,18 +903,17 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       StateDimVector const_func = problem_->stateEq(t, x, u) - next_x;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.A, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.B, delta_u);
-      merit_deriv_const +=
-          l1NormDirectionalDeriv(const_func, (-1 * StateStateDimMatrix::Identity()).eval(), delta_next_x);
+      // Directional derivative of L1-norm is not additive with respect to direction where function value is zero
+      StateDimVector delta_const_func = coeff.A * delta_x + coeff.B * delta_u - delta_next_x;
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, StateStateDimMatrix::Identity().eval(), delta_const_func);
     }
 
     {
       IneqDimVector const_func = problem_->ineqConst(t, x, u) + s;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
+      IneqDimVector delta_const_func = coeff.C * delta_x + coeff.D * delta_u + delta_s;
+      merit_deriv_const += l1NormDirectionalDeriv(
+          const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_const_func);
     }
   }
 
-- 
2.43.0


From 54a26be3f6dfa9cb9ef6ca3acffdbf7542dc4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 07/11] fix: impose input limits in forward pass of DDP solver

The feedback term could drive the inputs out of the limits even though with_input_constraint is enabled.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..e722d50 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -545,10 +545,16 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    // Impose constraints on input
+    double t = current_t_ + i * problem_->dt();
+    if(config_.with_input_constraint)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      candidate_control_data_.u_list[i] =
+          candidate_control_data_.u_list[i].cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
+    }
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
-- 
2.43.0


From 98c46445ba15f66102f59f911c29a33ab97763ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 08/11] fix: set cost and lambda of trace data also when DDP
 iteration ends early

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index e722d50..910ed3e 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -200,6 +200,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
           std::cout << "[DDP/Backward] Failure due to large lambda. (time: " << current_t_ << ", iter: " << iter << ")"
                     << std::endl;
         }
+        trace_data.cost = control_data_.cost_list.sum();
+        trace_data.lambda = lambda_;
+        trace_data.dlambda = dlambda_;
         return -1; // Failure
       }
       if(config_.print_level >= 3)
@@ -227,6 +230,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       std::cout << "[DDP] Terminate due to small gradient. (time: " << current_t_ << ", iter: " << iter << ")"
                 << std::endl;
     }
+    trace_data.cost = control_data_.cost_list.sum();
+    trace_data.lambda = lambda_;
+    trace_data.dlambda = dlambda_;
     return 1; // Terminate
   }
 
-- 
2.43.0


From 41a1cb46a21d6c4f54cb547bb726984ca4646821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:27 +0000
Subject: [PATCH 09/11] fix: make FMPC solver compile without inequality
 constraints (IneqDim = 0)

---
 nmpc_fmpc/include/nmpc_fmpc/MathUtils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h b/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
index 36b0946..2751a4f 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
@@ -19,19 +19,20 @@ double l1NormDirectionalDeriv(const Eigen::Matrix<double, OutputDim, 1> & func,
                               const Eigen::Matrix<double, InputDim, 1> & dir)
 {
   double deriv = 0.0;
+  const Eigen::Matrix<double, OutputDim, 1> func_deriv = jac * dir;
   for(int i = 0; i < func.size(); i++)
   {
     if(func(i) > 0)
     {
-      deriv += jac.row(i).transpose().dot(dir);
+      deriv += func_deriv(i);
     }
     else if(func(i) < 0)
     {
-      deriv += -1 * jac.row(i).transpose().dot(dir);
+      deriv += -1 * func_deriv(i);
     }
     else
     {
-      deriv += std::abs(jac.row(i).transpose().dot(dir));
+      deriv += std::abs(func_deriv(i));
     }
   }
   return deriv;
-- 
2.43.0


From 3e02748263f39db7020200c6fa1c1758f80dc275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:11 +0000
Subject: [PATCH 10/11] fix: DDP and FMPC solver headers can be included in one
 translation unit

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp    | 4 ++--
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 910ed3e..e3b39b6 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -6,14 +6,14 @@
 
 #include <nmpc_ddp/BoxQP.h>
 
-namespace
+namespace nmpc_ddp
 {
 template<class Clock>
 double calcDuration(const std::chrono::time_point<Clock> & start_time, const std::chrono::time_point<Clock> & end_time)
 {
   return 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(end_time - start_time).count();
 }
-} // namespace
+} // namespace nmpc_ddp
 
 namespace nmpc_ddp
 {
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 12afa45..fba956a 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -17,14 +17,14 @@
     return true;                                                                                          \
   }
 
-namespace
+namespace nmpc_fmpc
 {
 template<class Clock>
 double calcDuration(const std::chrono::time_point<Clock> & start_time, const std::chrono::time_point<Clock> & end_time)
 {
   return 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(end_time - start_time).count();
 }
-} // namespace
+} // namespace nmpc_fmpc
 
 namespace nmpc_fmpc
 {
-- 
2.43.0


From 01ff1002c052ea93ab7b541102bda31d3e7333ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:11 +0000
Subject: [PATCH 11/11] fix: solvers with fixed input dimension 0 compile

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp    | 6 +++++-
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index e3b39b6..336b0b8 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -451,7 +451,11 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
     // Calculate gains
     auto start_time_gain = std::chrono::system_clock::now();
 
-    if(input_dim > 0)
+    if constexpr(InputDim == 0)
+    {
+      // Nothing to calculate (k and K are empty)
+    }
+    else if(input_dim > 0)
     {
       if(config_.with_input_constraint)
       {
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index fba956a..38bc24e 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -618,7 +618,11 @@ bool FmpcSolver<StateDim, InputDim, IneqDim>::backwardPass()
       auto start_time_gain_solve = std::chrono::system_clock::now();
 
       int input_dim = static_cast<int>(B.cols());
-      if(input_dim > 0)
+      if constexpr(InputDim == 0)
+      {
+        // Nothing to calculate (k and K are empty)
+      }
+      else if(input_dim > 0)
       {
         // In numerically difficult cases, LLT may diverge and LDLT may work.
         Eigen::LDLT<InputInputDimMatrix> llt_G(G);
-- 
2.43.0

