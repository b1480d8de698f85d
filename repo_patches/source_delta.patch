From 6988a231f8392136242ec1332d5f15122b0e92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 01/33] fix: invalidate cached constraint values when eval_g
 fails

internal_eval_g() reset the tag of the Jacobian instead of the tag of the
constraint values, so a second request at the same point was answered with
the stale values of a failed evaluation.
---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..0a5a782 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2845,7 +2845,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From a70c8bb3d2afaafb03c37a023400baa5dc6d8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 02/33] fix: recover multipliers of fixed variables after a
 time limit

IpoptApplication hands the current iterate to FinalizeSolution for
CPUTIME_EXCEEDED and WALLTIME_EXCEEDED just as for MAXITER_EXCEEDED.
---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 0a5a782..84037d1 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2180,6 +2180,8 @@ void TNLPAdapter::FinalizeSolution(
    {
       case SUCCESS:
       case MAXITER_EXCEEDED:
+      case CPUTIME_EXCEEDED:
+      case WALLTIME_EXCEEDED:
       case STOP_AT_TINY_STEP:
       case STOP_AT_ACCEPTABLE_POINT:
       case LOCAL_INFEASIBILITY:
-- 
2.43.0


From 6b23f9a926b1109fa4fc625aff110b17a6e97666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 03/33] fix: report failure from get_curr_iterate when
 multipliers cannot be evaluated

The multipliers of fixed variables are recomputed with the user's gradient and
Jacobian; when one of these fails, the arrays are not filled.
---
 src/Interfaces/IpTNLP.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 66b6067..0cf6db1 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -677,20 +677,28 @@ bool TNLP::get_curr_iterate(
       tnlp_adapter->GetFixedVariables(n_x_fixed, x_fixed_map, fixed_variable_treatment);
 
       if( !scaled || n_x_fixed == 0 || fixed_variable_treatment != TNLPAdapter::MAKE_PARAMETER )
-         tnlp_adapter->ResortBoundMultipliers(
-            *intern_x, *intern_y_c, *intern_y_d,
-            *curr_z_L(ip_data, ip_cq, orignlp, restonlp, scaled), z_L,
-            *curr_z_U(ip_data, ip_cq, orignlp, restonlp, scaled), z_U);
+      {
+         if( !tnlp_adapter->ResortBoundMultipliers(
+                *intern_x, *intern_y_c, *intern_y_d,
+                *curr_z_L(ip_data, ip_cq, orignlp, restonlp, scaled), z_L,
+                *curr_z_U(ip_data, ip_cq, orignlp, restonlp, scaled), z_U) )
+         {
+            return false;
+         }
+      }
       else
       {
          // ResortBoundMultipliers() doesn't work for scaled input on x, y_c, and y_d in this case
          // so we pass on unscaled values of x, y_c, and y_d and then scale entries of z_L and z_U for fixed vars manually
-         tnlp_adapter->ResortBoundMultipliers(
-            *curr_x(ip_data, ip_cq, orignlp, restonlp, false),
-            *curr_y_c(ip_data, ip_cq, orignlp, restonlp, false),
-            *curr_y_d(ip_data, ip_cq, orignlp, restonlp, false),
-            *curr_z_L(ip_data, ip_cq, orignlp, restonlp, true), z_L,
-            *curr_z_U(ip_data, ip_cq, orignlp, restonlp, true), z_U);
+         if( !tnlp_adapter->ResortBoundMultipliers(
+                *curr_x(ip_data, ip_cq, orignlp, restonlp, false),
+                *curr_y_c(ip_data, ip_cq, orignlp, restonlp, false),
+                *curr_y_d(ip_data, ip_cq, orignlp, restonlp, false),
+                *curr_z_L(ip_data, ip_cq, orignlp, restonlp, true), z_L,
+                *curr_z_U(ip_data, ip_cq, orignlp, restonlp, true), z_U) )
+         {
+            return false;
+         }
          Number obj_scal = orignlp->NLP_scaling()->apply_obj_scaling(1.0);
          if( obj_scal != 1.0 )
             for( Index i = 0; i < n_x_fixed; ++i )
-- 
2.43.0


From 26e7771c9866dac3ba4b37902beb0930b9f2e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 04/33] fix: Java interface: honour result and size in
 get_scaling_parameters

The return value of the Java method was ignored, and the constraint scaling
(length m) was copied with the number of variables.
---
 src/Interfaces/IpStdJInterface.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpStdJInterface.cpp b/src/Interfaces/IpStdJInterface.cpp
index acb93e6..97577bd 100644
--- a/src/Interfaces/IpStdJInterface.cpp
+++ b/src/Interfaces/IpStdJInterface.cpp
@@ -708,7 +708,10 @@ bool Jipopt::get_scaling_parameters(
 
    jbooleanArray use_x_g_scaling_j = env->NewBooleanArray(2);
 
-   env->CallBooleanMethod(solver, get_scaling_parameters_, obj_scaling_j, n, x_scaling_j, m, g_scaling_j, use_x_g_scaling_j);
+   if( !env->CallBooleanMethod(solver, get_scaling_parameters_, obj_scaling_j, n, x_scaling_j, m, g_scaling_j, use_x_g_scaling_j) )
+   {
+      return false;
+   }
 
    jboolean* use_x_g_scaling = env->GetBooleanArrayElements(use_x_g_scaling_j, 0);
 
@@ -729,7 +732,7 @@ bool Jipopt::get_scaling_parameters(
    /* Copy from Java to native value */
    if( use_x_g_scaling[1] )
    {
-      env->GetNumberArrayRegion(g_scaling_j, 0, n, g_scaling);
+      env->GetNumberArrayRegion(g_scaling_j, 0, m, g_scaling);
       use_g_scaling = true;
    }
    else
-- 
2.43.0


From 959b70d8bb0ef9df2a1c1e8dbf7a7907bebe4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 05/33] fix: Java interface: hand the final objective value to
 Java

finalize_solution() read the Java array into its local copy instead of
storing the objective value.
---
 src/Interfaces/IpStdJInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpStdJInterface.cpp b/src/Interfaces/IpStdJInterface.cpp
index 97577bd..f1544ee 100644
--- a/src/Interfaces/IpStdJInterface.cpp
+++ b/src/Interfaces/IpStdJInterface.cpp
@@ -665,7 +665,7 @@ void Jipopt::finalize_solution(
       env->SetNumberArrayRegion(mult_gj, 0, m, const_cast<Number*>(lambda));
    }
 
-   env->GetNumberArrayRegion(fj, 0, 1, &obj_value);
+   env->SetNumberArrayRegion(fj, 0, 1, &obj_value);
 }
 
 /* Intermediate Callback method for the user. */
-- 
2.43.0


From 0b8d96ba6f9cf0b50ddf78932214f4ddda0bb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 06/33] fix: derivative checker must not use a starting point
 that was not provided

The result of get_starting_point() was ignored, so the test was performed at
uninitialized values.
---
 src/Interfaces/IpTNLPAdapter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 84037d1..3266e92 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -3018,7 +3018,12 @@ bool TNLPAdapter::CheckDerivatives(
    // Obtain starting point as reference point at which derivative
    // test should be performed
    Number* xref = new Number[nx];
-   tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   retval = tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   if( !retval )
+   {
+      delete[] xref;
+      THROW_EXCEPTION(INVALID_TNLP, "get_starting_point returned false for derivative checker");
+   }
 
    // Perform a random perturbation.  We need the bounds to make sure
    // they are not violated
-- 
2.43.0


From 9c68069fda936250555f3d57cecd4681beed1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 07/33] fix: Java interface: add return code
 FEASIBLE_POINT_FOUND

---
 src/Interfaces/Ipopt.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/Ipopt.java b/src/Interfaces/Ipopt.java
index e89a35e..81f0485 100644
--- a/src/Interfaces/Ipopt.java
+++ b/src/Interfaces/Ipopt.java
@@ -137,6 +137,7 @@ public abstract class Ipopt
    public final static int SEARCH_DIRECTION_TOO_SMALL = 3;
    public final static int DIVERGING_ITERATES = 4;
    public final static int USER_REQUESTED_STOP = 5;
+   public final static int FEASIBLE_POINT_FOUND = 6;
    public final static int ITERATION_EXCEEDED = -1;
    public final static int RESTORATION_FAILED = -2;
    public final static int ERROR_IN_STEP_COMPUTATION = -3;
-- 
2.43.0


From 10641dd555f93af1d5d9ce9f466d2738d6f9f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 08/33] fix: sIPOPT: report the final multipliers after a time
 limit

---
 contrib/sIPOPT/src/SensApplication.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contrib/sIPOPT/src/SensApplication.cpp b/contrib/sIPOPT/src/SensApplication.cpp
index c6361c5..b5a6c90 100644
--- a/contrib/sIPOPT/src/SensApplication.cpp
+++ b/contrib/sIPOPT/src/SensApplication.cpp
@@ -237,6 +237,8 @@ SensAlgorithmExitStatus SensApplication::Run()
           yc = ip_data_->curr()->y_c();
           yd = ip_data_->curr()->y_d();*/
          case MAXITER_EXCEEDED:
+         case CPUTIME_EXCEEDED:
+         case WALLTIME_EXCEEDED:
          case STOP_AT_TINY_STEP:
          case STOP_AT_ACCEPTABLE_POINT:
          case LOCAL_INFEASIBILITY:
-- 
2.43.0


From ce98397981f77fe13e03593e2338c17f6015a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 09/33] fix: ExpandedMultiVectorMatrix: report valid numbers as
 valid, invalid ones as invalid

---
 src/LinAlg/IpExpandedMultiVectorMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
index 9b45e88..f0e7cf3 100644
--- a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
+++ b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
@@ -168,7 +168,7 @@ bool ExpandedMultiVectorMatrix::HasValidNumbersImpl() const
 {
    for( Index i = 0; i < NRows(); i++ )
    {
-      if( IsValid(vecs_[i]) && vecs_[i]->HasValidNumbers() )
+      if( IsValid(vecs_[i]) && !vecs_[i]->HasValidNumbers() )
       {
          return false;
       }
-- 
2.43.0


From 0d9f38b51cc59e3780121566e0a5249f6f764f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 10/33] fix: C interface: report errors from GetIpoptCurrent*
 through the return value

An evaluation error or wrong dimension raised an exception that was passed
through the C frames of the user's callback.
---
 src/Interfaces/IpStdCInterface.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpStdCInterface.cpp b/src/Interfaces/IpStdCInterface.cpp
index e9a7ca9..651b264 100644
--- a/src/Interfaces/IpStdCInterface.cpp
+++ b/src/Interfaces/IpStdCInterface.cpp
@@ -307,7 +307,16 @@ bool GetIpoptCurrentIterate(
       return false;
    }
 
-   return ipopt_problem->tnlp->get_curr_iterate(scaled, n, x, z_L, z_U, m, g, lambda);
+   // no exception should be passed through the C frames of the user callback
+   try
+   {
+      return ipopt_problem->tnlp->get_curr_iterate(scaled, n, x, z_L, z_U, m, g, lambda);
+   }
+   catch( Ipopt::IpoptException& exc )
+   {
+      exc.ReportException(*ipopt_problem->app->Jnlst(), Ipopt::J_ERROR);
+      return false;
+   }
 }
 
 bool GetIpoptCurrentViolations(
@@ -329,5 +338,14 @@ bool GetIpoptCurrentViolations(
       return false;
    }
 
-   return ipopt_problem->tnlp->get_curr_violations(scaled != 0, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+   // no exception should be passed through the C frames of the user callback
+   try
+   {
+      return ipopt_problem->tnlp->get_curr_violations(scaled != 0, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+   }
+   catch( Ipopt::IpoptException& exc )
+   {
+      exc.ReportException(*ipopt_problem->app->Jnlst(), Ipopt::J_ERROR);
+      return false;
+   }
 }
-- 
2.43.0


From 737c5ff278024ec6c55a0e6149c146174e37ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 11/33] fix: Java interface: report errors from get_curr_*
 through the return value

An evaluation error or wrong dimension raised a C++ exception that was passed
through the frames of the Java virtual machine.
---
 src/Interfaces/IpStdJInterface.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpStdJInterface.cpp b/src/Interfaces/IpStdJInterface.cpp
index f1544ee..635093a 100644
--- a/src/Interfaces/IpStdJInterface.cpp
+++ b/src/Interfaces/IpStdJInterface.cpp
@@ -911,7 +911,14 @@ extern "C"
          lambda = new Number[m];
       }
 
-      bool ok = problem->get_curr_iterate(ip_data, ip_cq, jscaled, n, x, z_L, z_U, m, g, lambda);
+      // no exception should be passed through the frames of the Java virtual machine
+      bool ok = false;
+      try
+      {
+         ok = problem->get_curr_iterate(ip_data, ip_cq, jscaled, n, x, z_L, z_U, m, g, lambda);
+      }
+      catch( IpoptException& )
+      { }
       if( ok )
       {
          if( jx != NULL )
@@ -1006,7 +1013,14 @@ extern "C"
          compl_g = new Number[m];
       }
 
-      bool ok = problem->get_curr_violations(ip_data, ip_cq, jscaled, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+      // no exception should be passed through the frames of the Java virtual machine
+      bool ok = false;
+      try
+      {
+         ok = problem->get_curr_violations(ip_data, ip_cq, jscaled, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+      }
+      catch( IpoptException& )
+      { }
       if( ok )
       {
          if( jx_L_violation != NULL )
-- 
2.43.0


From 7ec3bfd4a753b6280fa86d1b663ad0c0f991ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 12/33] fix: ReOptimizeNLP: handle exceptions like OptimizeNLP

Exceptions raised while reading options or finalizing the solution left
ReOptimizeNLP instead of being turned into a return code.
---
 src/Interfaces/IpIpoptApplication.cpp | 45 ++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 44525ae..322dca3 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -586,7 +586,50 @@ ApplicationReturnStatus IpoptApplication::ReOptimizeNLP(
    DBG_ASSERT(dynamic_cast<OrigIpoptNLP*> (GetRawPtr(ip_nlp_)));
    ASSERT_EXCEPTION(orig_nlp->nlp() == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
 
-   return call_optimize();
+   ApplicationReturnStatus retValue = Internal_Error;
+   try
+   {
+      retValue = call_optimize();
+   }
+   catch( OPTION_INVALID& exc )
+   {
+      exc.ReportException(*jnlst_, J_ERROR);
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Invalid option encountered.\n");
+      retValue = Invalid_Option;
+   }
+   catch( IpoptException& exc )
+   {
+      exc.ReportException(*jnlst_, J_ERROR);
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Some uncaught Ipopt exception encountered.\n");
+      retValue = Unrecoverable_Exception;
+   }
+   catch( std::bad_alloc& )
+   {
+      retValue = Insufficient_Memory;
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Not enough memory.\n");
+   }
+   catch( std::overflow_error& )
+   {
+      retValue = Insufficient_Memory;
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Integer type too small for required memory.\n");
+   }
+   catch( ... )
+   {
+      if( !rethrow_nonipoptexception_ )
+      {
+         IpoptException exc("Unknown Exception caught in Ipopt", "Unknown File", -1);
+         exc.ReportException(*jnlst_, J_ERROR);
+         retValue = NonIpopt_Exception_Thrown;
+      }
+      else
+      {
+         throw;
+      }
+   }
+
+   jnlst_->FlushBuffer();
+
+   return retValue;
 }
 
 ApplicationReturnStatus IpoptApplication::call_optimize()
-- 
2.43.0


From 60801276deae638ae0ab39fb9f180a167e831e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 13/33] fix: LibraryLoader: do not throw from destructor

A failing dlclose() raised an exception in the destructor, which terminates the program.
---
 src/Common/IpLibraryLoader.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Common/IpLibraryLoader.hpp b/src/Common/IpLibraryLoader.hpp
index fa496f6..2d3cfa0 100644
--- a/src/Common/IpLibraryLoader.hpp
+++ b/src/Common/IpLibraryLoader.hpp
@@ -47,7 +47,13 @@ public:
    /** destructor */
    ~LibraryLoader()
    {
-      unloadLibrary();
+      // a destructor must not throw
+      try
+      {
+         unloadLibrary();
+      }
+      catch( IpoptException& )
+      { }
    }
 
    /** tries to load library */
-- 
2.43.0


From e9af298927bc76b7a01ddc9e83386db3c577127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 14/33] fix: cached Lagrangian gradients and errors did not
 depend on mu in the restoration phase

---
 src/Algorithm/IpIpoptCalculatedQuantities.cpp | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/Algorithm/IpIpoptCalculatedQuantities.cpp b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
index df366ea..95f3eb3 100644
--- a/src/Algorithm/IpIpoptCalculatedQuantities.cpp
+++ b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
@@ -2008,10 +2008,12 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::curr_grad_lag_x()
    deps[2] = GetRawPtr(y_d);
    deps[3] = GetRawPtr(z_L);
    deps[4] = GetRawPtr(z_U);
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
-   if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps) )
+   if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
    {
-      if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps) )
+      if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
       {
          SmartPtr<Vector> tmp = x->MakeNew();
          DBG_PRINT_VECTOR(2, "curr_grad_f", *curr_grad_f());
@@ -2023,7 +2025,7 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::curr_grad_lag_x()
          ip_nlp_->Px_U()->MultVector(1., *z_U, 1., *tmp);
          result = ConstPtr(tmp);
       }
-      curr_grad_lag_x_cache_.AddCachedResult(result, deps);
+      curr_grad_lag_x_cache_.AddCachedResult(result, deps, sdeps);
    }
 
    return result;
@@ -2047,10 +2049,12 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_grad_lag_x()
    deps[2] = GetRawPtr(y_d);
    deps[3] = GetRawPtr(z_L);
    deps[4] = GetRawPtr(z_U);
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
-   if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps) )
+   if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
    {
-      if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps) )
+      if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
       {
          SmartPtr<Vector> tmp = x->MakeNew();
          DBG_PRINT_VECTOR(2, "trial_grad_f", *trial_grad_f());
@@ -2060,7 +2064,7 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_grad_lag_x()
          ip_nlp_->Px_U()->MultVector(1., *z_U, 1., *tmp);
          result = ConstPtr(tmp);
       }
-      trial_grad_lag_x_cache_.AddCachedResult(result, deps);
+      trial_grad_lag_x_cache_.AddCachedResult(result, deps, sdeps);
    }
 
    return result;
@@ -2676,8 +2680,9 @@ Number IpoptCalculatedQuantities::curr_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !curr_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -2722,8 +2727,9 @@ Number IpoptCalculatedQuantities::trial_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !trial_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -2769,8 +2775,9 @@ Number IpoptCalculatedQuantities::unscaled_curr_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !unscaled_curr_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -3071,9 +3078,11 @@ Number IpoptCalculatedQuantities::curr_nlp_error()
    tdeps[4] = GetRawPtr(z_L);
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
    tdeps[7] = GetRawPtr(v_U);
 
-   if( !curr_nlp_error_cache_.GetCachedResult(result, tdeps) )
+   if( !curr_nlp_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
       Number s_d = 0;
       Number s_c = 0;
@@ -3097,7 +3106,7 @@ Number IpoptCalculatedQuantities::curr_nlp_error()
                  curr_complementarity(mu_target_, NORM_MAX)));
       result = Max(result, curr_complementarity(mu_target_, NORM_MAX) / s_c);
 
-      curr_nlp_error_cache_.AddCachedResult(result, tdeps);
+      curr_nlp_error_cache_.AddCachedResult(result, tdeps, sdeps);
    }
 
    return result;
@@ -3127,9 +3136,11 @@ Number IpoptCalculatedQuantities::unscaled_curr_nlp_error()
    tdeps[4] = GetRawPtr(z_L);
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
    tdeps[7] = GetRawPtr(v_U);
 
-   if( !unscaled_curr_nlp_error_cache_.GetCachedResult(result, tdeps) )
+   if( !unscaled_curr_nlp_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
 
       // Dual infeasibility
@@ -3139,7 +3150,7 @@ Number IpoptCalculatedQuantities::unscaled_curr_nlp_error()
       // Complementarity
       result = Max(result, unscaled_curr_complementarity(mu_target_, NORM_MAX));
 
-      unscaled_curr_nlp_error_cache_.AddCachedResult(result, tdeps);
+      unscaled_curr_nlp_error_cache_.AddCachedResult(result, tdeps, sdeps);
    }
 
    return result;
@@ -3222,8 +3233,9 @@ Number IpoptCalculatedQuantities::curr_primal_dual_system_error(
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = mu;
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !curr_primal_dual_system_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
@@ -3282,8 +3294,9 @@ Number IpoptCalculatedQuantities::trial_primal_dual_system_error(
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = mu;
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !trial_primal_dual_system_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
-- 
2.43.0


From f10ed7b000a42625a89511beea3d8adebf1bffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 15/33] fix: curr_barrier_error stored its result under other
 dependencies than it looks up

---
 src/Algorithm/IpIpoptCalculatedQuantities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpIpoptCalculatedQuantities.cpp b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
index 95f3eb3..3e61c0f 100644
--- a/src/Algorithm/IpIpoptCalculatedQuantities.cpp
+++ b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
@@ -3200,7 +3200,7 @@ Number IpoptCalculatedQuantities::curr_barrier_error()
       // Complementarity
       result = Max(result, curr_complementarity(mu, NORM_MAX) / s_c);
 
-      curr_barrier_error_cache_.AddCachedResult(result, tdeps);
+      curr_barrier_error_cache_.AddCachedResult(result, tdeps, sdeps);
    }
 
    return result;
-- 
2.43.0


From 4246b4be8ddf7eef5d916b4c133baec263853e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 16/33] fix: D_d replaced the other terms in the reduced
 restoration system

---
 src/Algorithm/IpAugRestoSystemSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpAugRestoSystemSolver.cpp b/src/Algorithm/IpAugRestoSystemSolver.cpp
index 5f95084..44c0d2d 100644
--- a/src/Algorithm/IpAugRestoSystemSolver.cpp
+++ b/src/Algorithm/IpAugRestoSystemSolver.cpp
@@ -396,7 +396,7 @@ SmartPtr<const Vector> AugRestoSystemSolver::Neg_Omega_d_plus_D_d(
          }
          if( D_d )
          {
-            retVec->Copy(*D_d);
+            retVec->Axpy(1.0, *D_d);
          }
          neg_omega_d_plus_D_d_cache_.AddCachedResult(retVec, deps, scalar_deps);
       }
-- 
2.43.0


From c84687e30f1c6dd4ee8d3f51bfdafe6feefdf815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 17/33] fix: cached curr_added_y_nrm2 did not depend on the
 step

---
 src/contrib/CGPenalty/IpCGPenaltyCq.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
index bb69756..394137b 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
@@ -446,10 +446,14 @@ Number CGPenaltyCq::curr_added_y_nrm2()
    SmartPtr<const Vector> x = ip_data_->curr()->x();
    SmartPtr<const Vector> y_c = ip_data_->curr()->y_c();
    SmartPtr<const Vector> y_d = ip_data_->curr()->y_d();
-   std::vector<const TaggedObject*> deps(3);
+   SmartPtr<const Vector> dy_c = ip_data_->delta()->y_c();
+   SmartPtr<const Vector> dy_d = ip_data_->delta()->y_d();
+   std::vector<const TaggedObject*> deps(5);
    deps[0] = GetRawPtr(x);
    deps[1] = GetRawPtr(y_c);
    deps[2] = GetRawPtr(y_d);
+   deps[3] = GetRawPtr(dy_c);
+   deps[4] = GetRawPtr(dy_d);
    if( !curr_added_y_nrm2_cache_.GetCachedResult(result, deps) )
    {
       SmartPtr<Vector> y_c_plus_dy_c = ip_data_->delta()->y_c()->MakeNew();
-- 
2.43.0


From 072c9c9767184527933caa6466c50852b12f867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 18/33] fix: cached penalty function derivatives did not depend
 on the penalty perturbation

---
 src/contrib/CGPenalty/IpCGPenaltyCq.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
index 394137b..3e8a10b 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
@@ -197,9 +197,10 @@ Number CGPenaltyCq::curr_direct_deriv_penalty_function()
    tdeps[7] = GetRawPtr(ds);
    Number mu = ip_data_->curr_mu();
    Number penalty = CGPenData().curr_penalty();
-   std::vector<Number> sdeps(2);
+   std::vector<Number> sdeps(3);
    sdeps[0] = mu;
    sdeps[1] = penalty;
+   sdeps[2] = CGPenData().CurrPenaltyPert();
    if( !curr_direct_deriv_penalty_function_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
       result = ip_cq_->curr_grad_barrier_obj_x()->Dot(*dx) + ip_cq_->curr_grad_barrier_obj_s()->Dot(*ds);
@@ -245,9 +246,10 @@ Number CGPenaltyCq::curr_fast_direct_deriv_penalty_function()
    tdeps[5] = GetRawPtr(ds);
    Number mu = ip_data_->curr_mu();
    Number penalty = CGPenData().curr_penalty();
-   std::vector<Number> sdeps(2);
+   std::vector<Number> sdeps(3);
    sdeps[0] = mu;
    sdeps[1] = penalty;
+   sdeps[2] = CGPenData().CurrPenaltyPert();
    if( !curr_fast_direct_deriv_penalty_function_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
       result = ip_cq_->curr_grad_barrier_obj_x()->Dot(*dx) + ip_cq_->curr_grad_barrier_obj_s()->Dot(*ds);
-- 
2.43.0


From 5fc0072a339f850679ad2b23ddb30a38bd9b6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 19/33] fix: CG penalty estimate uses the step of the
 inequality multipliers for J_d^T dy_d

---
 src/contrib/CGPenalty/IpCGPenaltyCq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
index 3e8a10b..24fb7a6 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
@@ -345,7 +345,7 @@ Number CGPenaltyCq::compute_curr_cg_penalty(
    SmartPtr<Vector> tem_jac_cT_times_y_c_plus_dy_c = tem_jac_cT_times_y_c->MakeNew();
    tem_jac_cT_times_y_c_plus_dy_c->AddTwoVectors(1., *tem_jac_cT_times_y_c, 1., *tem_jac_cT_times_dy_c, 0.);
    SmartPtr<const Vector> tem_jac_dT_times_y_d = ip_cq_->curr_jac_dT_times_vec(*y_d);
-   SmartPtr<const Vector> tem_jac_dT_times_dy_d = ip_cq_->curr_jac_cT_times_vec(*dy_c);
+   SmartPtr<const Vector> tem_jac_dT_times_dy_d = ip_cq_->curr_jac_dT_times_vec(*dy_d);
    SmartPtr<Vector> tem_jac_dT_times_y_d_plus_dy_d = tem_jac_cT_times_y_c->MakeNew();
    tem_jac_dT_times_y_d_plus_dy_d->AddTwoVectors(1., *tem_jac_dT_times_y_d, 1., *tem_jac_dT_times_dy_d, 0.);
    Number d_xs_times_damped_Hessian_times_d_xs = -deriv_barrier_dx_ds;
-- 
2.43.0


From a70d257c11f6b2736c3a3c0be5ab34560d5908f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 20/33] fix: least-square starting point fits the constraints
 linearized at the given point

CalculateLeastSquarePrimals took the constraint values at the user's point as
those of the linearization at zero, so that the point it computed did not fit
the linearized constraints unless the user's point was zero.
---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index 226e2cf..9ef3fc9 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -364,8 +364,13 @@ bool DefaultIterateInitializer::CalculateLeastSquarePrimals(
    SmartPtr<Vector> rhs_s = s_ls.MakeNew();
    rhs_s->Set(0.);
 
-   SmartPtr<const Vector> rhs_c = IpCq().curr_c();
-   SmartPtr<const Vector> rhs_d = IpCq().curr_d();
+   // the linearization of the constraints at the current point x0 is
+   // c(x0) + J_c (x - x0) and d(x0) + J_d (x - x0)
+   SmartPtr<const Vector> x0 = IpData().curr()->x();
+   SmartPtr<Vector> rhs_c = IpCq().curr_c()->MakeNewCopy();
+   J_c->MultVector(-1., *x0, 1., *rhs_c);
+   SmartPtr<Vector> rhs_d = IpCq().curr_d()->MakeNewCopy();
+   J_d->MultVector(-1., *x0, 1., *rhs_d);
 
    SmartPtr<Vector> sol_c = rhs_c->MakeNew();
    SmartPtr<Vector> sol_d = rhs_d->MakeNew();
-- 
2.43.0


From a8e31243259b77f1717122265773c45a1a7e66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 21/33] fix: mark matrices as changed when their terms,
 diagonal or factor are replaced

---
 src/LinAlg/IpDiagMatrix.hpp     | 1 +
 src/LinAlg/IpIdentityMatrix.hpp | 1 +
 src/LinAlg/IpSumMatrix.cpp      | 1 +
 src/LinAlg/IpSumSymMatrix.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/LinAlg/IpDiagMatrix.hpp b/src/LinAlg/IpDiagMatrix.hpp
index f12f84f..e484370 100644
--- a/src/LinAlg/IpDiagMatrix.hpp
+++ b/src/LinAlg/IpDiagMatrix.hpp
@@ -38,6 +38,7 @@ public:
    )
    {
       diag_ = &diag;
+      ObjectChanged();
    }
 
    /** Get the diagonal elements. */
diff --git a/src/LinAlg/IpIdentityMatrix.hpp b/src/LinAlg/IpIdentityMatrix.hpp
index 6f0e429..426aa26 100644
--- a/src/LinAlg/IpIdentityMatrix.hpp
+++ b/src/LinAlg/IpIdentityMatrix.hpp
@@ -36,6 +36,7 @@ public:
    )
    {
       factor_ = factor;
+      ObjectChanged();
    }
 
    /** Method for getting the factor for the identity matrix. */
diff --git a/src/LinAlg/IpSumMatrix.cpp b/src/LinAlg/IpSumMatrix.cpp
index c50746f..5566537 100644
--- a/src/LinAlg/IpSumMatrix.cpp
+++ b/src/LinAlg/IpSumMatrix.cpp
@@ -33,6 +33,7 @@ void SumMatrix::SetTerm(
    DBG_ASSERT(iterm < owner_space_->NTerms());
    factors_[iterm] = factor;
    matrices_[iterm] = &matrix;
+   ObjectChanged();
 }
 
 void SumMatrix::GetTerm(
diff --git a/src/LinAlg/IpSumSymMatrix.cpp b/src/LinAlg/IpSumSymMatrix.cpp
index dfb2fe6..59bc967 100644
--- a/src/LinAlg/IpSumSymMatrix.cpp
+++ b/src/LinAlg/IpSumSymMatrix.cpp
@@ -33,6 +33,7 @@ void SumSymMatrix::SetTerm(
    DBG_ASSERT(iterm < owner_space_->NTerms());
    factors_[iterm] = factor;
    matrices_[iterm] = &matrix;
+   ObjectChanged();
 }
 
 void SumSymMatrix::GetTerm(
-- 
2.43.0


From b6ed61d68c4e4d64446461a975fef49826fbddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 22/33] fix: option adaptive_mu_kkt_norm_type was ignored

---
 src/Algorithm/IpAdaptiveMuUpdate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpAdaptiveMuUpdate.cpp b/src/Algorithm/IpAdaptiveMuUpdate.cpp
index fda6939..3979eda 100644
--- a/src/Algorithm/IpAdaptiveMuUpdate.cpp
+++ b/src/Algorithm/IpAdaptiveMuUpdate.cpp
@@ -194,7 +194,7 @@ bool AdaptiveMuUpdate::InitializeImpl(
    options.GetNumericValue("mu_linear_decrease_factor", mu_linear_decrease_factor_, prefix);
    options.GetNumericValue("mu_superlinear_decrease_power", mu_superlinear_decrease_power_, prefix);
 
-   options.GetEnumValue("quality_function_norm_type", enum_int, prefix);
+   options.GetEnumValue("adaptive_mu_kkt_norm_type", enum_int, prefix);
    adaptive_mu_kkt_norm_ = QualityFunctionMuOracle::NormEnum(enum_int);
    options.GetEnumValue("quality_function_centrality", enum_int, prefix);
    adaptive_mu_kkt_centrality_ = QualityFunctionMuOracle::CentralityEnum(enum_int);
-- 
2.43.0


From ea51d44ec3390ed0ea37b5ca2fed25f7ce8e0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:44 +0000
Subject: [PATCH 23/33] fix: copying a RegisteredOption lost its default and
 the strictness of its bounds

---
 src/Common/IpRegOptions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 38ad026..341e693 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -207,10 +207,14 @@ public:
         type_(copy.type_),
         advanced_(copy.advanced_),
         has_lower_(copy.has_lower_),
+        lower_strict_(copy.lower_strict_),
         lower_(copy.lower_),
         has_upper_(copy.has_upper_),
+        upper_strict_(copy.upper_strict_),
         upper_(copy.upper_),
+        default_number_(copy.default_number_),
         valid_strings_(copy.valid_strings_),
+        default_string_(copy.default_string_),
         counter_(copy.counter_)
    { }
 
-- 
2.43.0


From 1f6734bd13a06df3a30f6819fceb05f3609bc6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:16 +0000
Subject: [PATCH 24/33] fix: filter resets were not counted, so
 max_filter_resets did not limit them

---
 src/Algorithm/IpFilterLSAcceptor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index bd381a2..949d658 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -413,6 +413,7 @@ FilterLSAcceptor::CheckAcceptabilityOfTrialPoint(
                               "Resetting filter because in %" IPOPT_INDEX_FORMAT " iterations last rejection was due to filter", count_successive_filter_rejections_);
                IpData().Append_info_string("F+");
                Reset();
+               n_filter_resets_++;
             }
          }
          else
-- 
2.43.0


From 8644a414cac7042085caa5b92d90f0710aca903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:18 +0000
Subject: [PATCH 25/33] fix: MA77, MA86, MA97 kept the previous inertia count
 when the inertia was wrong

---
 src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp | 2 +-
 src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp | 2 +-
 src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp
index 26d947a..5997f6d 100644
--- a/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp
@@ -487,12 +487,12 @@ ESymSolverStatus Ma77SolverInterface::MultiSolve(
       {
          return SYMSOLVER_FATAL_ERROR;
       }
+      numneg_ = info.num_neg;
       if( check_NegEVals && info.num_neg != numberOfNegEVals )
       {
          return SYMSOLVER_WRONG_INERTIA;
       }
 
-      numneg_ = info.num_neg;
       pivtol_changed_ = false;
    }
    else
diff --git a/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp
index e8155d3..0b0f0f5 100644
--- a/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp
@@ -390,6 +390,7 @@ ESymSolverStatus Ma86SolverInterface::MultiSolve(
       {
          return SYMSOLVER_SINGULAR;
       }
+      numneg_ = info.num_neg;
       if( check_NegEVals && info.num_neg != numberOfNegEVals )
       {
          return SYMSOLVER_WRONG_INERTIA;
@@ -403,7 +404,6 @@ ESymSolverStatus Ma86SolverInterface::MultiSolve(
        IpData().TimingStats().LinearSystemBackSolve().End();
        }*/
 
-      numneg_ = info.num_neg;
       pivtol_changed_ = false;
    }
    else
diff --git a/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp
index 02f41ff..eb9ae3d 100644
--- a/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp
@@ -776,6 +776,7 @@ ESymSolverStatus Ma97SolverInterface::MultiSolve(
                         "In Ma97SolverInterface::Factorization: Unhandled error. info.flag = %d\n", info.flag);
          return SYMSOLVER_FATAL_ERROR;
       }
+      numneg_ = info.num_neg;
       if( check_NegEVals && info.num_neg != numberOfNegEVals )
       {
          Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
@@ -793,7 +794,6 @@ ESymSolverStatus Ma97SolverInterface::MultiSolve(
          IpData().TimingStats().LinearSystemBackSolve().End();
       }
 
-      numneg_ = info.num_neg;
       pivtol_changed_ = false;
    }
    else
-- 
2.43.0


From 5accc1f08ae36a4a642be470457308d74ea90b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:18 +0000
Subject: [PATCH 26/33] fix: MA57, MA77, MA86 reported success when the back
 solve failed

---
 src/Algorithm/LinearSolvers/IpMa57TSolverInterface.cpp | 7 ++++++-
 src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp  | 4 ++++
 src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp  | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/LinearSolvers/IpMa57TSolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMa57TSolverInterface.cpp
index 8df8571..ecf1dfc 100644
--- a/src/Algorithm/LinearSolvers/IpMa57TSolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMa57TSolverInterface.cpp
@@ -763,6 +763,7 @@ ESymSolverStatus Ma57TSolverInterface::Backsolve(
    ma57int nrhs_X = nrhs;
    ma57int lrhs = n;
 
+   ESymSolverStatus retval = SYMSOLVER_SUCCESS;
    ma57int lwork;
    Number* work;
 
@@ -788,6 +789,10 @@ ESymSolverStatus Ma57TSolverInterface::Backsolve(
    {
       Jnlst().Printf(J_ERROR, J_LINEAR_ALGEBRA,
                      "Error in MA57CD:  %" IPOPT_INDEX_FORMAT ".\n", wd_info_[0]);
+      if( wd_info_[0] < 0 )
+      {
+         retval = SYMSOLVER_FATAL_ERROR;
+      }
    }
 
    if( DBG_VERBOSITY() >= 2 )
@@ -807,7 +812,7 @@ ESymSolverStatus Ma57TSolverInterface::Backsolve(
    {
       IpData().TimingStats().LinearSystemBackSolve().End();
    }
-   return SYMSOLVER_SUCCESS;
+   return retval;
 }
 
 Index Ma57TSolverInterface::NumberOfNegEVals() const
diff --git a/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp
index 5997f6d..c99f760 100644
--- a/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp
@@ -506,6 +506,10 @@ ESymSolverStatus Ma77SolverInterface::MultiSolve(
       {
          IpData().TimingStats().LinearSystemBackSolve().End();
       }
+      if( info.flag < 0 )
+      {
+         return SYMSOLVER_FATAL_ERROR;
+      }
    }
 
    return SYMSOLVER_SUCCESS;
diff --git a/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp
index 0b0f0f5..ae30f28 100644
--- a/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp
@@ -418,6 +418,10 @@ ESymSolverStatus Ma86SolverInterface::MultiSolve(
       {
          IpData().TimingStats().LinearSystemBackSolve().End();
       }
+      if( info.flag < 0 )
+      {
+         return SYMSOLVER_FATAL_ERROR;
+      }
    }
 
    return SYMSOLVER_SUCCESS;
-- 
2.43.0


From 6c4512e3a1f4b3ea4ece3207f4dbf2feceab5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:30 +0000
Subject: [PATCH 27/33] fix: step computation ignored that no Hessian
 perturbation could be chosen

PDFullSpaceSolver::SolveOnce ignored the return value of
PDPerturbationHandler::ConsiderNewSystem, so that the (then uninitialized)
perturbations were used if the maximal perturbation was exceeded.
Also stop the timer when the linear solver fails.
---
 src/Algorithm/IpPDFullSpaceSolver.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpPDFullSpaceSolver.cpp b/src/Algorithm/IpPDFullSpaceSolver.cpp
index 195ab4d..b9bc684 100644
--- a/src/Algorithm/IpPDFullSpaceSolver.cpp
+++ b/src/Algorithm/IpPDFullSpaceSolver.cpp
@@ -494,7 +494,13 @@ bool PDFullSpaceSolver::SolveOnce(
       Number delta_s;
       Number delta_c;
       Number delta_d;
-      perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d);
+      if( !perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d) )
+      {
+         Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
+                        "ConsiderNewSystem can't be done\n");
+         IpData().TimingStats().PDSystemSolverSolveOnce().End();
+         return false;
+      }
 
       retval = SYMSOLVER_SINGULAR;
       while( retval != SYMSOLVER_SUCCESS )
@@ -522,6 +528,7 @@ bool PDFullSpaceSolver::SolveOnce(
          }
          if( retval == SYMSOLVER_FATAL_ERROR )
          {
+            IpData().TimingStats().PDSystemSolverSolveOnce().End();
             return false;
          }
          if( retval == SYMSOLVER_SINGULAR && (rhs.y_c()->Dim() + rhs.y_d()->Dim() > 0) )
-- 
2.43.0


From 18e013f0b506c8c822e741187e91675225d70a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:31 +0000
Subject: [PATCH 28/33] fix: initial bound multipliers were scaled in the wrong
 direction when variables are scaled

---
 src/Algorithm/IpNLPScaling.cpp   | 29 +++++++++++++++++++++++++++++
 src/Algorithm/IpNLPScaling.hpp   |  7 +++++++
 src/Algorithm/IpOrigIpoptNLP.cpp |  4 ++--
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpNLPScaling.cpp b/src/Algorithm/IpNLPScaling.cpp
index 6ee1e83..a7f51c0 100644
--- a/src/Algorithm/IpNLPScaling.cpp
+++ b/src/Algorithm/IpNLPScaling.cpp
@@ -68,6 +68,35 @@ SmartPtr<const Vector> NLPScalingObject::apply_vector_scaling_x_LU(
    }
 }
 
+SmartPtr<Vector> NLPScalingObject::unapply_vector_scaling_x_LU_NonConst(
+   const Matrix&                 Px_LU,
+   const SmartPtr<const Vector>& lu,
+   const VectorSpace&            x_space
+)
+{
+   DBG_START_METH("NLPScalingObject::unapply_vector_scaling_x_LU_NonConst", dbg_verbosity);
+   SmartPtr<Vector> unscaled_x_LU = lu->MakeNew();
+   if( have_x_scaling() )
+   {
+      SmartPtr<Vector> tmp_x = x_space.MakeNew();
+
+      // move to full x space
+      Px_LU.MultVector(1.0, *lu, 0.0, *tmp_x);
+
+      // unscale in full x space
+      tmp_x = unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+
+      // move back to x_L space
+      Px_LU.TransMultVector(1.0, *tmp_x, 0.0, *unscaled_x_LU);
+   }
+   else
+   {
+      unscaled_x_LU->Copy(*lu);
+   }
+
+   return unscaled_x_LU;
+}
+
 SmartPtr<Vector> NLPScalingObject::apply_vector_scaling_d_LU_NonConst(
    const Matrix&                 Pd_LU,
    const SmartPtr<const Vector>& lu,
diff --git a/src/Algorithm/IpNLPScaling.hpp b/src/Algorithm/IpNLPScaling.hpp
index ea8b383..154cd4a 100644
--- a/src/Algorithm/IpNLPScaling.hpp
+++ b/src/Algorithm/IpNLPScaling.hpp
@@ -181,6 +181,13 @@ public:
       const VectorSpace&            x_space
    );
 
+   /** Returns an x-unscaled vector in the x_L or x_U space */
+   SmartPtr<Vector> unapply_vector_scaling_x_LU_NonConst(
+      const Matrix&                 Px_LU,
+      const SmartPtr<const Vector>& lu,
+      const VectorSpace&            x_space
+   );
+
    /** Returns an d-scaled vector in the d_L or d_U space */
    SmartPtr<Vector> apply_vector_scaling_d_LU_NonConst(
       const Matrix&                 Pd_LU,
diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..91f9494 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -434,7 +434,7 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         z_L = NLP_scaling()->unapply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
       }
       if( obj_scal != 1. )
       {
@@ -446,7 +446,7 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         z_U = NLP_scaling()->unapply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From 88c9030eaf7c5ac48d139de766055e5124f5f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:55 +0000
Subject: [PATCH 29/33] fix: ElementWiseSelect of dense vectors multiplied
 instead of selecting when a vector was homogeneous

---
 src/LinAlg/IpDenseVector.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5b90313..f200a30 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -407,7 +407,7 @@ void DenseVector::ElementWiseSelectImpl(
       }
       if( dense_x->homogeneous_ )
       {
-         scalar_ *= dense_x->scalar_;
+         scalar_ = scalar_ > 0.0 ? dense_x->scalar_ : -dense_x->scalar_;
       }
       else
       {
@@ -415,7 +415,7 @@ void DenseVector::ElementWiseSelectImpl(
          Number* vals = values_allocated();
          for( Index i = 0; i < Dim(); i++ )
          {
-            vals[i] = scalar_ * values_x[i];
+            vals[i] = scalar_ > 0.0 ? values_x[i] : -values_x[i];
          }
       }
    }
@@ -423,20 +423,17 @@ void DenseVector::ElementWiseSelectImpl(
    {
       if( dense_x->homogeneous_ )
       {
-         if( dense_x->scalar_ != 1.0 )
+         for( Index i = 0; i < Dim(); i++ )
          {
-            for( Index i = 0; i < Dim(); i++ )
+            if( values_[i] > 0.0 )
             {
-               if( values_[i] > 0.0 )
-               {
-                  values_[i] = dense_x->scalar_;
-               }
-               else if( values_[i] < 0.0 )
-               {
-                  values_[i] = -dense_x->scalar_;
-               }
-               // else values_[i] remains at 0.0
+               values_[i] = dense_x->scalar_;
             }
+            else if( values_[i] < 0.0 )
+            {
+               values_[i] = -dense_x->scalar_;
+            }
+            // else values_[i] remains at 0.0
          }
       }
       else
-- 
2.43.0


From e2eebefc55a9d5aa78985a00fdf8205d6ecb8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:55 +0000
Subject: [PATCH 30/33] fix: DenseVector::AddTwoVectors added the second vector
 Dim() times for factors 0, 1, 1

---
 src/LinAlg/IpDenseVector.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index f200a30..aa44edb 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -907,10 +907,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasCopy(Dim(), values_v2, 1, values_, 1);
-            }
+            IpBlasCopy(Dim(), values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
@@ -1025,10 +1022,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
-            }
+            IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
-- 
2.43.0


From 5b37655490059ffc322b8db5b8589a561ab6f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:55 +0000
Subject: [PATCH 31/33] fix: DenseVector::CopyToPos copied its own value
 instead of that of a homogeneous argument

---
 src/LinAlg/IpDenseVector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index aa44edb..c6f71f6 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1538,12 +1538,17 @@ void DenseVector::CopyToPos(
    const DenseVector* dense_x = static_cast<const DenseVector*>(&x);
    DBG_ASSERT(dynamic_cast<const DenseVector*>(&x));
 
+   if( initialized_ && homogeneous_ )
+   {
+      // keep the elements outside of the part that is overwritten
+      set_values_from_scalar();
+   }
    Number* vals = values_allocated();
    homogeneous_ = false;
 
    if( dense_x->homogeneous_ )
    {
-      IpBlasCopy(dim_x, &scalar_, 0, vals + Pos, 1);
+      IpBlasCopy(dim_x, &dense_x->scalar_, 0, vals + Pos, 1);
    }
    else
    {
-- 
2.43.0


From e671b16f361b3de4fd2bc9c4b2e25fd24f65fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:52 +0000
Subject: [PATCH 32/33] fix: SymTMatrix::ComputeRowAMax discarded the maxima it
 should be combined with

---
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..118f180 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -182,9 +182,6 @@ void SymTMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
    DBG_ASSERT(vec_vals != NULL);
 
-   const Number zero = 0.;
-   IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
-
    vec_vals--; // to deal with 1-based indexing in irn and jcn (I believe)
    for( Index i = 0; i < Nonzeros(); i++ )
    {
-- 
2.43.0


From 7862420ff5a7526d256c0ac9ae5a5d42300a0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:52 +0000
Subject: [PATCH 33/33] fix: IdentityMatrix ignored its factor in AddMSinvZ and
 ComputeRowAMax

---
 src/LinAlg/IpIdentityMatrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 10ff48e..d529b30 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -6,6 +6,8 @@
 
 #include "IpIdentityMatrix.hpp"
 
+#include <cmath>
+
 namespace Ipopt
 {
 
@@ -52,12 +54,12 @@ void IdentityMatrix::ComputeRowAMaxImpl(
 {
    if( init )
    {
-      rows_norms.Set(1.);
+      rows_norms.Set(std::abs(factor_));
    }
    else
    {
       SmartPtr<Vector> v = rows_norms.MakeNew();
-      v->Set(1.);
+      v->Set(std::abs(factor_));
       rows_norms.ElementWiseMax(*v);
    }
 }
@@ -91,7 +93,7 @@ void IdentityMatrix::AddMSinvZImpl(
    DBG_ASSERT(NCols() == Z.Dim());
    DBG_ASSERT(NCols() == X.Dim());
 
-   X.AddVectorQuotient(alpha, Z, S, 1.);
+   X.AddVectorQuotient(alpha * factor_, Z, S, 1.);
 }
 
 } // namespace Ipopt
-- 
2.43.0

