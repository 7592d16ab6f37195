From bf93482f8788ed5dc374bf66fc1351f90f415b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 01/26] fix: powvp_reverse must not discard argument partials
 when the base is zero

In reverse mode for z = pow(x, p) with p a parameter, when x[0] was zero
the partials px[j], accumulated by operators after this one, were replaced
by zero (instead of being left as is).
---
 include/cppad/local/var_op/pow_op.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/local/var_op/pow_op.hpp b/include/cppad/local/var_op/pow_op.hpp
index 67e4756..b970285 100644
--- a/include/cppad/local/var_op/pow_op.hpp
+++ b/include/cppad/local/var_op/pow_op.hpp
@@ -729,7 +729,7 @@ inline void powvp_reverse(
     work[0] += azmul(pz[0], y * z[0] / x[0]);
     //
     for(j = 0; j < n_order; ++j)
-        px[j] = CondExpEq(x[0], b0, b0, work[j]);
+        px[j] = CondExpEq(x[0], b0, px[j], work[j]);
 }
 
 } } } // END namespace
-- 
2.43.0


From c8686266c85e66557b2a3b6e2a3221bfdab2968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 02/26] fix: optimize must keep VecAD stores of parameters

The operator usage analysis had no case for the StppOp and StvpOp
operators, so optimize() removed stores of parameters into VecAD vectors
and later loads returned older elements.
---
 include/cppad/local/optimize/get_op_usage.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/cppad/local/optimize/get_op_usage.hpp b/include/cppad/local/optimize/get_op_usage.hpp
index 99806a9..ea3bfcc 100644
--- a/include/cppad/local/optimize/get_op_usage.hpp
+++ b/include/cppad/local/optimize/get_op_usage.hpp
@@ -654,6 +654,24 @@ void get_op_usage(
             }
             break; // --------------------------------------------
 
+            // Store a parameter using a parameter index
+            case StppOp:
+            CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
+            if( vecad_used[ arg2vecad[ arg[0] ] ] )
+                op_usage[i_op] = usage_t(yes_usage);
+            break; // --------------------------------------------
+
+            // Store a parameter using a variable index
+            case StvpOp:
+            CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
+            if( vecad_used[ arg2vecad[ arg[0] ] ] )
+            {   op_usage[i_op] = usage_t(yes_usage);
+                //
+                size_t j_op = random_itr.var2op(size_t(arg[1]));
+                op_usage[j_op] = usage_t(yes_usage);
+            }
+            break; // --------------------------------------------
+
             // Store a variable using a parameter index
             case StpvOp:
             CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
-- 
2.43.0


From 8ac46c854614083391eca03fff188eedc95e7cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 03/26] fix: CondExp with constant comparison operands must not
 drop the branches

When left and right are identically constant, CondExp returned a constant
with the current value of the selected branch, even when that branch is a
variable or a dynamic parameter, so replay and derivatives were wrong.
---
 include/cppad/core/cond_exp.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/cond_exp.hpp b/include/cppad/core/cond_exp.hpp
index 2e354f9..797c558 100644
--- a/include/cppad/core/cond_exp.hpp
+++ b/include/cppad/core/cond_exp.hpp
@@ -173,9 +173,15 @@ AD<Base> CondExpOp(
 
     // check first case where do not need to tape
     if( IdenticalCon(left) && IdenticalCon(right) )
-    {   result = CondExpOp(
-            cop, left.value_, right.value_, if_true.value_, if_false.value_
+    {   // the comparison does not change, but if_true and if_false may be
+        // variables or dynamic parameters
+        Base flag = CondExpOp(
+            cop, left.value_, right.value_, Base(1), Base(0)
         );
+        if( IdenticalOne(flag) )
+            result = if_true;
+        else
+            result = if_false;
         return result;
     }
 
-- 
2.43.0


From 66fed360e4435102070d033373b1570028c04881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 04/26] fix: optimize must not skip operators used by VecAD
 loads and stores

Operators whose results were used as a VecAD index or element, and also in
only one branch of a conditional expression, were conditionally skipped
because the VecAD usage did not update the conditional expression sets.
---
 include/cppad/local/optimize/get_op_usage.hpp | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/cppad/local/optimize/get_op_usage.hpp b/include/cppad/local/optimize/get_op_usage.hpp
index ea3bfcc..656b410 100644
--- a/include/cppad/local/optimize/get_op_usage.hpp
+++ b/include/cppad/local/optimize/get_op_usage.hpp
@@ -650,7 +650,9 @@ void get_op_usage(
                 vecad_used[i_vec] = true;
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -668,7 +670,9 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -679,7 +683,9 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[2]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -690,9 +696,13 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
                 size_t k_op = random_itr.var2op(size_t(arg[2]));
-                op_usage[k_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, k_op, op_usage, cexp_set
+                );
             }
             break; // -----------------------------------------------------
 
-- 
2.43.0


From d001ed97595bb83ca5ff967ea4494a1cae17f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 05/26] fix: higher order forward sweeps must not count
 comparison changes again

---
 include/cppad/local/sweep/forward_any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/local/sweep/forward_any.hpp b/include/cppad/local/sweep/forward_any.hpp
index 0a8eea5..3be79b2 100644
--- a/include/cppad/local/sweep/forward_any.hpp
+++ b/include/cppad/local/sweep/forward_any.hpp
@@ -200,7 +200,7 @@ void forward_any(
             case NeppOp:
             case NepvOp:
             case NevvOp:
-            var_op::compare_forward_any(op,
+            if( order_low == 0 ) var_op::compare_forward_any(op,
                 arg, parameter, cap_order, taylor, itr.op_index(),
                 change_count, change_number, change_op_index
             );
-- 
2.43.0


From 10c5f25f36f2705bb643e4511f7fa4160e5b79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 06/26] fix: optimize must resize the VecAD load index to the
 new recording

---
 include/cppad/core/optimize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/core/optimize.hpp b/include/cppad/core/optimize.hpp
index 011a97a..c760908 100644
--- a/include/cppad/core/optimize.hpp
+++ b/include/cppad/core/optimize.hpp
@@ -383,6 +383,9 @@ void ADFun<Base,RecBase>::optimize(const std::string& options)
     // (must use player size because it now has the recoreder information)
     cskip_op_.resize( play_.num_var_op() );
 
+    // resize mapping from VecAD load instances to variables
+    load_op2var_.resize( play_.num_var_load() );
+
     // resize subgraph_info_
     subgraph_info_.resize(
         ind_taddr_.size(),    // n_ind
-- 
2.43.0


From d0648b45ce15c7b132153f616e6b3fa3bd6220c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 07/26] fix: optimizing again must keep dynamic parameters used
 by a cumulative sum

---
 include/cppad/local/optimize/get_par_usage.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/optimize/get_par_usage.hpp b/include/cppad/local/optimize/get_par_usage.hpp
index 4360fc1..66f1aaf 100644
--- a/include/cppad/local/optimize/get_par_usage.hpp
+++ b/include/cppad/local/optimize/get_par_usage.hpp
@@ -250,8 +250,14 @@ void get_par_usage(
             break;
 
 
-            // cases where only first argument is a parameter
+            // initial value and dynamic parameters in the summation
             case CSumOp:
+            par_usage[arg[0]] = true;
+            for(addr_t i = arg[2]; i < arg[4]; ++i)
+                par_usage[arg[i]] = true;
+            break;
+
+            // cases where only first argument is a parameter
             case EqpvOp:
             case DivpvOp:
             case LepvOp:
@@ -261,7 +267,7 @@ void get_par_usage(
             case ParOp:
             case PowpvOp:
             case ZmulpvOp:
-            CPPAD_ASSERT_UNKNOWN( 1 <= NumArg(op) || op == CSumOp )
+            CPPAD_ASSERT_UNKNOWN( 1 <= NumArg(op) )
             par_usage[arg[0]] = true;
             break;
 
-- 
2.43.0


From b0c8b3a434263e8bf039ca3afcb584bce66e51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 08/26] fix: CppAD::vector assignment to itself keeps the
 elements

---
 include/cppad/utility/vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cppad/utility/vector.hpp b/include/cppad/utility/vector.hpp
index e49ceac..40163cb 100644
--- a/include/cppad/utility/vector.hpp
+++ b/include/cppad/utility/vector.hpp
@@ -382,7 +382,11 @@ public:
 // BEGIN_ASSIGN
     vector& operator=(const vector& other)
 // END_ASSIGN
-    {  // avoid copying old elements
+    {  // special case where vec and other are the same vector
+        if( this == &other )
+            return *this;
+        //
+        // avoid copying old elements
         resize(0);
         // new size for this vector
         resize( other.length_ );
-- 
2.43.0


From 2bf436e8652538c5a319e8773e1d4c3a8987becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 09/26] fix: sparse_rc equality when only one of the patterns
 has its order stored

---
 include/cppad/utility/sparse_rc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/utility/sparse_rc.hpp b/include/cppad/utility/sparse_rc.hpp
index 85d322e..cc0173c 100644
--- a/include/cppad/utility/sparse_rc.hpp
+++ b/include/cppad/utility/sparse_rc.hpp
@@ -448,11 +448,11 @@ public:
         bool this_col_ok  = col_major_.size() > 0;
         bool other_row_ok = other.row_major_.size() > 0;
         bool other_col_ok = other.col_major_.size() > 0;
-        if( this_row_ok && this_row_ok )
+        if( this_row_ok && other_row_ok )
         {   this_order_ptr  = &row_major_;
             other_order_ptr = &(other.row_major_);
         }
-        else if( this_col_ok && this_col_ok )
+        else if( this_col_ok && other_col_ok )
         {   this_order_ptr  = &col_major_;
             other_order_ptr = &(other.col_major_);
         }
-- 
2.43.0


From f10cab0bba1d2b9780dc1d5d25d4eb2f128c871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 10/26] fix: sparse_rc assignment to itself keeps the entries

---
 include/cppad/utility/sparse_rc.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cppad/utility/sparse_rc.hpp b/include/cppad/utility/sparse_rc.hpp
index cc0173c..3d45100 100644
--- a/include/cppad/utility/sparse_rc.hpp
+++ b/include/cppad/utility/sparse_rc.hpp
@@ -403,7 +403,11 @@ public:
     //
     // assignment
     void operator=(const sparse_rc& other)
-    {   nr_  = other.nr_;
+    {   // special case where this and other are the same pattern
+        if( this == &other )
+            return;
+        //
+        nr_  = other.nr_;
         nc_  = other.nc_;
         nnz_ = other.nnz_;
         //
-- 
2.43.0


From 85b555fa818d4094c664856e8d884da85e6323f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 11/26] fix: Poly derivative factor overflows for high order
 derivatives

---
 include/cppad/utility/poly.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cppad/utility/poly.hpp b/include/cppad/utility/poly.hpp
index ca62579..27088a2 100644
--- a/include/cppad/utility/poly.hpp
+++ b/include/cppad/utility/poly.hpp
@@ -160,17 +160,18 @@ Type Poly(size_t k, const Vector &a, const Type &z)
     // case where we are evaluating a derivative
     if( k > 0 )
     {   // initialize factor as (k-1) !
-        size_t factor = 1;
+        // (use double because a factorial can be too large for a size_t)
+        double factor = 1.0;
         for(i = 2; i < k; i++)
-            factor *= i;
+            factor *= double(i);
 
         // set b to coefficient vector corresponding to derivative
         Vector b(d - k + 1);
         for(i = k; i <= d; i++)
-        {   factor   *= i;
-            tmp       = double( factor );
+        {   factor   *= double(i);
+            tmp       = factor;
             b[i - k]  = a[i] * tmp;
-            factor   /= (i - k + 1);
+            factor   /= double(i - k + 1);
         }
         // value of derivative polynomial
         return Poly(0, b, z);
-- 
2.43.0


From fcbb40b76486f983016b77aefaec81180b9aad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 12/26] fix: pack_setvec::number_elements counts the bits of
 every unit of the set

---
 include/cppad/local/sparse/pack_setvec.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/sparse/pack_setvec.hpp b/include/cppad/local/sparse/pack_setvec.hpp
index 7e0f08d..6dcefb9 100644
--- a/include/cppad/local/sparse/pack_setvec.hpp
+++ b/include/cppad/local/sparse/pack_setvec.hpp
@@ -418,10 +418,11 @@ public:
             return count;
         //
         // count bits in other units
+        mask = one_;
         for(size_t bit = 0; bit < n_bit_; ++bit)
         {  CPPAD_ASSERT_UNKNOWN( mask >= one_ );
-            size_t k = n_pack_;
-            while(--k)
+            size_t k = n_pack_ - 1;
+            while(k--)
             {  if( data_[i * n_pack_ + k] & mask )
                     ++count;
             }
-- 
2.43.0


From 2c029fced2e2b823ad6c37a3c76b24539a5270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 13/26] fix: for_hes must propagate the pattern of azmul with a
 parameter as left operand

---
 include/cppad/local/sweep/for_hes.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/local/sweep/for_hes.hpp b/include/cppad/local/sweep/for_hes.hpp
index 60d0f95..f8a3076 100644
--- a/include/cppad/local/sweep/for_hes.hpp
+++ b/include/cppad/local/sweep/for_hes.hpp
@@ -316,6 +316,7 @@ void for_hes(
             case AddpvOp:
             case MulpvOp:
             case SubpvOp:
+            case ZmulpvOp:
             linear[0] = true;
             var_op::one_var_for_hes(
                 np1, num_var, i_var, size_t(arg[1]), linear, for_hes_sparse
-- 
2.43.0


From 92be492c15e7f8ca0c1a9eba47ca37e4d07405e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 14/26] fix: for_hes must propagate the pattern of conditional
 expressions

---
 include/cppad/local/sweep/for_hes.hpp  |  6 +++-
 include/cppad/local/var_op/cexp_op.hpp | 47 ++++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/include/cppad/local/sweep/for_hes.hpp b/include/cppad/local/sweep/for_hes.hpp
index f8a3076..01faa2d 100644
--- a/include/cppad/local/sweep/for_hes.hpp
+++ b/include/cppad/local/sweep/for_hes.hpp
@@ -280,7 +280,6 @@ void for_hes(
 
             // operators that do not affect Jacobian or Hessian
             // and where with a fixed number of arguments and results
-            case CExpOp:
             case DisOp:
             case ParOp:
             case PriOp:
@@ -391,6 +390,11 @@ void for_hes(
             break;
             // -------------------------------------------------
 
+            case CExpOp:
+            var_op::cexp_for_hes(np1, i_var, arg, for_hes_sparse);
+            break;
+            // -------------------------------------------------
+
             case CSumOp:
             var_op::csum_for_hes(arg, i_var, n, for_hes_sparse);
             itr.correct_before_increment();
diff --git a/include/cppad/local/var_op/cexp_op.hpp b/include/cppad/local/var_op/cexp_op.hpp
index b9326bd..de28ac8 100644
--- a/include/cppad/local/var_op/cexp_op.hpp
+++ b/include/cppad/local/var_op/cexp_op.hpp
@@ -1180,5 +1180,52 @@ inline void cexp_rev_hes(
     return;
 }
 
+/*!
+Compute forward Hessian sparsity patterns for op = CExpOp.
+
+The result z is equal to y_2 or y_3, hence there are no new nonlinear
+interactions and the Jacobian sparsity pattern for z is the union of the
+patterns for those of y_2, y_3 that are variables.
+
+\tparam Vector_set
+is the type used for vectors of sets. It can be either
+sparse::pack_setvec or sparse::list_setvec.
+
+\param n_independent_p1
+is the number of independent variables (in the tape) plus one.
+
+\param i_z
+is the AD variable index corresponding to the variable z.
+
+\param arg
+see the arg argument to cexp_for_jac.
+
+\param for_sparsity
+the set with index n_independent_p1 + k is the Jacobian sparsity pattern
+for the variable with index k. The pattern for i_z is an output.
+*/
+template <class Vector_set>
+inline void cexp_for_hes(
+    size_t              n_independent_p1 ,
+    size_t              i_z              ,
+    const addr_t*       arg              ,
+    Vector_set&         for_sparsity     )
+{   //
+    CPPAD_ASSERT_UNKNOWN( NumArg(CExpOp) == 6 );
+    CPPAD_ASSERT_UNKNOWN( NumRes(CExpOp) == 1 );
+    //
+    size_t np1 = n_independent_p1;
+    for_sparsity.clear(np1 + i_z);
+    if( arg[1] & 4 )
+        for_sparsity.binary_union(
+            np1 + i_z, np1 + i_z, np1 + size_t(arg[4]), for_sparsity
+        );
+    if( arg[1] & 8 )
+        for_sparsity.binary_union(
+            np1 + i_z, np1 + i_z, np1 + size_t(arg[5]), for_sparsity
+        );
+    return;
+}
+
 } } } // END namespace
 # endif
-- 
2.43.0


From 339d0bf9bc2e4f527896aa48b15ad45662d7ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 15/26] fix: subgraph_jac_rev must not read past the end of the
 columns of a row

---
 include/cppad/core/subgraph_jac_rev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/subgraph_jac_rev.hpp b/include/cppad/core/subgraph_jac_rev.hpp
index 7e468cc..0189e8e 100644
--- a/include/cppad/core/subgraph_jac_rev.hpp
+++ b/include/cppad/core/subgraph_jac_rev.hpp
@@ -258,7 +258,7 @@ void ADFun<Base,RecBase>::subgraph_jac_rev(
                 ++c;
             //
             // check for match with i_ind
-            if( i_ind == dw_col[c] )
+            if( c < size_t( dw_col.size() ) && dw_col[c] == i_ind )
                 subset.set( row_major[k], dw[i_ind] );
             else
                 subset.set( row_major[k], zero);
-- 
2.43.0


From 347e93f641ce689dd92c329849c7ff65fe564e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 16/26] fix: Hessian patterns when a variable is more than one
 dependent variable

---
 include/cppad/core/for_sparse_hes.hpp   | 2 +-
 include/cppad/core/rev_hes_sparsity.hpp | 2 +-
 include/cppad/core/rev_sparse_hes.hpp   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cppad/core/for_sparse_hes.hpp b/include/cppad/core/for_sparse_hes.hpp
index 0d0b19b..8991ff4 100644
--- a/include/cppad/core/for_sparse_hes.hpp
+++ b/include/cppad/core/for_sparse_hes.hpp
@@ -504,7 +504,7 @@ void ADFun<Base,RecBase>::ForSparseHesCheckpoint(
         RevJac[i] = false;
     for(size_t i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ )
-        RevJac[ dep_taddr_[i] ] = s[i];
+        if( s[i] ) RevJac[ dep_taddr_[i] ] = true;
     }
 
     // holds forward Hessian sparsity pattern for all variables
diff --git a/include/cppad/core/rev_hes_sparsity.hpp b/include/cppad/core/rev_hes_sparsity.hpp
index bea0f94..a4286e3 100644
--- a/include/cppad/core/rev_hes_sparsity.hpp
+++ b/include/cppad/core/rev_hes_sparsity.hpp
@@ -186,7 +186,7 @@ void ADFun<Base,RecBase>::rev_hes_sparsity(
     //
     // initialize rev_jac_pattern for dependent variables
     for(size_t i = 0; i < m; i++)
-        rev_jac_pattern[ dep_taddr_[i] ] = select_range[i];
+        if( select_range[i] ) rev_jac_pattern[ dep_taddr_[i] ] = true;
     //
     //
     if( internal_bool )
diff --git a/include/cppad/core/rev_sparse_hes.hpp b/include/cppad/core/rev_sparse_hes.hpp
index 6d857d6..f125819 100644
--- a/include/cppad/core/rev_sparse_hes.hpp
+++ b/include/cppad/core/rev_sparse_hes.hpp
@@ -266,7 +266,7 @@ void ADFun<Base,RecBase>::RevSparseHesCase(
         RevJac[i] = false;
     for(i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ );
-        RevJac[ dep_taddr_[i] ] = s[i];
+        if( s[i] ) RevJac[ dep_taddr_[i] ] = true;
     }
 
     // vector of sets that will hold reverse Hessain values
@@ -584,7 +584,7 @@ void ADFun<Base,RecBase>::RevSparseHesCheckpoint(
         RevJac[i] = false;
     for(size_t i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ )
-        RevJac[ dep_taddr_[i] ] = s[i];
+        if( s[i] ) RevJac[ dep_taddr_[i] ] = true;
     }
 
     // holds reverse Hessian sparsity pattern for all variables
-- 
2.43.0


From 1d8fa4f7502a13240c2f16d35bd50f81006ee9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:48 +0000
Subject: [PATCH 17/26] fix: optimize must keep arguments of atomic functions
 that are skipped

---
 include/cppad/local/optimize/optimize_run.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/local/optimize/optimize_run.hpp b/include/cppad/local/optimize/optimize_run.hpp
index 4c49dc8..acfefb7 100644
--- a/include/cppad/local/optimize/optimize_run.hpp
+++ b/include/cppad/local/optimize/optimize_run.hpp
@@ -1200,7 +1200,7 @@ bool optimize_run(
             CPPAD_ASSERT_NARG_NRES(op, 1, 0);
             new_arg[0] = new_var[ random_itr.var2op(size_t(arg[0])) ];
             CPPAD_ASSERT_UNKNOWN( size_t(new_arg[0]) < num_var );
-            if( new_arg[0] != 0 )
+            if( op_usage[i_op] != usage_t(no_usage) )
             {   rec->PutArg(new_arg[0]);
                 new_op[i_op] = addr_t( rec->num_var_op() );
                 rec->PutOp(FunavOp);
-- 
2.43.0


From 06799e692eb9668379a19058ac67c7eafc7abba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:48 +0000
Subject: [PATCH 18/26] fix: atomic_two for_hes must propagate the Jacobian
 pattern to the results

---
 .../cppad/core/atomic/two/for_sparse_hes.hpp  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/cppad/core/atomic/two/for_sparse_hes.hpp b/include/cppad/core/atomic/two/for_sparse_hes.hpp
index 88427dc..325c9da 100644
--- a/include/cppad/core/atomic/two/for_sparse_hes.hpp
+++ b/include/cppad/core/atomic/two/for_sparse_hes.hpp
@@ -242,6 +242,30 @@ bool atomic_base<Base>::for_sparse_hes(
     for(size_t j = 0; j < n; j++)
         vx[j] = x_index[j] != 0;
     //
+    // for_sparsity
+    // propagate the forward Jacobian sparsity from the arguments to the results
+    // (set zero in jac_sparsity is empty and is used for parameters)
+    InternalSparsity jac_sparsity;
+    jac_sparsity.resize(1 + n + m, np1);
+    vector<size_t> jac_x_index(n), jac_y_index(m);
+    for(size_t j = 0; j < n; j++)
+    {   jac_x_index[j] = 0;
+        if( x_index[j] > 0 )
+        {   jac_x_index[j] = 1 + j;
+            jac_sparsity.assignment(1 + j, np1 + x_index[j], for_sparsity);
+        }
+    }
+    for(size_t i = 0; i < m; i++)
+    {   jac_y_index[i] = 0;
+        if( y_index[i] > 0 )
+            jac_y_index[i] = 1 + n + i;
+    }
+    ok = for_sparse_jac(x, jac_x_index, jac_y_index, jac_sparsity);
+    if( ! ok )
+        return false;
+    for(size_t i = 0; i < m; i++) if( y_index[i] > 0 )
+        for_sparsity.assignment(np1 + y_index[i], 1 + n + i, jac_sparsity);
+    //
     // bool_r
     vector<bool>& bool_r( work_[thread]->bool_r );
     bool_r.resize(n);
-- 
2.43.0


From b7faed11cdbf7728695a67bd1139e8c990f00993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:48 +0000
Subject: [PATCH 19/26] fix: atomic rev_hes must include variables with an
 empty Jacobian pattern

---
 .../cppad/core/atomic/four/devel/hes_sparsity.hpp    |  5 +++--
 include/cppad/core/atomic/three/hes_sparsity.hpp     | 12 ++++--------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/cppad/core/atomic/four/devel/hes_sparsity.hpp b/include/cppad/core/atomic/four/devel/hes_sparsity.hpp
index e0e475a..bc8b63e 100644
--- a/include/cppad/core/atomic/four/devel/hes_sparsity.hpp
+++ b/include/cppad/core/atomic/four/devel/hes_sparsity.hpp
@@ -294,9 +294,11 @@ bool atomic_four<Base>::rev_hes_sparsity(
     size_t m      = y_index.size();
     //
     // select_x
+    // All the variables are selected, including those with an empty
+    // forward Jacobian pattern, because the Hessian has rows for them.
     vector<bool> select_x(n);
     for(size_t j = 0; j < n; j++)
-        select_x[j] = for_jac_pattern.number_elements( x_index[j] ) > 0;
+        select_x[j] = x_index[j] > 0;
     //
     // select_y
     vector<bool> select_y(m);
@@ -350,7 +352,6 @@ bool atomic_four<Base>::rev_hes_sparsity(
     }
     //
     // propagate rev_jac_flag through the Jacobian
-    // (seems OK to exclude variables with zero forward jacobian)
     for(size_t k = 0; k < nnz_jac; ++k)
     {   size_t j = col_jac[k];
         rev_jac_flag[ x_index[j] ] = true;
diff --git a/include/cppad/core/atomic/three/hes_sparsity.hpp b/include/cppad/core/atomic/three/hes_sparsity.hpp
index 9c3c249..d0fe2a2 100644
--- a/include/cppad/core/atomic/three/hes_sparsity.hpp
+++ b/include/cppad/core/atomic/three/hes_sparsity.hpp
@@ -329,18 +329,15 @@ bool atomic_three<Base>::rev_hes_sparsity(
     const InternalSparsity&          for_jac_pattern  ,
     bool*                            rev_jac_flag     ,
     InternalSparsity&                hes_sparsity_rev )
-{   typedef typename InternalSparsity::const_iterator const_iterator;
-    size_t n      = x_index.size();
+{   size_t n      = x_index.size();
     size_t m      = y_index.size();
     //
     // select_x
     vector<bool> select_x(n);
     for(size_t j = 0; j < n; j++)
-    {   // check if should compute pattern w.r.t x[j]
-        const_iterator itr(for_jac_pattern, x_index[j]);
-        size_t i = *itr;
-        select_x[j] = i < for_jac_pattern.end();
-        CPPAD_ASSERT_UNKNOWN( x_index[j] > 0 || ! select_x[j] );
+    {   // All the variables are selected, including those with an empty
+        // forward Jacobian pattern, because the Hessian has rows for them.
+        select_x[j] = x_index[j] > 0;
     }
     //
     // bool select_y
@@ -388,7 +385,6 @@ bool atomic_three<Base>::rev_hes_sparsity(
     }
     //
     // propagate rev_jac_flag through the Jacobian
-    // (seems OK to exclude variables with zero forward jacobian)
     for(size_t k = 0; k < nnz_jac; ++k)
     {   size_t j = col_jac[k];
         rev_jac_flag[ x_index[j] ] = true;
-- 
2.43.0


From e8c4102a8f5183c93729a9f9d7ac026ef15199c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 20/26] fix: to_graph: is the value of a print operator a
 variable

---
 include/cppad/core/graph/to_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index f69a126..f3c28b2 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1053,7 +1053,7 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                     notpos_node = par2node[ arg[1] ];
                 // value
                 size_t value_node;
-                if( arg[0] & 1 )
+                if( arg[0] & 2 )
                     value_node = var2node[ arg[3] ];
                 else
                     value_node = par2node[ arg[3] ];
-- 
2.43.0


From 3ace706ba674d53dfb968678f474810a87a60a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 21/26] fix: to_graph: skip the conditional skip operators of
 optimized functions

---
 include/cppad/core/graph/to_graph.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index f3c28b2..a0d9b17 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1198,6 +1198,13 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
             }
             break;
 
+            // --------------------------------------------------------------
+            // CSkipOp:
+            case local::CSkipOp:
+            // only affects which operations can be skipped
+            itr.correct_before_increment();
+            break;
+
             // --------------------------------------------------------------
             // EndOp:
             case local::EndOp:
-- 
2.43.0


From b2d6ff3cb3f28fdf382ec6db6ac6a1ca17dea3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 22/26] fix: to_graph: a parameter result of an atomic call
 must not change the node of another parameter

---
 include/cppad/core/graph/to_graph.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index a0d9b17..b1f0f3e 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1078,7 +1078,9 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
             break;
 
             case local::FunrpOp:
-            par2node[arg[0]] = ++previous_node;
+            // par2node[arg[0]] has already been set. The parameter might not be
+            // this result; e.g., the result is not used in optimized function.
+            ++previous_node;
             break;
 
             case local::FunrvOp:
-- 
2.43.0


From c9d805ae7c47a20e5344cd8d9fbc534fc72d99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 23/26] fix: to_graph: dynamic parameter results of atomic
 calls

---
 include/cppad/core/graph/to_graph.hpp | 45 ++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index b1f0f3e..a8bb3e1 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -164,8 +164,13 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         //
         // parameter index for this dynamic parameter
         size_t i_par = size_t( dyn2par_index[i_dyn] );
-        CPPAD_ASSERT_UNKNOWN( par2node[i_par] == 0 );
-        par2node[i_par] = ++previous_node;
+        //
+        // node for this dynamic parameter
+        // (atom_dyn sets the nodes for all the results of its function call)
+        if( dyn_op != local::atom_dyn && dyn_op != local::result_dyn )
+        {   CPPAD_ASSERT_UNKNOWN( par2node[i_par] == 0 );
+            par2node[i_par] = ++previous_node;
+        }
         //
         // number of arguments for operators with exception of atom_dyn
         size_t n_arg = num_arg_dyn(dyn_op);
@@ -321,8 +326,9 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         switch( dyn_op )
         {   // --------------------------------------------------------------
             case local::result_dyn:
-            // setting par2node[i_dyn] above is all that is necessary
+            // atom_dyn for this function call has set par2node[i_par]
             CPPAD_ASSERT_UNKNOWN( n_arg == 0 );
+            CPPAD_ASSERT_UNKNOWN( par2node[i_par] > 0 );
             break;
 
             // --------------------------------------------------------------
@@ -355,7 +361,8 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                 size_t call_id = size_t( dyn_par_arg[i_arg + 1] );
                 //
                 // arg[2]: number of arguments to function
-                n_arg              = size_t( dyn_par_arg[i_arg + 2] );
+                size_t n_call_arg  = size_t( dyn_par_arg[i_arg + 2] );
+                //
                 // arg[3]: number of results from function
                 size_t n_result    = size_t( dyn_par_arg[i_arg + 3] );
                 //
@@ -382,7 +389,7 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                 if( type == 4 )
                     graph_obj.operator_arg_push_back(call_id);
                 graph_obj.operator_arg_push_back(n_result);
-                graph_obj.operator_arg_push_back(n_arg);
+                graph_obj.operator_arg_push_back(n_call_arg);
                 //
                 if( type == 3 )
                     graph_op = atom_graph_op;
@@ -393,12 +400,36 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                 //
                 graph_obj.operator_vec_push_back( graph_op );
                 //
-                for(size_t j  = 0; j < n_arg; ++j)
+                for(size_t j  = 0; j < n_call_arg; ++j)
                 {   // arg[5 + j] is j-th argument to the function
                     size_t node_j = par2node[ dyn_par_arg[i_arg + 5 + j] ];
-                    CPPAD_ASSERT_UNKNOWN( node_j < i_par );
+                    //
+                    // The dynamic parameter results do not depend on
+                    // arguments that are variables (and not yet in the graph).
+                    // Use the first independent dynamic parameter for these.
+                    if( node_j == 0 )
+                    {   CPPAD_ASSERT_UNKNOWN( n_dynamic_ind > 0 );
+                        node_j = 1;
+                    }
+                    CPPAD_ASSERT_UNKNOWN( node_j <= previous_node );
                     graph_obj.operator_arg_push_back( node_j );
                 }
+                //
+                // par2node, previous_node
+                for(size_t i = 0; i < n_result; ++i)
+                {   // arg[5 + n_call_arg + i] is parameter index for the
+                    // i-th result or zero when it is not a dynamic parameter
+                    addr_t j_par = dyn_par_arg[i_arg + 5 + n_call_arg + i];
+                    ++previous_node;
+                    if( j_par > 0 )
+                        par2node[j_par] = previous_node;
+                }
+                //
+                // n_arg
+                n_arg = 6 + n_call_arg + n_result;
+                CPPAD_ASSERT_UNKNOWN(
+                    n_arg == size_t( dyn_par_arg[i_arg + n_arg - 1] )
+                );
             }
             break;
 
-- 
2.43.0


From d75d94d83ae7a5940ad16beaf2db860593bbae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 24/26] fix: from_graph: value of a constant operand of a
 comparison

---
 include/cppad/core/graph/from_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/graph/from_graph.hpp b/include/cppad/core/graph/from_graph.hpp
index 853477a..260302e 100644
--- a/include/cppad/core/graph/from_graph.hpp
+++ b/include/cppad/core/graph/from_graph.hpp
@@ -455,12 +455,12 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
             if( var_left | dyn_left )
                 ax[0].taddr_ = arg[0];
             else
-                ax[0].value_ = parameter_x[0];
+                ax[0].value_ = parameter[ arg[0] ];
             // ax[1]
             if( var_right | dyn_right )
                 ax[1].taddr_ = arg[1];
             else
-                ax[1].value_ = parameter_x[1];
+                ax[1].value_ = parameter[ arg[1] ];
             //
             bool result;
             switch( op_enum )
-- 
2.43.0


From 042d61b4a4aa49458bfbd673998e65948d5aebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 25/26] fix: from_graph: value of the constant results of an
 atomic call

---
 include/cppad/core/graph/from_graph.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/core/graph/from_graph.hpp b/include/cppad/core/graph/from_graph.hpp
index 260302e..8776e1f 100644
--- a/include/cppad/core/graph/from_graph.hpp
+++ b/include/cppad/core/graph/from_graph.hpp
@@ -771,7 +771,10 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
                 // ay
                 ay.resize(n_result);
                 for(size_t i = 0; i < n_result; ++i)
-                {   ay[i].value_ = nan; // not_used
+                {   // value_ is only used for results that are constants
+                    ay[i].value_ = nan;
+                    if( type_y[i] == constant_enum )
+                        ay[i].value_ = taylor_y[i];
                     ay[i].taddr_ = 0;   // not used
                 }
             }
-- 
2.43.0


From 306976d82e8e2c0e56f47f12634fc2ebac8266b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 26/26] fix: json_parser: order of the arguments of atomic four
 operators

---
 cppad_lib/json_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppad_lib/json_parser.cpp b/cppad_lib/json_parser.cpp
index 3092eb2..59399d1 100644
--- a/cppad_lib/json_parser.cpp
+++ b/cppad_lib/json_parser.cpp
@@ -254,9 +254,9 @@ void CppAD::local::graph::json_parser(
             CPPAD_ASSERT_UNKNOWN(
                 name_index < graph_obj.atomic_name_vec_size()
             );
+            graph_obj.operator_arg_push_back( name_index );
             if( op_enum == atom4_graph_op )
                 graph_obj.operator_arg_push_back( call_id );
-            graph_obj.operator_arg_push_back( name_index );
             graph_obj.operator_arg_push_back( n_result );
             graph_obj.operator_arg_push_back( n_arg );
         }
-- 
2.43.0

