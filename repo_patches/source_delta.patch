From 6ea7751346cbae29de5b8bbd8925483c754beabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 01/51] fix: ConstraintsIB lacks A'b, the IB constraints/tasks
 could not be instantiated

---
 core/include/humoto/constraints.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..bc50a0b 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,7 +981,18 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for (EigenIndex i = 0; i < getIndices().rows(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
+                using HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
 
@@ -1006,7 +1017,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1026,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From 70f59a2a67995f56af1263b7f2afc40eef2c17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 02/51] fix: TaskZeroVariables ignores a gain which is changed
 after the first formation

---
 core/include/humoto/task_generic.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..90191c0 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -34,6 +34,9 @@ namespace humoto
         private:
             Location        location_of_variables_;
 
+            /// gain which was used the last time the task was formed
+            double          formed_gain_;
+
             std::string     variables_id_;
 
 
@@ -63,6 +66,7 @@ namespace humoto
                 : TaskGIB0(task_id.c_str(), gain)
             {
                 location_of_variables_.set(0,0);
+                formed_gain_ = gain;
 
                 variables_id_ = variables_id;
             }
@@ -91,10 +95,11 @@ namespace humoto
                 }
 
 
-                if ( location_of_variables != location_of_variables_ )
+                if ( (location_of_variables != location_of_variables_) || (formed_gain_ != getGain()) )
                 {
                     // Task was modified
                     location_of_variables_ = location_of_variables;
+                    formed_gain_ = getGain();
 
 
                     humoto::IndexVector &I  = getIndices();
-- 
2.43.0


From b8eb65fcc2e38c89a3d090bd9228182dde3f6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 03/51] fix: a QP made from a one-level hierarchy keeps the
 constraints of the previous QP

---
 core/include/humoto/hierarchy.h  |  4 ++++
 core/include/humoto/qp_problem.h | 36 ++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..2c09059 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,10 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    qp_problem.resetConstraints(sol_structure);
+                }
             }
     };
 }
diff --git a/core/include/humoto/qp_problem.h b/core/include/humoto/qp_problem.h
index 65e82ab..40e5452 100644
--- a/core/include/humoto/qp_problem.h
+++ b/core/include/humoto/qp_problem.h
@@ -232,6 +232,19 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Remove all constraints
+             *
+             * @param[in] sol_structure
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                general_constraints_.reset(0, sol_structure.getNumberOfVariables());
+                bounds_.reset(0, sol_structure.getNumberOfVariables());
+                bounds_.initializeSolutionBounds(lb_, ub_);
+            }
+
+
             /**
              * @brief get container with simple bounds
              *
@@ -321,6 +334,18 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Remove all constraints
+             *
+             * @param[in] sol_structure
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                equality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+                inequality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+            }
+
+
             /**
              * @brief get container with inequalities
              *
@@ -386,6 +411,17 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Remove all constraints
+             *
+             * @param[in] sol_structure
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                equality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+            }
+
+
             /**
              * @brief get container with equalities
              *
-- 
2.43.0


From 597e2b77278f058c90fee46704d6be0c3cb19874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 04/51] fix: an active set guess made during an earlier
 formation breaks a later formation without a guess

---
 core/include/humoto/task.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/humoto/task.h b/core/include/humoto/task.h
index 2ba3e0c..0333f46 100644
--- a/core/include/humoto/task.h
+++ b/core/include/humoto/task.h
@@ -44,6 +44,7 @@ namespace humoto
             void preForm(const std::size_t number_of_variables)
             {
                 is_modified_ = true;
+                active_set_guess_.reset();
 
                 setNumberOfVariables(number_of_variables);
             }
-- 
2.43.0


From 29a70d36b4bb416e3a48438fd175a84b22076ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:17 +0000
Subject: [PATCH 05/51] fix: condenseOutput() with several groups of controls
 writes the first feedthrough term to the wrong block

---
 core/include/humoto/control_problem.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..dec95fa 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,10 +167,10 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
-                                                  control_offsets[i],
-                                                  t_num_outputs,
-                                                  Uu[i].getBlockColsNum());
+                    Ou[i](0, 0) = E[0].block( 0,
+                                              control_offsets[i],
+                                              t_num_outputs,
+                                              Uu[i].getBlockColsNum());
                 }
 
                 for (std::ptrdiff_t i = 1; i < N; ++i)
-- 
2.43.0


From ade0364202d62be5a3cc5ed3a50dd1158d8a3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:54 +0000
Subject: [PATCH 06/51] fix: BlockMatrix::selectRowInBlocks() uses the number
 of rows of a block as the number of columns

The blocks of the selection have as many columns as the blocks of the original
matrix. With dynamic sizes of blocks the number of rows was passed instead, with
mixed static/dynamic sizes the selection could not be constructed at all.
---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From d72ccd6c9562ad45a389f9a50689b4c54653455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:15 +0000
Subject: [PATCH 07/51] fix: products of Kronecker products (1x1 blocks) and
 diagonal matrices depend on the previous size of the result

The interface to the result was constructed before the result was resized, so a
result object of an arbitrary initial size was rejected; with dynamic sizes of
blocks the block size was not passed to the interface and the product always
failed.
---
 core/include/eigentools/blockmatrix_kronecker.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 08cf696..03be1c1 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -613,10 +613,13 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
+                                MatrixSparsityType::NONE >   result_bmi(result,
+                                                                             ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                                                             ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 result_bmi.resize(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
 
@@ -831,10 +834,13 @@ namespace etools
 
 
 
+                result.resize(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
+                                MatrixSparsityType::NONE >   result_bmi(result,
+                                                                             ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                                                             ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
 
@@ -882,10 +888,13 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
                 BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
                                     t_dbm_block_rows_num,
                                     t_dbm_block_cols_num,
-                                    MatrixSparsityType::NONE >   result_bmi(result);
+                                    MatrixSparsityType::NONE >   result_bmi(result,
+                                                                             ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                                                             ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
 
-- 
2.43.0


From a62b01f16680baddcd198e9acbd0fb39cfee7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 08/51] fix: concatenateMatricesVertically() does not skip
 consecutive empty matrices

---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..0dbd8d9 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices;)
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From 157d6c86d8e76d8398bcb57751d9b241330bcc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 09/51] fix: wrong index checks in removeRow() and
 removeColumn()

An index equal to the size was accepted and removed the last row / column; the
index of a column was compared with the number of rows, so that valid columns of
wide matrices were rejected.
---
 core/include/eigentools/eigentools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 0dbd8d9..6f74668 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove <= matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(row_to_remove < matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(column_to_remove < matrix.cols(), "The index of a removed column is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 6bf24e3aaab17b5e32c69dd3d6c98a8430c61b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 10/51] fix: etools::Matrix1x2 is a 1x1 matrix

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 6f74668..2821641 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -83,7 +83,7 @@ namespace etools
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(9, 9)  Matrix9;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(10, 10)  Matrix10;
 
-    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 1)  Matrix1x2;
+    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 2)  Matrix1x2;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 3)  Matrix1x3;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 4)  Matrix1x4;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 5)  Matrix1x5;
-- 
2.43.0


From 72d03a9ab6bcc892ea1b8dc6f370acada8cb5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 11/51] fix: cubic polynomial with nonzero boundary velocities
 misses its final position and velocity

---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From b2c7dc5dba24cf0b10f39699bb6146cc1338fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 12/51] fix: vertical velocity and acceleration of a foot
 trajectory ignore the time scaling of its halves

---
 core/include/walking/foot_trajectory.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 3ba7b77..e029441 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -66,8 +66,8 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
-                    z1_.initialize(a(2),               adot(2), a(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2));
+                    z1_.initialize(a(2),               0.5*adot(2), a(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a(2), 0.0,         b(2),               0.5*bdot(2));
                 }
 
 
@@ -92,8 +92,8 @@ namespace humoto
                                        b.rpy_(humoto::AngleIndex::YAW),
                                        b.angular_velocity_(humoto::AngleIndex::YAW));
                     
-                    z1_.initialize(a.position_(2),               a.velocity_(2), a.position_(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2));
+                    z1_.initialize(a.position_(2),               0.5*a.velocity_(2), a.position_(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a.position_(2), 0.0,                b.position_(2),               0.5*b.velocity_(2));
                 }
 
 
@@ -127,13 +127,24 @@ namespace humoto
                 double evalz(   const double t,
                                 const rigidbody::TrajectoryEvaluationType::Type trajectory_type) const
                 {
+                    // each half of the trajectory is a polynomial on [0, 1], i.e., its time is scaled by 2
+                    double derivative_scale = 1.0;
+                    if (rigidbody::TrajectoryEvaluationType::VELOCITY == trajectory_type)
+                    {
+                        derivative_scale = 2.0;
+                    }
+                    if (rigidbody::TrajectoryEvaluationType::ACCELERATION == trajectory_type)
+                    {
+                        derivative_scale = 4.0;
+                    }
+
                     if (t <= 0.5)
                     {
-                        return (z1_.eval(t*2, trajectory_type));
+                        return (derivative_scale * z1_.eval(t*2, trajectory_type));
                     }
                     else
                     {
-                        return (z2_.eval((t-0.5)*2, trajectory_type));
+                        return (derivative_scale * z2_.eval((t-0.5)*2, trajectory_type));
                     }
                 }
                 
-- 
2.43.0


From b1ade00664bedaf2c60ea2ae306bd93b99f18873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 13/51] fix: stance FSM tries to make steps when the first
 single support is undefined

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..89c0237 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -262,6 +262,7 @@ namespace humoto
                                 case StanceType::UNDEFINED:
                                     current_stance_.previous_nonds_stance_type_ = StanceType::UNDEFINED;
                                     sfsm_params_.num_steps_ = 0;
+                                    ss_states_to_termination_ = 0;
                                     break;
                                 default:
                                     HUMOTO_THROW_MSG("Misformed walking options.");
-- 
2.43.0


From a0f502fa726555af0dc10cd7700e7cad2593e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 14/51] fix: preview of zero duration accesses the last element
 of an empty vector

---
 core/include/walking/stance_finite_state_machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 89c0237..5570be2 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -357,7 +357,7 @@ namespace humoto
             }
 
             //always add one state afted TDS
-            if((not_enough_states == false) && (stance_types.back().type_ == StanceType::TDS))
+            if((not_enough_states == false) && (stance_types.empty() == false) && (stance_types.back().type_ == StanceType::TDS))
             {
                 if(stance_fsm.current_stance_.type_ == StanceType::TDS)
                 {
-- 
2.43.0


From c0356df30775846df495f7ba39c5522ce0936977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 15/51] fix: stance FSM reports a start of a transitional
 double support when a double support is repeated

---
 core/include/walking/stance_finite_state_machine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 5570be2..90deadb 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -494,6 +494,8 @@ namespace humoto
 
                     if(ss_states_to_termination_ == 0)
                     {
+                        is_tds_started_ = false;
+
                         current_stance_.type_        = StanceType::DS;
                         current_stance_.duration_ms_ = sfsm_params_.getDurationMs(StanceType::DS);
                         current_time_ms_ = 0;
-- 
2.43.0


From 81a27a163a3ca35aa42be0697f41f85902eda240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:14 +0000
Subject: [PATCH 16/51] fix: wpg04: do not write rotations of footsteps beyond
 the preview horizon

The previewed stances may extend beyond the intervals of the preview horizon
when some of the intervals are shorter than the sampling time.
---
 modules/wpg04/include/wpg04/mpc_wpg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..191b89f 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -35,7 +35,8 @@ namespace humoto
                     Rh_.setZero(preview_horizon_.intervals_.size());
 
                     std::size_t index = 0;
-                    for(std::size_t i=0; i < (preview_horizon_.walk_states_.size() - 1); ++i)
+                    for(std::size_t i=0; (i < (preview_horizon_.walk_states_.size() - 1))
+                                         && (index < preview_horizon_.getNumberOfVariableSteps()); ++i)
                     {
                         if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
                         {
-- 
2.43.0


From 7f29483496876886750127d27d39493b98e4a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:14 +0000
Subject: [PATCH 17/51] fix: wpg04: model can stay in a transitional double
 support

This happens when the subsampling time is smaller than the duration of TDS.
---
 modules/wpg04/include/wpg04/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..3ebe663 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -189,6 +189,7 @@ namespace humoto
                                     break;
 
                                 case humoto::walking::StanceType::DS:
+                                case humoto::walking::StanceType::TDS:
                                     // no need to update positions of the feet (they must not change)
                                     break;
 
-- 
2.43.0


From f2474332fbc5c9fa18ace4856ea5c8026cdbf317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:14 +0000
Subject: [PATCH 18/51] fix: wpg04: preview uses orientation of the foot landed
 in the current TDS

It must not be recomputed using the current theta increment, since the latter
may have been changed after the foot was placed.
---
 modules/wpg04/include/wpg04/preview_horizon.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/wpg04/include/wpg04/preview_horizon.h b/modules/wpg04/include/wpg04/preview_horizon.h
index 5a4b0b2..60aa6d3 100644
--- a/modules/wpg04/include/wpg04/preview_horizon.h
+++ b/modules/wpg04/include/wpg04/preview_horizon.h
@@ -286,13 +286,19 @@ namespace humoto
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::RSS) &&
                            (state.previous_nontds_stance_type_ != humoto::walking::StanceType::DS))
                         {
-                            rss_theta = lss_theta + walk_parameters.theta_increment_;
+                            if (i > 0) // in the current TDS the foot is already on the ground
+                            {
+                                rss_theta = lss_theta + walk_parameters.theta_increment_;
+                            }
                             state.theta_ = rss_theta;
                         }
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::LSS) &&
                            (state.previous_nontds_stance_type_ != humoto::walking::StanceType::DS))
                         {
-                            lss_theta = rss_theta + walk_parameters.theta_increment_;
+                            if (i > 0) // in the current TDS the foot is already on the ground
+                            {
+                                lss_theta = rss_theta + walk_parameters.theta_increment_;
+                            }
                             state.theta_ = lss_theta;
                         }
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::DS) &&
-- 
2.43.0


From 904e782aec3c506e933784c58a002454c720d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 19/51] fix: wpg04: report that there is no foot landing in the
 preview horizon

The vector of footstep indices is empty in this case.
---
 modules/wpg04/include/wpg04/mpc_wpg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 191b89f..c480555 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -183,6 +183,8 @@ namespace humoto
                                             const humoto::wpg04::Model &model,
                                             const humoto::LeftOrRight::Type landing_foot) const
                 {
+                    HUMOTO_ASSERT(preview_horizon_.getNumberOfVariableSteps() > 0, "There are no landings in the preview horizon.");
+
                     std::size_t interval_index = preview_horizon_.variable_steps_indices_[0];
                     const WalkState & walk_state = preview_horizon_.getWalkState(interval_index);
 
-- 
2.43.0


From 30ab804aa6ac89a9b1b1da08663dfa695edad73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:39 +0000
Subject: [PATCH 20/51] fix: TaskBodyPositionReference: sign of the right hand
 side

The task minimizes the offset of the body Apd * X + spd as the other tasks
do, hence b = -spd.
---
 modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
index 69ed918..6d86b62 100644
--- a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
+++ b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
@@ -34,7 +34,7 @@ namespace humoto
                     Eigen::VectorXd     &b    = getB();
 
                     A.noalias() = getGain()*mpc.Apd_;
-                    b.noalias() = getGain()*mpc.spd_;
+                    b.noalias() = -getGain()*mpc.spd_;
                 }
         };
     }//pepper
-- 
2.43.0


From 2182710116b65b19009834e5a7ac917dae5780f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:39 +0000
Subject: [PATCH 21/51] fix: pepper_mpc::ModelState: heights were swapped in
 the constructor

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From 0e2ac54a990445373e3182a5b619c7b4ff83d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:39 +0000
Subject: [PATCH 22/51] fix: pepper_mpc::Model: preserve masses in the next
 state

The next state contained default masses and thereby reset masses of the model
after updateState().
---
 modules/pepper_mpc/include/pepper_mpc/model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model.h b/modules/pepper_mpc/include/pepper_mpc/model.h
index e14393c..c131f71 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model.h
@@ -264,6 +264,9 @@ namespace humoto
                     model_state.body_state_ = convertBodyStateMPCtoRB(mpc_state, body_height);
 
                     model_state.base_state_.rpy_.z() = theta;
+
+                    model_state.base_mass_ = state_.base_mass_;
+                    model_state.body_mass_ = state_.body_mass_;
                 }
 
 
-- 
2.43.0


From 15466c299fafc80af6ec766843c3e74b25aca2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:59 +0000
Subject: [PATCH 23/51] fix: MPCforMG::getModelState: use controls of the
 requested interval

Controls of the first interval were applied in all intervals.
---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From 2198e744b7d96af971c02756b3aede5adb87b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:04 +0000
Subject: [PATCH 24/51] fix: ActiveSet: allow a shift by the size of the active
 set

The guess of the active set failed on preview horizons of one interval.
---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From 941589f3ea9d4627f624544c82cef06bf09d5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 25/51] fix: write matrices to configuration files in the
 row-major order

The readers interpret the data as row-major (as in the provided
configuration files), but the writers stored it in the column-major order,
so matrices were transposed by writing and reading.
---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 8 ++++++--
 bridges/config_yaml/interface/config_yaml/writer.h       | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..21d9a8a 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,13 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        // row-major, as expected by the reader
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..8290273 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -166,11 +166,12 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        // row-major, as expected by the reader
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From e89f6907f634b12db7786dafc5b8f6b8e8700cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 26/51] fix: write nested vectors to YAML files as nested
 sequences

The boundaries of the inner vectors (levels of a hierarchy) were lost, the
resulting files could not be read.
---
 bridges/config_yaml/interface/config_yaml/writer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 8290273..0734761 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -199,10 +199,15 @@ namespace humoto
 
                         for(std::size_t i = 0; i < entry.size(); ++i)
                         {
+                            *emitter_ << YAML::Flow;
+                            *emitter_ << YAML::BeginSeq;
+
                             for(std::size_t j = 0; j < entry[i].size(); ++j)
                             {
                                 *emitter_ << entry[i][j];
                             }
+
+                            *emitter_ << YAML::EndSeq;
                         }
 
                         *emitter_ << YAML::EndSeq;
-- 
2.43.0


From 4fb1c1bd7221de89b4eae9a237e3d94f31c421ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 27/51] fix: find all nodes of a root map in MessagePack files

Only the first entry of each root map was considered, an empty root map
resulted in an access to a nonexistent entry.
---
 .../config_msgpack/interface/config_msgpack/reader.h  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..943fc0b 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -122,12 +122,15 @@ namespace humoto
                             {
                                 if (::msgpack::type::MAP == handles_[i]->get().type)
                                 {
-                                    if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
+                                    for (std::size_t j = 0; j < handles_[i]->get().via.map.size; ++j)
                                     {
-                                        if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[0].val.type)
+                                        if (child_name == handles_[i]->get().via.map.ptr[j].key.as<std::string>())
                                         {
-                                            node_stack_.push( &(handles_[i]->get().via.map.ptr[0].val) );
-                                            return(true);
+                                            if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[j].val.type)
+                                            {
+                                                node_stack_.push( &(handles_[i]->get().via.map.ptr[j].val) );
+                                                return(true);
+                                            }
                                         }
                                     }
                                 }
-- 
2.43.0


From ccb1f768515f3d9fac6c8e22580b20e8854543dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 28/51] fix: report unknown tasks in the configuration of an
 optimization problem

The null pointer was dereferenced before the check; stale task ids were kept
when a new configuration was read.
---
 core/include/humoto/configurable_optimization_problem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..e28a02a 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -84,6 +84,7 @@ namespace humoto
             void setDefaults()
             {
                 task_class_names_.clear();
+                task_ids_.clear();
             }
 
 
@@ -150,10 +151,10 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From 0e9afe77beea2e83e8c5f17b75c0935a12f58d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:00 +0000
Subject: [PATCH 29/51] fix: flush the output stream when a YAML configuration
 is flushed

The written nodes did not reach the file until the writer was destroyed.
---
 bridges/config_yaml/interface/config_yaml/writer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 0734761..a7ba93b 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -277,6 +277,7 @@ namespace humoto
                     void flush()
                     {
                         destroyEmitter();
+                        config_ofs_.flush();
                         initEmitter();
                     }
             };
-- 
2.43.0


From bfd26d2241984f89e0831b416740651b1dad87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 30/51] fix: Logger: protect the interruption flag with the
 mutex

---
 core/include/humoto/logger.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 82b25d8..f791b62 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -593,12 +593,11 @@ namespace humoto
                     std::size_t num_msg = 0;
 
 
+                    message_queue_mutex_.lock();
                     if (interrupted_)
                     {
                         stop_thread = true;
                     }
-
-                    message_queue_mutex_.lock();
                     num_msg = message_queue_.size();
                     message_queue_mutex_.unlock();
 
@@ -644,7 +643,10 @@ namespace humoto
             {
                 if (! interrupted_)
                 {
+                    message_queue_mutex_.lock();
                     interrupted_ = true;
+                    message_queue_mutex_.unlock();
+
                     processor_thread_.join();
                 }
             }
-- 
2.43.0


From 141ac1c8dd40b8a3d311b262592264ad8932fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 31/51] fix: Logger: allow to change the log file

---
 core/include/humoto/logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index f791b62..a4b233a 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -422,6 +422,10 @@ namespace humoto
              */
             void initialize(const std::string &output_filename)
             {
+                if (output_file_stream_.is_open())
+                {
+                    output_file_stream_.close();
+                }
                 file_stream_is_open_ = true;
 
                 output_file_stream_.open(output_filename.c_str());
-- 
2.43.0


From 275cb3a8c0d4960a5a5c8bfc11b29d3d340aad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 32/51] fix: Logger: release messages which could not be
 written

---
 core/include/humoto/logger.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index a4b233a..a699645 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -716,6 +716,13 @@ namespace humoto
             ~Logger()
             {
                 interrupt();
+
+                // messages which could not be written
+                while (! message_queue_.empty())
+                {
+                    delete message_queue_.front();
+                    message_queue_.pop();
+                }
             }
 
 
-- 
2.43.0


From 01b16a2aa9477c745bf1fc9ec83bea79bc075e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 33/51] fix: Logger: format all Eigen expressions in the logger
 without threads

---
 core/include/humoto/logger.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index a699645..4dd55bd 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -114,15 +114,22 @@ namespace humoto
              * @tparam t_rows       (Eigen) number of rows
              * @tparam t_cols       (Eigen) number of columns
              * @tparam t_flags      (Eigen) flags
+             * @tparam t_max_rows   (Eigen) maximal number of rows
+             * @tparam t_max_cols   (Eigen) maximal number of columns
              *
              * @param[in,out] out   output stream
              * @param[in] name      name of the log entry
              * @param[in] matrix    matrix
              */
-            template<typename t_Scalar, int t_rows, int t_cols, int t_flags>
+            template<typename t_Scalar, int t_rows, int t_cols, int t_flags, int t_max_rows, int t_max_cols>
                 static void  formatAndOutputEntry(  std::ostream *out,
                                                     const std::string & name,
-                                                    const Eigen::Matrix<t_Scalar, t_rows, t_cols, t_flags> &matrix)
+                                                    const Eigen::Matrix<t_Scalar,
+                                                                        t_rows,
+                                                                        t_cols,
+                                                                        t_flags,
+                                                                        t_max_rows,
+                                                                        t_max_cols> &matrix)
             {
                 *out << name << " = ...\n" << matrix.format(getEigenMatrixFormat()) << "\n";
             }
@@ -949,7 +956,7 @@ namespace humoto
                 void  log(  const LogEntryName & name,
                             const Eigen::DenseBase<t_Derived> &matrix)
             {
-                OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), matrix.eval());
+                OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), matrix.derived().matrix().eval());
                 output_stream_->flush();
             }
 
-- 
2.43.0


From 8825164bea1bb579c72996259a55512ccefc7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 34/51] fix: Logger: log character strings as strings

---
 core/include/humoto/logger.h | 40 ++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 4dd55bd..983c3dc 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -829,6 +829,17 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Log raw data (char string)
+             *
+             * @param[in] string
+             */
+            void log(char * string)
+            {
+                pushMessage(new LogMessageRaw<std::string>(string));
+            }
+
+
 
             /**
              * @brief Log data (fundamental types)
@@ -891,6 +902,14 @@ namespace humoto
             {
                 pushMessage(new LogMessage<std::string>(name, string));
             }
+
+
+            /// @copydoc log
+            void  log(  const LogEntryName & name,
+                        char *string)
+            {
+                pushMessage(new LogMessage<std::string>(name, string));
+            }
     };
 #else
     /**
@@ -982,6 +1001,27 @@ namespace humoto
                 OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), data);
                 output_stream_->flush();
             }
+
+
+            /**
+             * @brief Log data (char string)
+             *
+             * @param[in] name
+             * @param[in] string
+             */
+            void  log(  const LogEntryName & name,
+                        const char *string)
+            {
+                log(name, std::string(string));
+            }
+
+
+            /// @copydoc log
+            void  log(  const LogEntryName & name,
+                        char *string)
+            {
+                log(name, std::string(string));
+            }
     };
 #endif // HUMOTO_USE_THREADS_FOR_LOGGING
 }
-- 
2.43.0


From 52743b546626df52a46f3f39c0dcf07dd2a51726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 35/51] fix: OctaveFormatter: escape quotes in strings

---
 core/include/humoto/logger.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 983c3dc..12bf89c 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -147,7 +147,17 @@ namespace humoto
                                                 const std::string & name,
                                                 const std::string &string)
             {
-                *out << name << " = '" << string << "';\n";
+                *out << name << " = '";
+                for (std::size_t i = 0; i < string.size(); ++i)
+                {
+                    if ('\'' == string[i])
+                    {
+                        // quotes must be doubled in strings
+                        *out << '\'';
+                    }
+                    *out << string[i];
+                }
+                *out << "';\n";
             }
 
 
-- 
2.43.0


From dfde5f7f8a2c64339daf1b710d274f4eee960fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 36/51] fix: OptimizationProblem::log: use the given name

---
 core/include/humoto/hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 2c09059..45bb6fc 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -295,7 +295,7 @@ namespace humoto
                            const std::string & name = "") const
             {
                 LogEntryName subname = parent;
-                subname.add("tasks");
+                subname.add(name).add("tasks");
 
                 for (std::size_t i = 0; i < getNumberOfLevels(); ++i)
                 {
-- 
2.43.0


From 50d0fc075af815b4947311dae20f54939270bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:10 +0000
Subject: [PATCH 37/51] fix: QPObjective: initialize status and type of the
 Hessian

---
 core/include/humoto/qp_problem.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/include/humoto/qp_problem.h b/core/include/humoto/qp_problem.h
index 40e5452..250f282 100644
--- a/core/include/humoto/qp_problem.h
+++ b/core/include/humoto/qp_problem.h
@@ -47,6 +47,16 @@ namespace humoto
 
 
         public:
+            /**
+             * @brief Default constructor
+             */
+            QPObjective()
+            {
+                hessian_type_ = HESSIAN_UNDEFINED;
+                status_ = UNDEFINED;
+            }
+
+
             /**
              * @brief Generates (general) objective containing all constraints on this level
              *
-- 
2.43.0


From 9c1d290edeb7895fbe6bd2dda869af5d6c3afc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 38/51] fix: qpOASES bridge: mark equalities in the returned
 active set

---
 bridges/qpOASES/interface/qpoases/solver.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..22884bc 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -325,6 +325,13 @@ namespace humoto
 
                     for (std::size_t i = 0; i < number_of_constraints_; ++i)
                     {
+                        if (qp_problem_.getGeneralConstraints().getLowerBounds()[i]
+                                == qp_problem_.getGeneralConstraints().getUpperBounds()[i])
+                        {
+                            active_set[0][i] = ConstraintActivationType::EQUALITY;
+                            continue;
+                        }
+
                         if (qpoases_active_set_constraints_[i] == -1.0)
                         {
                             active_set[0][i] = ConstraintActivationType::LOWER_BOUND;
@@ -354,6 +361,12 @@ namespace humoto
                     {
                         std::size_t var_index = qp_problem_.getSimpleBounds().getIndices()[i];
 
+                        if (qp_problem_.getSimpleBounds().getLowerBounds()[i] == qp_problem_.getSimpleBounds().getUpperBounds()[i])
+                        {
+                            active_set[0][number_of_constraints_ + i] = ConstraintActivationType::EQUALITY;
+                            continue;
+                        }
+
                         if (qpoases_active_set_bounds_[var_index] == -1.0)
                         {
                             if (qp_problem_.getSimpleBounds().getLowerBounds()[i] < qp_problem_.getSolutionLowerBounds()[var_index])
-- 
2.43.0


From 68d35f7f38960ed9f5d971e01077fd263de5bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 39/51] fix: qpOASES bridge: reject solution guesses of a wrong
 size

---
 bridges/qpOASES/interface/qpoases/solver.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 22884bc..c737acd 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -479,6 +479,9 @@ namespace humoto
                 /// @copydoc humoto::SolverGuessSolutionMixin::setSolutionGuess
                 void setSolutionGuess(const humoto::Solution & solution_guess)
                 {
+                    HUMOTO_ASSERT(  solution_guess.x_.rows() == qp_problem_.getHessian().cols(),
+                                    "Guess of the solution has a wrong size.");
+
                     solution_guess_ = solution_guess.x_.data();
                 }
 
-- 
2.43.0


From b65d2cf781fb5ee28792d6cc76a6f0a51b36d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 40/51] fix: qpmad bridge: use the given options of the solver

---
 bridges/qpmad/interface/qpmad/solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..846e015 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -114,7 +114,8 @@ namespace humoto
                                         qp_problem_.getSolutionUpperBounds(),
                                         qp_problem_.getGeneralConstraints().getA(),
                                         qp_problem_.getGeneralConstraints().getLowerBounds(),
-                                        qp_problem_.getGeneralConstraints().getUpperBounds());
+                                        qp_problem_.getGeneralConstraints().getUpperBounds(),
+                                        parameters_.options_);
 
 
                     switch (qp_status)
-- 
2.43.0


From 7af7c33210825135af41fcda07a0bcf33bd1c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 41/51] fix: QuadProgpp bridge: describe failures as such

---
 bridges/QuadProgpp/interface/quadprogpp/solution.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solution.h b/bridges/QuadProgpp/interface/quadprogpp/solution.h
index b388ffb..a3167a9 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solution.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solution.h
@@ -31,13 +31,13 @@ namespace humoto
                  */
                 std::string getStatusDescription() const
                 {
-                    if (quadprogpp_return_value_ == std::numeric_limits<double>::infinity())
+                    if (quadprogpp_return_value_ == QuadProgpp::Status::OK)
                     {
-                        return ("quadprogpp: an infeasible or degenerate problem.");
+                        return ("quadprogpp: Ok.");
                     }
                     else
                     {
-                        return ("quadprogpp: Ok.");
+                        return ("quadprogpp: an infeasible or degenerate problem.");
                     }
                 }
 
-- 
2.43.0


From e5610980d7ff6acb6e098d76e4e290f802cf5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 42/51] fix: QP bridges: initialize return values in solutions

---
 bridges/QuadProgpp/interface/quadprogpp/solution.h |  9 +++++++++
 bridges/qpOASES/interface/qpoases/solution.h       | 10 ++++++++++
 bridges/qpmad/interface/qpmad/solution.h           |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solution.h b/bridges/QuadProgpp/interface/quadprogpp/solution.h
index a3167a9..27dcbca 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solution.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solution.h
@@ -24,6 +24,15 @@ namespace humoto
 
 
             public:
+                /**
+                 * @brief Default constructor
+                 */
+                Solution()
+                {
+                    quadprogpp_return_value_ = QuadProgpp::Status::OK;
+                }
+
+
                 /**
                  * @brief Status description
                  *
diff --git a/bridges/qpOASES/interface/qpoases/solution.h b/bridges/qpOASES/interface/qpoases/solution.h
index 416a89f..a300f1a 100644
--- a/bridges/qpOASES/interface/qpoases/solution.h
+++ b/bridges/qpOASES/interface/qpoases/solution.h
@@ -29,6 +29,16 @@ namespace humoto
 
 
             public:
+                /**
+                 * @brief Default constructor
+                 */
+                Solution()
+                {
+                    number_of_iterations_ = 0;
+                    qpoases_return_value_ = qpOASES::SUCCESSFUL_RETURN;
+                }
+
+
                 /**
                  * @brief Status description
                  *
diff --git a/bridges/qpmad/interface/qpmad/solution.h b/bridges/qpmad/interface/qpmad/solution.h
index 7d367bc..f3819a8 100644
--- a/bridges/qpmad/interface/qpmad/solution.h
+++ b/bridges/qpmad/interface/qpmad/solution.h
@@ -24,6 +24,15 @@ namespace humoto
 
 
             public:
+                /**
+                 * @brief Default constructor
+                 */
+                Solution()
+                {
+                    qpmad_return_value_ = ::qpmad::Solver::OK;
+                }
+
+
                 /**
                  * @brief Status description
                  *
-- 
2.43.0


From c67faa6cd1f7dbaf99b79c4867d5ad4e3d79f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 43/51] fix: pepper_ik: read the state through the model in
 WholeBodyController

---
 modules/pepper_ik/include/pepper_ik/whole_body_controller.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index d04acda..c9a82e8 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -310,7 +310,7 @@ namespace humoto
                         const humoto::pepper_ik::Model<t_features>                      &model) const
                 {
                     HUMOTO_ASSERT(solution_is_parsed_ == true, "This function can be called only after the solution is parsed.");
-                    return(model.state_);
+                    return(model.getState());
                 }
 
 
-- 
2.43.0


From 52d810319a13af04efca6a37f1dcc1d0ca4781a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 44/51] fix: pepper_ik: compare positions of roots in
 Model::checkStateTransition

---
 modules/pepper_ik/include/pepper_ik/model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 4513aaf..b880f3e 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -685,8 +685,8 @@ namespace humoto
                     etools::Vector3 root_from;
                     etools::Vector3 root_to;
 
-                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.joint_angles_);
-                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.joint_angles_);
+                    generalized_coordinates_from.getRootPosition(root_from);
+                    generalized_coordinates_to.getRootPosition(root_to);
 
                     if (! root_from.isApprox(root_to, error_tol))
                     {
-- 
2.43.0


From 56b610a15dcda9568651fa2c56866b77692f4cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 45/51] fix: pepper_ik: return correct negative yaw angles of
 the base

---
 modules/pepper_ik/include/pepper_ik/model.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index b880f3e..b9b73fa 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -437,7 +437,8 @@ namespace humoto
                  */
                 double getBaseYaw() const
                 {
-                    return (convertMatrixToEulerAngles(getBaseOrientation(), rigidbody::EulerAngles::RPY).z());
+                    const etools::Matrix3 orientation = getBaseOrientation();
+                    return (std::atan2(orientation(1, 0), orientation(0, 0)));
                 }
 
 
-- 
2.43.0


From 430ef452a4df0bd9e8f85720ce185e0e311890bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 46/51] fix: pepper_ik: do not use tags of the previous
 configuration in tasks

---
 modules/pepper_ik/include/pepper_ik/task_tagangularvel.h  | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagorient.h      | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagpose.h        | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h    | 5 +----
 5 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
index f1c2c1d..642c6a4 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 18d3ac3..18f26f8 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagorient.h b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
index 2a51700..16efd4c 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagorient.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
@@ -83,10 +83,7 @@ namespace humoto
                     const Model<t_features>  &model   =
                         dynamic_cast <const Model<t_features> &>(model_base);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose.h b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
index 2a7bd9b..768bff8 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
index ca8c8b3..f20d12b 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
@@ -83,10 +83,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
-- 
2.43.0


From b2d941fc63f32076a03553eaafb48ae84205a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 47/51] fix: rbdl::Model: discard the previous model in load()

---
 bridges/rbdl/interface/rbdl/model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 3854928..b45cc9d 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -100,6 +100,9 @@ namespace humoto
                 {
                     setDefaults();
 
+                    // URDFReadFromFile() adds links to the existing ones
+                    rbdl_model_ = RigidBodyDynamics::Model();
+
                     bool rbdl_status = RigidBodyDynamics::Addons::URDFReadFromFile(
                                             urdf_filename.c_str(),
                                             &rbdl_model_,
-- 
2.43.0


From 37f8f248331388e78d738ea38f2f14eba73e979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 48/51] fix: rbdl::Model: report unknown links

---
 bridges/rbdl/interface/rbdl/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index b45cc9d..5dabea9 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -744,7 +744,10 @@ namespace humoto
                  */
                 std::size_t getLinkId(const std::string   &string_id) const
                 {
-                    return (rbdl_model_.GetBodyId(string_id.c_str()));
+                    const unsigned int id = rbdl_model_.GetBodyId(string_id.c_str());
+                    HUMOTO_ASSERT(  std::numeric_limits<unsigned int>::max() != id,
+                                    std::string("Unknown link: ") + string_id);
+                    return (id);
                 }
 
 
-- 
2.43.0


From 806e2bb107168a3f7a8e3894d06248b8ed2d31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 49/51] fix: rbdl::Model: reject requests for masses of fixed
 links

---
 bridges/rbdl/interface/rbdl/model.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 5dabea9..ff4b2bf 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -192,6 +192,8 @@ namespace humoto
                 TagPointPtr getLinkCoMTag(const std::string &link_string_id) const
                 {
                     LinkId id = getLinkId(link_string_id);
+                    HUMOTO_ASSERT(  false == isLinkFixed(id),
+                                    std::string("CoM of a fixed link is not available: ") + link_string_id);
                     boost::shared_ptr<TagPoint> ptr(new TagPoint(   id,
                                                                     rbdl_model_.mBodies[id].mCenterOfMass));
                     return(ptr);
@@ -215,6 +217,8 @@ namespace humoto
                     for (std::size_t i = 0; i < link_ids.size(); ++i)
                     {
                         link_ids[i] = getLinkId(link_string_ids[i]);
+                        HUMOTO_ASSERT(  false == isLinkFixed(link_ids[i]),
+                                        std::string("CoM of a fixed link is not available: ") + link_string_ids[i]);
 
                         total_mass += rbdl_model_.mBodies[link_ids[i]].mMass;
                     }
@@ -429,6 +433,7 @@ namespace humoto
                  */
                 double getTagMass(const TagLinkPtr  tag) const
                 {
+                    HUMOTO_ASSERT(false == isLinkFixed(tag->link_id_), "Mass of a fixed link is not available.");
                     return (rbdl_model_.mBodies[tag->link_id_].mMass);
                 }
 
-- 
2.43.0


From 6f77c7f2354ad8aa2aedf46bf24a266a597f1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 50/51] fix: pepper_mpc: allow the length of the preview
 horizon to be changed

MPCforMG::update() failed after setParameters() with another length of the
preview horizon, since the dimensions of the old matrix of the state are in
general not multiples of the new block size.
---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index d463d19..135e497 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -162,6 +162,8 @@ namespace humoto
 
                     std::size_t number_of_state_variables = model.Ns_ * mpc_parameters_.preview_horizon_length_;
 
+                    // the interface below requires a matrix which can be split into blocks
+                    S_.resize(number_of_state_variables, sol_structure_.getNumberOfVariables());
                     etools::BlockMatrixInterface<   etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixSparsityType::NONE> S_bmi( S_,
-- 
2.43.0


From ffe3812b047e7ca4b1850a6ea1a051c1623c6cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 51/51] fix: MPCforMG, MPCforWPG: guess solutions after changes
 of the preview horizon

The parts of an old solution were copied to parts of a different size if the
length of the preview horizon has been changed (out of bounds reads if
assertions are disabled, otherwise an assertion failure).
---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 10 ++++++----
 modules/wpg04/include/wpg04/mpc_wpg.h          |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 135e497..086eae3 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -627,11 +627,12 @@ namespace humoto
                         old_part = old_solution.getSolutionPartLocation(BASE_VEL_VARIABLES_ID);
                         guess_part = solution_guess.getSolutionPartLocation(BASE_VEL_VARIABLES_ID);
 
-                        guess_part.length_ -= 2;
-
                         old_part.offset_ +=2;
                         old_part.length_ -=2;
 
+                        // the length of the preview horizon may have been changed
+                        guess_part.length_ = old_part.length_ = std::min(guess_part.length_, old_part.length_);
+
                         solution_guess.getData(guess_part) = old_solution.getData(old_part);
 
 
@@ -639,11 +640,12 @@ namespace humoto
                         old_part = old_solution.getSolutionPartLocation(BODY_JERK_VARIABLES_ID);
                         guess_part = solution_guess.getSolutionPartLocation(BODY_JERK_VARIABLES_ID);
 
-                        guess_part.length_ -= 2;
-
                         old_part.offset_ +=2;
                         old_part.length_ -=2;
 
+                        // the length of the preview horizon may have been changed
+                        guess_part.length_ = old_part.length_ = std::min(guess_part.length_, old_part.length_);
+
                         solution_guess.getData(guess_part) = old_solution.getData(old_part);
                     }
                 }
diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index c480555..af97e98 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -513,11 +513,12 @@ namespace humoto
                         Location old_part = old_solution.getSolutionPartLocation(COP_VARIABLES_ID);
                         Location guess_part = solution_guess.getSolutionPartLocation(COP_VARIABLES_ID);
 
-                        guess_part.length_ -= 2;
-
                         old_part.offset_ +=2;
                         old_part.length_ -=2;
 
+                        // the length of the preview horizon may have been changed
+                        guess_part.length_ = old_part.length_ = std::min(guess_part.length_, old_part.length_);
+
                         solution_guess.getData(guess_part) = old_solution.getData(old_part);
 
 
@@ -534,12 +535,12 @@ namespace humoto
                             if (old_part.length_ > guess_part.length_)
                             {
                                 old_part.offset_ +=2;
-                                old_part.length_ -=2;
+                                old_part.length_ = guess_part.length_ = std::min(guess_part.length_, old_part.length_ - 2);
                                 solution_guess.getData(guess_part) = old_solution.getData(old_part);
                             }
                             else
                             {
-                                guess_part.length_ -= 2;
+                                guess_part.length_ = old_part.length_;
                                 solution_guess.getData(guess_part) = old_solution.getData(old_part);
                             }
                         }
-- 
2.43.0

