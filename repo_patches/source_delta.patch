From 12094ad38d3c656c0e9151b2ad434c0f4081fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 1/6] fix: generate paths with a valid target for leaves that
 no training row reaches

The heuristic and the MPSolver subproblem could return a path with target -1.
When such a path was selected, predict raised ValueError on the rows that
reach its leaf.
---
 col_gen_estimator/_dtree_classifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..a53d7da 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1298,7 +1298,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
@@ -1971,7 +1971,8 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            # A leaf without training rows still needs a valid target.
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 58b4765cd247c841480072286c11c4c6725a0d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 2/6] fix: exact cost for the intermediate paths of the CP-SAT
 subproblem

z was only bounded from above, so that the cost of a path taken from a
suboptimal solution could be less than the number of rows it predicts.
---
 col_gen_estimator/_dtree_classifier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index a53d7da..13cbdb7 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1757,6 +1757,12 @@ class DTreeSubProblemSat(BaseSubproblem):
             correct_class = self.y_[i]
             self.model_.Add(self.z_vars_[i] <= self.w_vars_[correct_class])
 
+            # z >= y + w - 1. The path generator also returns the suboptimal
+            # solutions, the cost of their paths must be exact as well.
+            self.model_.Add(
+                self.z_vars_[i] >=
+                self.y_vars_[i] + self.w_vars_[correct_class] - 1)
+
         self.generated_ = True
 
     def update_objective(self, leaf_dual, row_duals, ns_duals, cut_duals):
-- 
2.43.0


From f341f99c5b7611daee3ebbc54d215c855355b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 3/6] fix: use the row weights in the old decision tree
 subproblem

With preprocessed data rows, similar rows are merged in one row with a higher
weight. The old subproblem ignored the weight, it computed a wrong cost for the
paths and missed paths with a positive reduced cost.
---
 col_gen_estimator/_dtree_classifier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 13cbdb7..3b28dcd 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2116,7 +2116,7 @@ class DTreeSubProblemOld(BaseSubproblem):
             y_var = self.solver_.BoolVar('y_'+str(i))
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
             self.y_vars_[i] = y_var.index()
@@ -2215,12 +2215,12 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
 
             y_var = self.solver_.variable(self.y_vars_[i])
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
 
@@ -2341,10 +2341,10 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
             y_var = self.solver_.variable(self.y_vars_[i])
             if self.y_[i] == self.target_:
-                path.cost += 1 * y_var.solution_value()
+                path.cost += obj_coeff * y_var.solution_value()
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
-- 
2.43.0


From 569a0f98ff969d5e2c45f73455fccde1ccf95044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 4/6] fix: update performed_iter_ in the column generation loop

The documented attribute always stayed at 0.
---
 col_gen_estimator/_col_gen_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..ebb18fd 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -380,6 +380,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                 break
             self.iter_ += 1
+            self.performed_iter_ = self.iter_
             print("Iteration number: ", self.iter_)
             print("Time elapsed: ", time() - t_start)
             master_time_start = time()
-- 
2.43.0


From 1df1cf6b435e8dfd9f83f66650e158b37bfa773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 5/6] fix: create fresh problems from the current parameters in
 every fit

---
 col_gen_estimator/_bdr_classifier.py     | 19 ++++++++---
 col_gen_estimator/_col_gen_classifier.py | 11 ++++++-
 col_gen_estimator/_dtree_classifier.py   | 40 +++++++++++++++++-------
 3 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index d5ea232..0021728 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -662,13 +662,18 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
+        # Used for creating the problems at the beginning of fit.
         self.C = C
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
 
+    def _create_problems(self):
+        self.master_problem = BDRMasterProblem(
+            self.C, self.p, self.rmp_solver)
+        self.subproblems = [[BDRSubProblem(
+            self.C, self.subproblem_solver)]]
+
     def _more_tags(self):
         return {'X_types': ['categorical'],
                 'non_deterministic': True,
@@ -836,9 +841,15 @@ class BooleanDecisionRuleClassifierWithHeuristic(
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
+        # Used for creating the problems at the beginning of fit.
         self.C = C
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
+
+    def _create_problems(self):
+        self.master_problem = BDRMasterProblem(
+            self.C, self.p, self.rmp_solver)
+        self.subproblems = [[BDRHeuristic(K=1)],
+                            [BDRSubProblem(
+                                self.C, self.subproblem_solver)]]
diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index ebb18fd..904ce8f 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -326,6 +326,13 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         for level in range(len(subproblems)):
             assert len(subproblems[level]) == len(subproblem_params[level])
 
+    def _create_problems(self):
+        """ (Optional) Creates the master problem and the subproblems from the
+        current parameters. This is called at the beginning of every fit, so
+        that fit never reuses the models (or the parameters) of an earlier one.
+        """
+        return
+
     def fit(self, X, y):
         """Runs the column generation loop.
 
@@ -361,6 +368,8 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                 "Classifier can't train when only one class is present.")
 
         # Initiate the master and subproblems
+        self.all_subproblem_params_ = self.subproblem_params
+        self._create_problems()
         self.master_problem.generate_mp(X, self.processed_y_)
 
         self.performed_iter_ = 0
@@ -420,7 +429,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                     generated_columns = self.subproblems[sp_level][sp_ind] \
                         .generate_columns(
                         X, self.processed_y_, dual_costs,
-                        self.subproblem_params[sp_level][sp_ind])
+                        self.all_subproblem_params_[sp_level][sp_ind])
                     sp_time_end = time()
                     self.time_spent_sp_[
                         sp_level][sp_ind] += sp_time_end - sp_time_start
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 3b28dcd..821b6c1 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -546,7 +546,8 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.cut_gen_model_ = cp_model.CpModel()
         self.cut_obj_scale = 1000000
         self.generated_ = False
-        self.paths_ = initial_paths
+        # A copy, the generated paths must not be added to the caller's list.
+        self.paths_ = list(initial_paths)
         self.generated_paths_ = set()
         self.leaves_ = leaves
         self.nodes_ = nodes
@@ -625,6 +626,10 @@ class DTreeMasterProblem(BaseMasterProblem):
 
         self.X_ = X
         self.y_ = y
+        # This model has no cuts and no paths yet.
+        for split in self.splits_:
+            split.left_cuts.clear()
+            split.right_cuts.clear()
         self.create_cut_gen_model()
         infinity = self.solver_.infinity()
         self.solver_.SetNumThreads(1)
@@ -726,6 +731,7 @@ class DTreeMasterProblem(BaseMasterProblem):
 
     def compute_satisfied_paths(self):
         for r, data_row in enumerate(self.data_rows):
+            data_row.reachable_paths.clear()
             for path in self.paths_:
                 if row_satisfies_path(self.X_[r], self.leaves_[path.leaf_id],
                                       self.splits_, path):
@@ -2445,6 +2451,8 @@ class DTreeClassifier(ColGenClassifier):
         self.master_beta_constraints_as_cuts = master_beta_constraints_as_cuts
         self.master_generate_cuts = master_generate_cuts
         self.data_rows = data_rows
+        self.use_old_sp = use_old_sp
+        self.master_solver_type = master_solver_type
         split_ids = []
         for split in splits:
             split_ids.append(split.id)
@@ -2475,12 +2483,25 @@ class DTreeClassifier(ColGenClassifier):
             assert len(path.node_ids) == self.tree_depth
             assert len(path.splits) == self.tree_depth
 
+        self._create_problems()
+
+        rmp_is_ip = True
+        super().__init__(max_iterations, time_limit,
+                         self.master_problem, self.subproblems,
+                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
+                         self.all_subproblem_params_)
+        # The parameter itself is kept as passed for sklearn compatibility.
+        self.subproblem_params = subproblem_params
+
+    def _create_problems(self):
+        data_rows = self.data_rows
+        subproblem_params = self.subproblem_params
         self.master_problem = DTreeMasterProblem(
             self.initial_paths, self.leaves, self.nodes, self.splits,
-            num_cuts_round=num_master_cuts_round,
-            beta_constraints_as_cuts=master_beta_constraints_as_cuts,
-            generate_cuts=master_generate_cuts,
-            solver_type=master_solver_type,
+            num_cuts_round=self.num_master_cuts_round,
+            beta_constraints_as_cuts=self.master_beta_constraints_as_cuts,
+            generate_cuts=self.master_generate_cuts,
+            solver_type=self.master_solver_type,
             data_rows=data_rows)
         self.subproblems = []
         all_subproblem_params = []
@@ -2492,7 +2513,7 @@ class DTreeClassifier(ColGenClassifier):
         self.subproblems.append([])
         all_subproblem_params.append([])
         for leaf in self.leaves:
-            if use_old_sp:
+            if self.use_old_sp:
                 for target in self.targets:
                     subproblem = DTreeSubProblemOld(
                         leaf, self.nodes, self.splits, target,
@@ -2511,12 +2532,7 @@ class DTreeClassifier(ColGenClassifier):
                     data_rows=data_rows)
                 self.subproblems[1].append(subproblem)
                 all_subproblem_params[1].append(subproblem_params)
-
-        rmp_is_ip = True
-        super().__init__(max_iterations, time_limit,
-                         self.master_problem, self.subproblems,
-                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
-                         all_subproblem_params)
+        self.all_subproblem_params_ = all_subproblem_params
 
     def _more_tags(self):
         return {'X_types': ['categorical'],
-- 
2.43.0


From c986e2a02d8de061dbede99815d65c2858bda156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 6/6] fix: predict accepts sparse input

---
 col_gen_estimator/_bdr_classifier.py   | 4 ++++
 col_gen_estimator/_dtree_classifier.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index 0021728..d6e4a4c 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -86,6 +86,7 @@ import itertools
 from bitarray.util import int2ba
 from ortools.linear_solver import pywraplp
 from ortools.linear_solver import linear_solver_pb2
+from scipy.sparse import issparse
 from sklearn.utils.validation import check_array, check_is_fitted
 from ._col_gen_classifier import BaseMasterProblem
 from ._col_gen_classifier import BaseSubproblem
@@ -694,6 +695,9 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
             The label for each sample. The labels only contain values in {0,1}.
         """
         X = check_array(X, accept_sparse=True)
+        if issparse(X):
+            # The rows are accessed by index.
+            X = X.toarray()
         check_is_fitted(self, 'is_fitted_')
         explanation = self.master_problem.explanation
         print("Explanation=", explanation)
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 821b6c1..4bf200a 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -122,6 +122,7 @@ from ortools.linear_solver import pywraplp
 from ortools.linear_solver import linear_solver_pb2
 from ortools.sat.python import cp_model
 from math import floor, ceil
+from scipy.sparse import issparse
 from sklearn.utils.validation import check_array, check_is_fitted
 from ._col_gen_classifier import BaseMasterProblem
 from ._col_gen_classifier import BaseSubproblem
@@ -2553,6 +2554,9 @@ class DTreeClassifier(ColGenClassifier):
             The label for each sample.
         """
         X = check_array(X, accept_sparse=True)
+        if issparse(X):
+            # The rows are accessed by index.
+            X = X.toarray()
         check_is_fitted(self, 'is_fitted_')
         selected_paths = self.master_problem.selected_paths
         # Check for each row, which path it satisfies. There should be exactly
-- 
2.43.0

