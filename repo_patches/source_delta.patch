From 4e094a0f2295ca47ade31b379717e887f3f86cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 1/5] fix: count both new leaves of a ternary split against
 max_leaves

MissingBranchSplitter::new_leaves_added was an inherent method, so the
generic growth loop used the trait's default of one new leaf and trees
with a missing branch could exceed max_leaves.
---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..b54a76c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From e7718182f3cf31db684161c906b226740a10a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 2/5] fix: keep node weights within the monotone bounds of
 ancestor splits

The bounds were only applied when the split feature itself was
constrained, so splits on other features below a constrained split could
break monotonicity (and trip the assertions on the bounds when
force_children_to_bound_parent is set).
---
 src/utils.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..7703ac1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -120,20 +120,17 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
+    _constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    // The bounds are infinite unless an ancestor was split on a constrained
+    // feature, they have to hold for splits on any feature below it.
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From 262cb6739fb5cc3fb2ea50ed617f84e9480ad5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 3/5] fix: sum the partial dependence of the trees in a fixed
 order

A parallel floating point sum associates in an order chosen by the thread
scheduler, so the value differed between runs and from the sequential one.
---
 src/gradientbooster.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a61592e..887a163 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -960,6 +960,8 @@ impl GradientBooster {
             self.get_prediction_trees()
                 .par_iter()
                 .map(|t| t.value_partial_dependence(feature, value, &self.missing))
+                .collect::<Vec<f64>>()
+                .iter()
                 .sum()
         } else {
             self.get_prediction_trees()
-- 
2.43.0


From 01a4229c17fabc68b66f5ba3f4558eb59614066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:14 +0000
Subject: [PATCH 4/5] fix: map constraints and terminate features back to names
 on load

---
 py-forust/forust/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 5b7a258..99f62fa 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -970,13 +970,16 @@ class GradientBooster:
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
                 # get back the original monotonicity map, with the
-                # feature names as keys.
+                # feature names as keys, and the original names of the
+                # features for which missing is terminated.
                 if m == "feature_names_in_":
-                    if c.monotone_constraints is not None:
-                        c.monotone_constraints = {
-                            ft: c.monotone_constraints[i]
-                            for i, ft in enumerate(c.feature_names_in_)
-                        }
+                    c.monotone_constraints = {
+                        c.feature_names_in_[i]: v
+                        for i, v in c.monotone_constraints.items()
+                    }
+                    c.terminate_missing_features = {
+                        c.feature_names_in_[i] for i in c.terminate_missing_features
+                    }
             except KeyError:
                 pass
         return c
-- 
2.43.0


From 7de8a7ac673683e66a1c6f6e047df13ea44992bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:45 +0000
Subject: [PATCH 5/5] fix: import XGBoost models without feature names, and
 plain boosters

Without feature names XGBoost dumps features by position (f0, f1, ...), but the
feature map was left empty, so every split was read as a split on feature 0. And a
xgboost.Booster was accepted but then asked for get_booster().
---
 py-forust/forust/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 99f62fa..75ac415 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -119,7 +119,8 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     model_dump = booster.get_dump(dump_format="json", with_stats=True)
     features = booster.feature_names
     if features is None:
-        feature_map = {}
+        # Unnamed features are dumped by their position, as "f0", "f1", and so on.
+        feature_map = {f"f{i}": i for i in range(booster.num_features())}
     else:
         feature_map = {v: i for i, v in enumerate(features)}
 
@@ -133,7 +134,7 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # because the base score is modified prior to predictions.
     # We would need to modify prior to handing it to the forust
     # model.
-    learner_config = json.loads(model.get_booster().save_config())["learner"]
+    learner_config = json.loads(booster.save_config())["learner"]
     base_score = float(learner_config["learner_model_param"]["base_score"])
     if learner_config["objective"]["name"] == "binary:logistic":
         base_score = np.log(base_score / (1 - base_score))
-- 
2.43.0

