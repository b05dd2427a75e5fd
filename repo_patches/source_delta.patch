From d4a9555060d2182ddf20a1bb11e5b8b2ef3e7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 01/21] fix: keep non-finite floats when a booster is saved and
 loaded

JSON has no non-finite numbers: an infinite missing value, base score, split
value, or evaluation metric was written as null, and a NaN evaluation metric
or infinite base score made the saved model unreadable.
---
 src/gradientbooster.rs | 17 ++++------
 src/lib.rs             |  1 +
 src/node.rs            |  1 +
 src/serde_float.rs     | 75 ++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 84 insertions(+), 10 deletions(-)
 create mode 100644 src/serde_float.rs

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a61592e..5dcfa8b 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -20,7 +20,7 @@ use rand::rngs::StdRng;
 use rand::seq::IteratorRandom;
 use rand::SeedableRng;
 use rayon::prelude::*;
-use serde::{Deserialize, Deserializer, Serialize};
+use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
 use std::fs;
 
@@ -114,6 +114,7 @@ pub struct GradientBooster {
     /// required to be in a node.
     pub min_leaf_weight: f32,
     /// The initial prediction value of the model.
+    #[serde(with = "crate::serde_float")]
     pub base_score: f64,
     /// Number of bins to calculate to partition the data. Setting this to
     /// a smaller number, will result in faster training time, while potentially sacrificing
@@ -142,7 +143,7 @@ pub struct GradientBooster {
     /// Integer value used to seed any randomness used in the algorithm.
     pub seed: u64,
     /// Value to consider missing.
-    #[serde(deserialize_with = "parse_missing")]
+    #[serde(with = "crate::serde_float")]
     pub missing: f64,
     /// Should missing be split out it's own separate branch?
     pub create_missing_branch: bool,
@@ -168,7 +169,10 @@ pub struct GradientBooster {
     #[serde(default = "default_terminate_missing_features")]
     pub terminate_missing_features: HashSet<usize>,
     /// A matrix of the evaluation history on the evaluation datasets.
-    #[serde(default = "default_evaluation_history")]
+    #[serde(
+        default = "default_evaluation_history",
+        with = "crate::serde_float::evaluation_history"
+    )]
     pub evaluation_history: Option<RowMajorMatrix<f64>>,
     #[serde(default = "default_best_iteration")]
     pub best_iteration: Option<usize>,
@@ -247,13 +251,6 @@ fn default_force_children_to_bound_parent() -> bool {
     false
 }
 
-fn parse_missing<'de, D>(d: D) -> Result<f64, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
-}
-
 impl Default for GradientBooster {
     fn default() -> Self {
         Self::new(
diff --git a/src/lib.rs b/src/lib.rs
index 99d93bf..413868c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 mod histogram;
 mod node;
 mod partial_dependence;
+mod serde_float;
 mod shapley;
 
 // Modules
diff --git a/src/node.rs b/src/node.rs
index fbcd2a4..9142ee4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -35,6 +35,7 @@ pub struct Node {
     pub weight_value: f32,
     pub hessian_sum: f32,
     pub depth: usize,
+    #[serde(with = "crate::serde_float")]
     pub split_value: f64,
     pub split_feature: usize,
     pub split_gain: f32,
diff --git a/src/serde_float.rs b/src/serde_float.rs
new file mode 100644
index 0000000..e308548
--- /dev/null
+++ b/src/serde_float.rs
@@ -0,0 +1,75 @@
+//! JSON has no representation for non-finite numbers, so they would all be written as null.
+//! Here NaN is written as null, and the infinities as the strings "inf" and "-inf", so that
+//! every value survives being saved and loaded.
+use serde::de::{Error, Unexpected, Visitor};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use std::fmt;
+
+pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
+    if v.is_infinite() {
+        s.serialize_str(if *v > 0. { "inf" } else { "-inf" })
+    } else {
+        s.serialize_f64(*v)
+    }
+}
+
+pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
+    d.deserialize_any(FloatVisitor)
+}
+
+struct FloatVisitor;
+
+impl<'de> Visitor<'de> for FloatVisitor {
+    type Value = f64;
+
+    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str("a number, null, \"inf\" or \"-inf\"")
+    }
+    fn visit_f64<E: Error>(self, v: f64) -> Result<f64, E> {
+        Ok(v)
+    }
+    fn visit_i64<E: Error>(self, v: i64) -> Result<f64, E> {
+        Ok(v as f64)
+    }
+    fn visit_u64<E: Error>(self, v: u64) -> Result<f64, E> {
+        Ok(v as f64)
+    }
+    fn visit_unit<E: Error>(self) -> Result<f64, E> {
+        Ok(f64::NAN)
+    }
+    fn visit_str<E: Error>(self, v: &str) -> Result<f64, E> {
+        match v {
+            "inf" => Ok(f64::INFINITY),
+            "-inf" => Ok(f64::NEG_INFINITY),
+            _ => Err(E::invalid_value(Unexpected::Str(v), &self)),
+        }
+    }
+}
+
+#[derive(Serialize, Deserialize)]
+struct Float(#[serde(with = "self")] f64);
+
+/// The metric values in the evaluation history can be NaN, or infinite.
+pub mod evaluation_history {
+    use super::Float;
+    use crate::data::RowMajorMatrix;
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    pub fn serialize<S: Serializer>(
+        v: &Option<RowMajorMatrix<f64>>,
+        s: S,
+    ) -> Result<S::Ok, S::Error> {
+        v.as_ref()
+            .map(|m| {
+                RowMajorMatrix::new(m.data.iter().map(|i| Float(*i)).collect(), m.rows, m.cols)
+            })
+            .serialize(s)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        d: D,
+    ) -> Result<Option<RowMajorMatrix<f64>>, D::Error> {
+        let m: Option<RowMajorMatrix<Float>> = Deserialize::deserialize(d)?;
+        Ok(m.map(|m| RowMajorMatrix::new(m.data.iter().map(|i| i.0).collect(), m.rows, m.cols)))
+    }
+}
-- 
2.43.0


From 1cdebbfda0d89b417a76955afd609209530743af Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 02:58:37 +0000
Subject: [PATCH 02/21] fix: apply monotone bounds to splits on unconstrained
 features

The bounds a node inherits from constrained splits above it were ignored when
the node was split on a feature without a constraint, so predictions could
violate the monotone constraint (and force_children_to_bound_parent could
panic).
---
 src/splitter.rs | 10 +---------
 src/utils.rs    | 23 +++++++++--------------
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..c7905b5 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -355,7 +355,7 @@ impl Splitter for MissingBranchSplitter {
         lower_bound: f32,
         upper_bound: f32,
         parent_weight: f32,
-        constraint: Option<&Constraint>,
+        _constraint: Option<&Constraint>,
     ) -> Option<(NodeInfo, NodeInfo, MissingInfo)> {
         // If there is no info right, or there is no
         // info left, there is nothing to split on,
@@ -374,7 +374,6 @@ impl Splitter for MissingBranchSplitter {
             left_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
         let mut right_weight = constrained_weight(
             &self.l1,
@@ -384,7 +383,6 @@ impl Splitter for MissingBranchSplitter {
             right_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
 
         if self.force_children_to_bound_parent {
@@ -417,7 +415,6 @@ impl Splitter for MissingBranchSplitter {
                 missing_hessian + left_hessian + right_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             ),
             // Calculate the local leaf average for now, after training the tree.
             // Recursively assign to the leaf weights underneath.
@@ -439,7 +436,6 @@ impl Splitter for MissingBranchSplitter {
                         missing_hessian,
                         lower_bound,
                         upper_bound,
-                        constraint,
                     )
                 }
             }
@@ -820,7 +816,6 @@ impl Splitter for MissingImputerSplitter {
             left_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
         let mut right_weight = constrained_weight(
             &self.l1,
@@ -830,7 +825,6 @@ impl Splitter for MissingImputerSplitter {
             right_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
 
         let mut left_gain = gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight);
@@ -862,7 +856,6 @@ impl Splitter for MissingImputerSplitter {
                 left_hessian + missing_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             );
             // The gain if missing went left
             let missing_left_gain = gain_given_weight(
@@ -888,7 +881,6 @@ impl Splitter for MissingImputerSplitter {
                 right_hessian + missing_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             );
             // The gain is missing went right
             let missing_right_gain = gain_given_weight(
diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..2f00e68 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -108,8 +108,9 @@ pub fn is_missing(value: &f64, missing: &f64) -> bool {
     }
 }
 
-/// Calculate the constraint weight given bounds
-/// and a constraint.
+/// Calculate the constraint weight given bounds.
+/// The bounds are inherited from the constrained splits above this node, so
+/// they apply whether or not the feature split on is itself constrained.
 #[allow(clippy::too_many_arguments)]
 #[inline]
 pub fn constrained_weight(
@@ -120,20 +121,14 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From 52aa830b73fd582b0952944257c44277821743c3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 02:59:40 +0000
Subject: [PATCH 03/21] fix: check min_leaf_weight before bounding children to
 their parent

With l2 = 0 and records of zero weight a candidate without any hessian has a
NaN weight, and force_children_to_bound_parent panicked on it although the
candidate is rejected by min_leaf_weight right after.
---
 src/splitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c7905b5..a91d8ec 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -366,6 +366,12 @@ impl Splitter for MissingBranchSplitter {
             return None;
         }
 
+        // Check the min_hessian constraint first
+        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
+            // Update for new value
+            return None;
+        }
+
         let mut left_weight = constrained_weight(
             &self.l1,
             &self.l2,
@@ -394,12 +400,6 @@ impl Splitter for MissingBranchSplitter {
         let left_gain = gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight);
         let right_gain = gain_given_weight(&self.l2, right_gradient, right_hessian, right_weight);
 
-        // Check the min_hessian constraint first
-        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
-            // Update for new value
-            return None;
-        }
-
         // We have not considered missing at all up until this point, we could if we wanted
         // to give more predictive power probably to missing.
         // If we don't want to allow the missing branch to be split further,
-- 
2.43.0


From 9557b48745b0c4256e87db71fc62b5b2cb12a76f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 04/21] fix: keep cuts sorted when the data contains f64::MAX
 or infinity

---
 src/binning.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binning.rs b/src/binning.rs
index 6ae1d91..c64617d 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -100,6 +100,8 @@ pub fn bin_matrix(
         assert_eq!(no_miss.len(), w.len());
         let mut col_cuts = percentiles_or_value(&no_miss, &w, &pcts);
         col_cuts.push(f64::MAX);
+        // The cuts must be sorted, and infinite values are larger than the max value.
+        col_cuts.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
         col_cuts.dedup();
         // if col_cuts.len() < 2 {
         //     return Err(ForustError::NoVariance(i));
-- 
2.43.0


From f606059fc7f070fb5db4bf955ff0750fe54bdd20 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 05/21] fix: count both leaves a missing-branch split adds
 toward max_leaves

---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index a91d8ec..22eeae4 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From a2a16d54c5c1339deb21f1e4705a3490e37aa15f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 06/21] fix: keep log loss finite when predictions saturate

---
 src/metric.rs    | 6 ++----
 src/objective.rs | 7 ++-----
 src/utils.rs     | 7 +++++++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/metric.rs b/src/metric.rs
index 45f61cb..2b72b89 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -1,6 +1,5 @@
-use crate::data::FloatData;
 use crate::errors::ForustError;
-use crate::utils::items_to_strings;
+use crate::utils::{items_to_strings, log_loss_record};
 use serde::{Deserialize, Serialize};
 use std::str::FromStr;
 
@@ -131,8 +130,7 @@ pub fn log_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
         .zip(sample_weight)
         .map(|((y_, yhat_), w_)| {
             w_sum += *w_;
-            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
-            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
+            log_loss_record(*y_, *yhat_) * *w_
         })
         .sum::<f64>();
     res / w_sum
diff --git a/src/objective.rs b/src/objective.rs
index a4d8f63..b07fa0a 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -1,4 +1,4 @@
-use crate::{data::FloatData, metric::Metric};
+use crate::{data::FloatData, metric::Metric, utils::log_loss_record};
 use serde::{Deserialize, Serialize};
 
 type ObjFn = fn(&[f64], &[f64], &[f64]) -> (Vec<f32>, Vec<f32>);
@@ -39,10 +39,7 @@ impl ObjectiveFunction for LogLoss {
         y.iter()
             .zip(yhat)
             .zip(sample_weight)
-            .map(|((y_, yhat_), w_)| {
-                let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
-                (-(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_) as f32
-            })
+            .map(|((y_, yhat_), w_)| (log_loss_record(*y_, *yhat_) * *w_) as f32)
             .collect()
     }
 
diff --git a/src/utils.rs b/src/utils.rs
index 2f00e68..3716cc8 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -186,6 +186,13 @@ pub fn odds(v: f64) -> f64 {
     1. / (1. + (-v).exp())
 }
 
+/// Log loss of a single record, given its label and its predicted log odds. This is
+/// `-(y * ln(p) + (1 - y) * ln(1 - p))`, written so it stays finite when p rounds to 0 or 1.
+#[inline]
+pub fn log_loss_record(y: f64, logodds: f64) -> f64 {
+    logodds.max(0.) - y * logodds + (-logodds.abs()).exp().ln_1p()
+}
+
 /// Calculate the gain given the gradient and hessian of the node.
 #[inline]
 pub fn gain(l2: &f32, gradient_sum: f32, hessian_sum: f32) -> f32 {
-- 
2.43.0


From 716b003bc660b35e4c56370cd27762e6efff4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:38:18 +0000
Subject: [PATCH 07/21] fix: skip untravelled branches without cover in Shapley
 contributions

---
 src/shapley.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shapley.rs b/src/shapley.rs
index 6fa6a68..a948af1 100644
--- a/src/shapley.rs
+++ b/src/shapley.rs
@@ -194,6 +194,11 @@ fn tree_shap(
             let zero_fraction =
                 (tree.nodes[n_idx].hessian_sum / node.hessian_sum) * incoming_zero_fraction;
             let onf = if i == 0 { incoming_one_fraction } else { 0. };
+            // A branch with no cover that is not travelled has no influence,
+            // and it can't be unwound later on.
+            if zero_fraction == 0. && onf == 0. {
+                continue;
+            }
             tree_shap(
                 tree,
                 row,
-- 
2.43.0


From 7518bbd4c021d758853170099470a3cb7e89ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:45:25 +0000
Subject: [PATCH 08/21] fix: keep infinite f32 parameters and node values when
 a booster is saved and loaded

l1, l2, gamma, max_delta_step and min_leaf_weight can be infinite, and the gain of a
split can overflow to infinity. They were written as null, which cannot be read.
---
 src/gradientbooster.rs |  7 +++++--
 src/node.rs            |  3 +++
 src/serde_float.rs     | 37 +++++++++++++++++++++++++++++++------
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 5dcfa8b..28f3332 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -99,19 +99,22 @@ pub struct GradientBooster {
     pub max_leaves: usize,
     /// L1 regularization term applied to the weights of the tree. Valid values
     /// are 0 to infinity. 0 Means no regularization applied.
-    #[serde(default = "default_l1")]
+    #[serde(default = "default_l1", with = "crate::serde_float")]
     pub l1: f32,
     /// L2 regularization term applied to the weights of the tree. Valid values
     /// are 0 to infinity.
+    #[serde(with = "crate::serde_float")]
     pub l2: f32,
     /// The minimum amount of loss required to further split a node.
     /// Valid values are 0 to infinity.
+    #[serde(with = "crate::serde_float")]
     pub gamma: f32,
     /// Maximum delta step allowed at each leaf. This is the maximum magnitude a leaf can take. Setting to 0 results in no constrain.
-    #[serde(default = "default_max_delta_step")]
+    #[serde(default = "default_max_delta_step", with = "crate::serde_float")]
     pub max_delta_step: f32,
     /// Minimum sum of the hessian values of the loss function
     /// required to be in a node.
+    #[serde(with = "crate::serde_float")]
     pub min_leaf_weight: f32,
     /// The initial prediction value of the model.
     #[serde(with = "crate::serde_float")]
diff --git a/src/node.rs b/src/node.rs
index 9142ee4..37b6f8a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -32,12 +32,15 @@ pub struct SplittableNode {
 #[derive(Deserialize, Serialize)]
 pub struct Node {
     pub num: usize,
+    #[serde(with = "crate::serde_float")]
     pub weight_value: f32,
+    #[serde(with = "crate::serde_float")]
     pub hessian_sum: f32,
     pub depth: usize,
     #[serde(with = "crate::serde_float")]
     pub split_value: f64,
     pub split_feature: usize,
+    #[serde(with = "crate::serde_float")]
     pub split_gain: f32,
     pub missing_node: usize,
     pub left_child: usize,
diff --git a/src/serde_float.rs b/src/serde_float.rs
index e308548..922c715 100644
--- a/src/serde_float.rs
+++ b/src/serde_float.rs
@@ -5,16 +5,41 @@ use serde::de::{Error, Unexpected, Visitor};
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt;
 
-pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
-    if v.is_infinite() {
-        s.serialize_str(if *v > 0. { "inf" } else { "-inf" })
+pub fn serialize<T, S>(v: &T, s: S) -> Result<S::Ok, S::Error>
+where
+    T: Copy + Into<f64> + Serialize,
+    S: Serializer,
+{
+    let f: f64 = (*v).into();
+    if f.is_infinite() {
+        s.serialize_str(if f > 0. { "inf" } else { "-inf" })
     } else {
-        s.serialize_f64(*v)
+        v.serialize(s)
     }
 }
 
-pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
-    d.deserialize_any(FloatVisitor)
+pub fn deserialize<'de, T, D>(d: D) -> Result<T, D::Error>
+where
+    T: FromF64,
+    D: Deserializer<'de>,
+{
+    d.deserialize_any(FloatVisitor).map(T::from_f64)
+}
+
+pub trait FromF64 {
+    fn from_f64(v: f64) -> Self;
+}
+impl FromF64 for f64 {
+    fn from_f64(v: f64) -> f64 {
+        v
+    }
+}
+impl FromF64 for f32 {
+    // The value was written in decimal, so that is what needs to be rounded: rounding
+    // to f64, and then again to f32, can give a neighbor of the number written.
+    fn from_f64(v: f64) -> f32 {
+        v.to_string().parse().unwrap_or(v as f32)
+    }
 }
 
 struct FloatVisitor;
-- 
2.43.0


From 175270d11496d2d3058c141de6bf45d910b6f92d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:45:37 +0000
Subject: [PATCH 09/21] fix: accept labels and weights that are not contiguous
 in memory

A column of a C ordered array, or of a frame made from one, was rejected.
---
 py-forust/forust/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 5b7a258..7c24264 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -272,7 +272,7 @@ def _convert_input_array(x: ArrayLike) -> np.ndarray:
         x_ = x
     if not np.issubdtype(x_.dtype, "float64"):
         x_ = x_.astype(dtype="float64", copy=False)
-    return x_
+    return np.ascontiguousarray(x_)
 
 
 class GradientBooster:
-- 
2.43.0


From e4c021d1a0093e05fa83fbd5b1636142b0090c5b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 10/21] fix: map partial constraints and terminate features
 back to names on load

When not every feature had a monotone constraint, or there were terminate missing
features, a loaded model kept them by index, and could not be fit on a frame again.
---
 py-forust/forust/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 7c24264..f04d8a0 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -972,11 +972,15 @@ class GradientBooster:
                 # get back the original monotonicity map, with the
                 # feature names as keys.
                 if m == "feature_names_in_":
+                    # The same goes for the terminate missing features.
                     if c.monotone_constraints is not None:
                         c.monotone_constraints = {
-                            ft: c.monotone_constraints[i]
-                            for i, ft in enumerate(c.feature_names_in_)
+                            c.feature_names_in_[i]: v
+                            for i, v in c.monotone_constraints.items()
                         }
+                    c.terminate_missing_features = {
+                        c.feature_names_in_[i] for i in c.terminate_missing_features
+                    }
             except KeyError:
                 pass
         return c
-- 
2.43.0


From d3eb3dd522f7f7992685d452c73d313145da40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 11/21] fix: drop the feature names of an earlier fit when
 refit on a numpy array

They were applied to the columns of the new data, or failed where there were more.
---
 py-forust/forust/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index f04d8a0..29a186d 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -580,6 +580,10 @@ class GradientBooster:
         if len(features_) > 0:
             self.feature_names_in_ = features_
             self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # These are the names of the data from an earlier fit.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", None)
 
         y_ = _convert_input_array(y)
 
@@ -966,6 +970,8 @@ class GradientBooster:
         for m in c.meta_data_attributes:
             try:
                 m_ = c._get_metadata_attributes(m)
+                if m_ is None:
+                    continue
                 setattr(c, m, m_)
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
-- 
2.43.0


From d77ca48465101d3c04b85d07c49f95a31be0d41b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 12/21] fix: serialize text with quotes, backslashes or line
 breaks so it can be read back

---
 py-forust/forust/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/serialize.py b/py-forust/forust/serialize.py
index 03f4d6e..c9ca504 100644
--- a/py-forust/forust/serialize.py
+++ b/py-forust/forust/serialize.py
@@ -28,7 +28,7 @@ Scaler = Union[int, float, str]
 class ScalerSerializer(BaseSerializer[Scaler]):
     def serialize(self, obj: Scaler) -> str:
         if isinstance(obj, str):
-            obj_ = f"'{obj}'"
+            obj_ = repr(obj)
         else:
             obj_ = str(obj)
         return obj_
-- 
2.43.0


From c53eb92a9c1104a3a450f4d5bfc60ee498c0c66f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 13/21] fix: import xgboost models without feature names

All of their splits were made on the first feature. Also use the booster that was
passed, it does not need to be a scikit-learn model.
---
 py-forust/forust/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 29a186d..53f4f72 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -119,7 +119,7 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     model_dump = booster.get_dump(dump_format="json", with_stats=True)
     features = booster.feature_names
     if features is None:
-        feature_map = {}
+        feature_map = {f"f{i}": i for i in range(booster.num_features())}
     else:
         feature_map = {v: i for i, v in enumerate(features)}
 
@@ -133,7 +133,7 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # because the base score is modified prior to predictions.
     # We would need to modify prior to handing it to the forust
     # model.
-    learner_config = json.loads(model.get_booster().save_config())["learner"]
+    learner_config = json.loads(booster.save_config())["learner"]
     base_score = float(learner_config["learner_model_param"]["base_score"])
     if learner_config["objective"]["name"] == "binary:logistic":
         base_score = np.log(base_score / (1 - base_score))
-- 
2.43.0


From 854d86e37748ad45a3396dbf4d8d3bcd73dfa367 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 14/21] fix: return infinite values of the nodes as floats in
 get_node_lists

---
 py-forust/forust/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 53f4f72..77c31f7 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -1199,6 +1199,9 @@ class GradientBooster:
         for t in model:
             tree = []
             for n in t["nodes"]:
+                # Infinite values are strings in the json.
+                for f in ("weight_value", "hessian_sum", "split_value", "split_gain"):
+                    n[f] = float(n[f]) if isinstance(n[f], str) else n[f]
                 if not n["is_leaf"]:
                     n["split_feature"] = feature_map[n["split_feature"]]
                 else:
-- 
2.43.0


From d2299fc3e897bd5c7eb30174e61962a926f80ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 04:07:24 +0000
Subject: [PATCH 15/21] fix: accept float64 arrays of non-native byte order

np.issubdtype treats big-endian float64 as float64, so such arrays were
handed to the extension unconverted and rejected with a TypeError.
---
 py-forust/forust/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 77c31f7..1236fd2 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -258,7 +258,7 @@ def _convert_input_frame(X: FrameLike) -> tuple[list[str], np.ndarray, int, int]
         # Assume it's a numpy array.
         X_ = X
         features_ = []
-    if not np.issubdtype(X_.dtype, "float64"):
+    if X_.dtype != np.dtype("float64"):
         X_ = X_.astype(dtype="float64", copy=False)
     flat_data = X_.ravel(order="F")
     rows, cols = X_.shape
@@ -270,7 +270,7 @@ def _convert_input_array(x: ArrayLike) -> np.ndarray:
         x_ = x.to_numpy()
     else:
         x_ = x
-    if not np.issubdtype(x_.dtype, "float64"):
+    if x_.dtype != np.dtype("float64"):
         x_ = x_.astype(dtype="float64", copy=False)
     return np.ascontiguousarray(x_)
 
-- 
2.43.0


From f7464ebdc4aaafdd02efded0b2f4d338987ac133 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 04:10:11 +0000
Subject: [PATCH 16/21] fix: partial_dependence of boolean and object columns

These columns are accepted by fit and predict, but np.quantile and np.isnan
reject the dtypes, so partial_dependence raised a TypeError.
---
 py-forust/forust/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 1236fd2..ac800d0 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -864,6 +864,7 @@ class GradientBooster:
                 f"The parameter `feature` must be a string, or an int, however an object of type {type(feature)} was passed."
             )
         min_p, max_p = percentile_bounds
+        values = _convert_input_array(values)
         values = values[~(np.isnan(values) | (values == self.missing))]
         if samples is None:
             search_values = np.sort(np.unique(values))
-- 
2.43.0


From 9c279e38dda12167c22febafbffbee046eb922c6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 17/21] fix: splits with an empty side, suggested by rounding
 errors of subtracted histograms

---
 src/histogram.rs |  9 +++++++++
 src/splitter.rs  | 40 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/histogram.rs b/src/histogram.rs
index bf1080f..609094f 100644
--- a/src/histogram.rs
+++ b/src/histogram.rs
@@ -9,6 +9,9 @@ pub struct Bin<T> {
     pub gradient_sum: T,
     /// The sum of the hession values for this bin.
     pub hessian_sum: T,
+    /// The number of records in this bin, unlike the sums
+    /// this is exact, even if calculated by subtraction.
+    pub count: usize,
     /// The value used to split at, this is for deciding
     /// the split value for non-binned values.
     /// This value will be missing for the missing bin.
@@ -20,6 +23,7 @@ impl Bin<f32> {
         Bin {
             gradient_sum: f32::ZERO,
             hessian_sum: f32::ZERO,
+            count: 0,
             cut_value,
         }
     }
@@ -30,6 +34,7 @@ impl Bin<f32> {
         Bin {
             gradient_sum: root_bin.gradient_sum - child_bin.gradient_sum,
             hessian_sum: root_bin.hessian_sum - child_bin.hessian_sum,
+            count: root_bin.count - child_bin.count,
             cut_value: root_bin.cut_value,
         }
     }
@@ -46,6 +51,7 @@ impl Bin<f32> {
                 - (first_child_bin.gradient_sum + second_child_bin.gradient_sum),
             hessian_sum: root_bin.hessian_sum
                 - (first_child_bin.hessian_sum + second_child_bin.hessian_sum),
+            count: root_bin.count - (first_child_bin.count + second_child_bin.count),
             cut_value: root_bin.cut_value,
         }
     }
@@ -56,6 +62,7 @@ impl Bin<f64> {
         Bin {
             gradient_sum: f64::ZERO,
             hessian_sum: f64::ZERO,
+            count: 0,
             cut_value,
         }
     }
@@ -64,6 +71,7 @@ impl Bin<f64> {
         Bin {
             gradient_sum: self.gradient_sum as f32,
             hessian_sum: self.hessian_sum as f32,
+            count: self.count,
             cut_value: self.cut_value,
         }
     }
@@ -101,6 +109,7 @@ pub fn create_feature_histogram(
             if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                 v.gradient_sum += f64::from(*g);
                 v.hessian_sum += f64::from(*h);
+                v.count += 1;
             }
         });
     histogram.iter().map(|b| b.as_f32_bin()).collect()
diff --git a/src/splitter.rs b/src/splitter.rs
index 22eeae4..5382cff 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -39,6 +39,14 @@ pub enum MissingInfo {
     Branch(NodeInfo),
 }
 
+fn zero_if_empty(count: usize, gradient: f32, hessian: f32) -> (f32, f32) {
+    if count == 0 {
+        (0.0, 0.0)
+    } else {
+        (gradient, hessian)
+    }
+}
+
 pub trait Splitter {
     /// When a split happens, how many leaves will the tree increase by?
     /// For example, if a binary split happens, the split will increase the
@@ -117,6 +125,10 @@ pub trait Splitter {
         let missing = &histogram[0];
         let mut cuml_grad = 0.0; // first_bin.gradient_sum;
         let mut cuml_hess = 0.0; // first_bin.hessian_sum;
+        let mut cuml_count = 0;
+        let (missing_gradient, missing_hessian) =
+            zero_if_empty(missing.count, missing.gradient_sum, missing.hessian_sum);
+        let total_count = node.stop_idx - node.start_idx - missing.count;
         let constraint = self.get_constraint(&feature);
 
         let elements = histogram.len();
@@ -125,18 +137,28 @@ pub trait Splitter {
         for (i, bin) in histogram[1..].iter().enumerate() {
             let left_gradient = cuml_grad;
             let left_hessian = cuml_hess;
-            let right_gradient = node.gradient_sum - cuml_grad - missing.gradient_sum;
-            let right_hessian = node.hessian_sum - cuml_hess - missing.hessian_sum;
+            let left_count = cuml_count;
+            let right_gradient = node.gradient_sum - cuml_grad - missing_gradient;
+            let right_hessian = node.hessian_sum - cuml_hess - missing_hessian;
+            let right_count = total_count - cuml_count;
             cuml_grad += bin.gradient_sum;
             cuml_hess += bin.hessian_sum;
+            cuml_count += bin.count;
+
+            // Sums of no records at all can still be off by the rounding error
+            // of the subtractions, they need to be exactly zero.
+            let (left_gradient, left_hessian) =
+                zero_if_empty(left_count, left_gradient, left_hessian);
+            let (right_gradient, right_hessian) =
+                zero_if_empty(right_count, right_gradient, right_hessian);
 
             let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(
                 left_gradient,
                 left_hessian,
                 right_gradient,
                 right_hessian,
-                missing.gradient_sum,
-                missing.hessian_sum,
+                missing_gradient,
+                missing_hessian,
                 node.lower_bound,
                 node.upper_bound,
                 node.weight_value,
@@ -148,6 +170,16 @@ pub trait Splitter {
                 Some(v) => v,
             };
 
+            // If one of the sides has no records, there is nothing to split.
+            let (left_count, right_count) = match missing_info {
+                MissingInfo::Left => (left_count + missing.count, right_count),
+                MissingInfo::Right => (left_count, right_count + missing.count),
+                _ => (left_count, right_count),
+            };
+            if left_count == 0 || right_count == 0 {
+                continue;
+            }
+
             let split_gain = node.get_split_gain(
                 &left_node_info,
                 &right_node_info,
-- 
2.43.0


From 3b7110f8b0554974196dd5088edab271db9cef96 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 08:58:37 +0000
Subject: [PATCH 18/21] fix: bin columns of 65536 distinct values with the
 largest number of bins

---
 src/binning.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binning.rs b/src/binning.rs
index c64617d..f124c9f 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -15,7 +15,8 @@ where
     let mut v_u = v.to_owned();
     v_u.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
     v_u.dedup();
-    if v_u.len() <= pcts.len() + 1 {
+    // The bins are numbered by u16, and zero is the bin of missing values.
+    if v_u.len() <= (pcts.len() + 1).min(u16::MAX as usize) {
         v_u
     } else {
         percentiles(v, sample_weight, pcts)
-- 
2.43.0


From 668b204be72511d8971b0cb3539d6b08f48204ef Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:35:40 +0000
Subject: [PATCH 19/21] fix: keep the fitted feature names and constraints when
 a fit is rejected

fit replaced the feature names, the number of features and the constraints before the data was validated, so after a rejected fit on other columns the model refused the data it was fit on.
---
 py-forust/forust/__init__.py | 68 +++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index ac800d0..e8726a8 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -575,16 +575,6 @@ class GradientBooster:
         """
 
         features_, flat_data, rows, cols = _convert_input_frame(X)
-        self.n_features_ = cols
-        self._set_metadata_attributes("n_features_", self.n_features_)
-        if len(features_) > 0:
-            self.feature_names_in_ = features_
-            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
-        elif hasattr(self, "feature_names_in_"):
-            # These are the names of the data from an earlier fit.
-            del self.feature_names_in_
-            self._set_metadata_attributes("feature_names_in_", None)
-
         y_ = _convert_input_array(y)
 
         if sample_weight is None:
@@ -594,10 +584,7 @@ class GradientBooster:
         # Convert the monotone constraints into the form needed
         # by the rust code.
         monotone_constraints_ = self._standardize_monotonicity_map(X)
-        self.booster.monotone_constraints = monotone_constraints_
-        self.booster.terminate_missing_features = (
-            self._standardize_terminate_missing_features(X)
-        )
+        terminate_missing_features_ = self._standardize_terminate_missing_features(X)
 
         # Create evaluation data
         if evaluation_data is not None:
@@ -610,10 +597,10 @@ class GradientBooster:
                     eval_X, eval_y = eval_  # type: ignore
                     eval_w_ = np.ones(eval_X.shape[0], dtype="float64")
 
-                features_, eval_flat_data, eval_rows, eval_cols = _convert_input_frame(
-                    eval_X
+                eval_features_, eval_flat_data, eval_rows, eval_cols = (
+                    _convert_input_frame(eval_X)
                 )
-                self._validate_features(features_)
+                self._validate_features(eval_features_, features_)
                 evaluation_data_.append(
                     (
                         eval_flat_data,
@@ -630,23 +617,48 @@ class GradientBooster:
         else:
             evaluation_data_ = None
 
-        self.booster.fit(
-            flat_data=flat_data,
-            rows=rows,
-            cols=cols,
-            y=y_,
-            sample_weight=sample_weight_,
-            evaluation_data=evaluation_data_,  # type: ignore
-        )
+        # If the data is rejected, a model that was fit before is left as it was.
+        params = self.booster.get_params()
+        self.booster.monotone_constraints = monotone_constraints_
+        self.booster.terminate_missing_features = terminate_missing_features_
+        try:
+            self.booster.fit(
+                flat_data=flat_data,
+                rows=rows,
+                cols=cols,
+                y=y_,
+                sample_weight=sample_weight_,
+                evaluation_data=evaluation_data_,  # type: ignore
+            )
+        except ValueError:
+            self.booster.monotone_constraints = params["monotone_constraints"]
+            self.booster.terminate_missing_features = params[
+                "terminate_missing_features"
+            ]
+            raise
+
+        self.n_features_ = cols
+        self._set_metadata_attributes("n_features_", self.n_features_)
+        if len(features_) > 0:
+            self.feature_names_in_ = features_
+            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # These are the names of the data from an earlier fit.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", None)
 
         # Once it's been fit, reset the `base_score`
         # this will account for the fact that's it's adjusted after fit.
         self.base_score = self.booster.base_score
         return self
 
-    def _validate_features(self, features: list[str]):
-        if len(features) > 0 and hasattr(self, "feature_names_in_"):
-            if features != self.feature_names_in_:
+    def _validate_features(
+        self, features: list[str], expected: Union[list[str], None] = None
+    ):
+        if expected is None:
+            expected = getattr(self, "feature_names_in_", [])
+        if len(features) > 0 and len(expected) > 0:
+            if features != expected:
                 raise ValueError(
                     "Columns mismatch between data passed, and data used at fit."
                 )
-- 
2.43.0


From 5e4b1f32748ec1a2b5d761a68b1cf50e3293e314 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:23:21 +0000
Subject: [PATCH 20/21] fix: return a value for every percentile asked for

Because of rounding the cumulative weight can stay below one, the highest
percentiles were then left out.
---
 src/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3716cc8..1010e8d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -365,10 +365,14 @@ where
                 }
             }
         } else if current_pct == T::ONE {
-            if let Some(i_) = idx.last() {
-                p.push(v[*i_]);
-                break;
-            }
+            break;
+        }
+    }
+    // Because of rounding the cumulative weight may never reach the highest percentiles,
+    // the largest value does.
+    if !cuml_pct.is_nan() {
+        if let Some(i_) = idx.last() {
+            p.resize(percentiles.len(), v[*i_]);
         }
     }
     p
-- 
2.43.0


From 77a114963fee26bf32e3784b3c94c9d5b52adfac Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:23:21 +0000
Subject: [PATCH 21/21] fix: count the elements of a jagged matrix

n_records was the sum of the column ends, not the number of elements.
---
 src/binning.rs   | 2 +-
 src/data.rs      | 2 +-
 src/histogram.rs | 6 +-----
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/binning.rs b/src/binning.rs
index f124c9f..c84c84f 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -118,7 +118,7 @@ pub fn bin_matrix(
         };
         cuts.ends.push(e);
         cuts.cols = cuts.ends.len();
-        cuts.n_records = cuts.ends.iter().sum();
+        cuts.n_records = e;
     }
 
     let binned_data = bin_matrix_from_cuts(data, &cuts, &missing);
diff --git a/src/data.rs b/src/data.rs
index 3d1680f..fd6d4f0 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -264,7 +264,7 @@ where
             }
             e += vec.len();
             ends.push(e);
-            n_records += e;
+            n_records += vec.len();
         }
         let cols = vecs.len();
 
diff --git a/src/histogram.rs b/src/histogram.rs
index 609094f..8772792 100644
--- a/src/histogram.rs
+++ b/src/histogram.rs
@@ -197,11 +197,7 @@ impl HistogramMatrix {
                 })
                 .collect()
         };
-        let n_records = if col_index.len() == data.cols {
-            cuts.n_records
-        } else {
-            ends.iter().sum()
-        };
+        let n_records = histograms.len();
 
         HistogramMatrix(JaggedMatrix {
             data: histograms,
-- 
2.43.0

