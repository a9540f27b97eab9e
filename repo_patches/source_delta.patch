From 1ea4d819aba68918bbf45a0f45752871cc7d1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 01/31] fix: clear the deleted-node bookkeeping when a tree is
 re-initialized

Tree::Init left num_deleted_nodes / deleted_nodes_ from the previous tree in place, so
re-initializing a tree that had pruned nodes handed out stale node ids (out of range).
---
 src/tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.cpp b/src/tree.cpp
index 68ac632..6a49182 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -310,6 +310,7 @@ void Tree::Reset() {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set bool / integer variables to default values
   num_nodes = 0;
@@ -331,6 +332,7 @@ void Tree::Init(std::int32_t output_dimension) {
   parent_.clear();
 
   num_nodes = 0;
+  num_deleted_nodes = 0;
   has_categorical_split_ = false;
 
   leaf_vector_.clear();
@@ -343,6 +345,7 @@ void Tree::Init(std::int32_t output_dimension) {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set output dimension
   output_dimension_ = output_dimension;
-- 
2.43.0


From 85467dccf6fccab4180ddea4c38315f30ed13513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 02/31] fix: route missing values the same way when training
 and predicting

EvaluateTree sends NaN to the default (left) child, but the split tests used to partition
the training data sent NaN right (numeric) or cast it to an integer (categorical, undefined
behaviour), so the leaf an observation was trained in was not the leaf it is predicted from.
---
 include/stochtree/tree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index bbacd56..b2767dc 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -703,6 +703,8 @@ inline bool operator==(const Tree& lhs, const Tree& rhs) {
  *  \param right_child Node id of the right child
  */
 inline bool SplitTrueNumeric(double fvalue, double threshold) {
+  // Missing values follow the default (left) child, as in EvaluateTree
+  if (std::isnan(fvalue)) return true;
   return (fvalue <= threshold);
 }
 
@@ -714,6 +716,8 @@ inline bool SplitTrueNumeric(double fvalue, double threshold) {
  */
 inline bool SplitTrueCategorical(double fvalue, std::vector<std::uint32_t> const& category_list) {
   bool category_matched;
+  // Missing values follow the default (left) child, as in EvaluateTree
+  if (std::isnan(fvalue)) return true;
   // A valid (integer) category must satisfy two criteria:
   // 1) it must be exactly representable as double
   // 2) it must fit into uint32_t
-- 
2.43.0


From b8ee6a93a683091dcda6ebd9639322200d510d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 03/31] fix: keep the number of deleted nodes when a tree is
 read from JSON

---
 src/tree.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index 6a49182..420b99b 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -648,7 +648,6 @@ void Tree::from_json(const json& tree_json) {
   tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
   tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
   tree_json.at("output_dimension").get_to(this->output_dimension_);
-  this->num_deleted_nodes = 0;
   
   // Unpack the array based fields
   JsonToTreeNodeVectors(tree_json, this);
-- 
2.43.0


From 26a7b731cc0a0a878909639a7482df54cb51f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 04/31] fix: replace the contents of a label map when it is
 read from JSON

---
 src/random_effects.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 19108d4..e9a37a0 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,6 +31,7 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
+  Reset();
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-- 
2.43.0


From 15dbc87058d0ffac6e61d556c2276fe73985109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:06 +0000
Subject: [PATCH 05/31] fix: use the inverse-gamma posterior of the documented
 variance prior

---
 include/stochtree/variance_model.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 53140dd..857ae38 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -26,7 +26,7 @@ class GlobalHomoskedasticVarianceModel {
   ~GlobalHomoskedasticVarianceModel() {}
   double PosteriorShape(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
-    return (nu/2.0) + n;
+    return nu + n/2.0;
   }
   double PosteriorScale(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
@@ -35,7 +35,7 @@ class GlobalHomoskedasticVarianceModel {
     for (data_size_t i = 0; i < n; i++) {
       sum_sq_resid += std::pow(residuals(i, 0), 2);
     }
-    return (nu_lambda/2.0) + sum_sq_resid;
+    return nu_lambda + sum_sq_resid/2.0;
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
     double ig_shape = PosteriorShape(residuals, nu, lambda);
@@ -54,11 +54,11 @@ class LeafNodeHomoskedasticVarianceModel {
   ~LeafNodeHomoskedasticVarianceModel() {}
   double PosteriorShape(TreeEnsemble* ensemble, double a, double b) {
     data_size_t num_leaves = ensemble->NumLeaves();
-    return (a/2.0) + num_leaves;
+    return a + num_leaves/2.0;
   }
   double PosteriorScale(TreeEnsemble* ensemble, double a, double b) {
     double mu_sq = ensemble->SumLeafSquared();
-    return (b/2.0) + mu_sq;
+    return b + mu_sq/2.0;
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
     double ig_shape = PosteriorShape(ensemble, a, b);
-- 
2.43.0


From 2e761a92c8d1bbe7b34e7edb2b5341f4b42d677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:06 +0000
Subject: [PATCH 06/31] fix: halve the group count and the sum of squares in
 the random effects variance update

---
 src/random_effects.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index e9a37a0..d54a945 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -166,7 +166,7 @@ Eigen::MatrixXd MultivariateRegressionRandomEffectsModel::GroupParameterVariance
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentShape(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
-  return static_cast<double>(variance_prior_shape_ + num_groups_);
+  return variance_prior_shape_ + num_groups_/2.0;
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
@@ -174,7 +174,7 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
   Eigen::MatrixXd xi = group_parameters_;
   double output = variance_prior_scale_;
   for (int i = 0; i < num_groups; i++) {
-    output += xi(component_id, i)*xi(component_id, i);
+    output += xi(component_id, i)*xi(component_id, i)/2.0;
   }
   return output;
 }
-- 
2.43.0


From c0507f06d7ead0a592afecffe1cb3de7ef5f73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 07/31] fix: store the category id given to SetCategoryId

---
 include/stochtree/category_tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 04ee0b0..0b63751 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -64,7 +64,7 @@ class SampleCategoryMapper {
 
   inline void SetCategoryId(data_size_t sample_id, int category_id) {
     CHECK_LT(sample_id, num_observations_);
-    observation_indices_[sample_id] = sample_id;
+    observation_indices_[sample_id] = category_id;
   }
   
   inline int NumObservations() {return num_observations_;}
-- 
2.43.0


From 6ee300f387e726928673ab21746709174c2fe689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 08/31] fix: record the size of the last category when it has a
 single observation

---
 include/stochtree/category_tracker.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 0b63751..cc4d885 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -106,11 +106,11 @@ class CategorySampleTracker {
         }
         observation_count = 1;
         category_count_++;
-      } else if (end_cond) {
-        category_length_.push_back(observation_count+1);
       } else {
         observation_count++;
       }
+      // Close the last category, which may consist of this observation only
+      if (end_cond) category_length_.push_back(observation_count);
       // Add the index to the category's node index vector in either case
       node_index_vector_[category_count_ - 1].emplace_back(indices_[i]);
     }
-- 
2.43.0


From 35dbb1cd0e2f339d1b92eb1f5725adbeb358ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 09/31] fix: reject unknown group labels instead of mapping
 them to the first group

---
 include/stochtree/category_tracker.h | 10 +++++-----
 include/stochtree/random_effects.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index cc4d885..a5ad74d 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -118,21 +118,21 @@ class CategorySampleTracker {
 
   /*! \brief Zero-indexed numeric index that category_id is remapped to internally */
   inline int32_t CategoryNumber(int category_id) {
-    return category_id_map_[category_id];
+    return category_id_map_.at(category_id);
   }
 
   /*! \brief First index of data points contained in node_id */
-  inline data_size_t CategoryBegin(int category_id) {return category_begin_[category_id_map_[category_id]];}
+  inline data_size_t CategoryBegin(int category_id) {return category_begin_[category_id_map_.at(category_id)];}
 
   /*! \brief One past the last index of data points contained in node_id */
   inline data_size_t CategoryEnd(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = category_id_map_.at(category_id);
     return category_begin_[id] + category_length_[id];
   }
 
   /*! \brief Number of data points contained in node_id */
   inline data_size_t CategorySize(int category_id) {
-    return category_length_[category_id_map_[category_id]];
+    return category_length_[category_id_map_.at(category_id)];
   }
 
   /*! \brief Number of total categories stored */
@@ -143,7 +143,7 @@ class CategorySampleTracker {
 
   /*! \brief Data indices for a given node */
   std::vector<data_size_t>& NodeIndices(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = category_id_map_.at(category_id);
     // std::vector<data_size_t>::iterator start = indices_.begin() + category_begin_[id];
     // std::vector<data_size_t>::iterator end = indices_.begin() + category_begin_[id] + category_length_[id];
     // std::vector<data_size_t> output(start, end);
diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index 7d7a65c..8502626 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -76,7 +76,7 @@ class LabelMapper {
     return pos != label_map_.end();
   }
   int32_t CategoryNumber(int32_t category_id) {
-    return label_map_[category_id];
+    return label_map_.at(category_id);
   }
   std::vector<int32_t>& Keys() {return keys_;}
   std::map<int32_t, int32_t>& Map() {return label_map_;}
-- 
2.43.0


From c3fb7b491be291d7d9520465c4d7f7f55fa84397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 10/31] fix: reject a basis update with a different number of
 rows

---
 include/stochtree/data.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stochtree/data.h b/include/stochtree/data.h
index 1d16e4f..bb86024 100644
--- a/include/stochtree/data.h
+++ b/include/stochtree/data.h
@@ -75,6 +75,7 @@ class ForestDataset {
   void UpdateBasis(double* data_ptr, data_size_t num_row, int num_col, bool is_row_major) {
     CHECK(has_basis_);
     CHECK_EQ(num_col, num_basis_);
+    CHECK_EQ(num_row, basis_.NumRows());
     // Copy data from R / Python process memory to Eigen matrix
     double temp_value;
     for (data_size_t i = 0; i < num_row; ++i) {
-- 
2.43.0


From cefc71743208b0dcac85c79df1b8b40f43f74b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 11/31] fix: thinned cutpoint grid ended at a tie and could
 exceed the grid size

---
 src/cutpoint_candidates.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 4a0845c..104631c 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -286,7 +286,8 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
   bool last_element;
   bool stride_complete;
   bool bin_complete;
-  double step_size = node_size / cutpoint_grid_size_;
+  // Smallest number of observations per bin for which there are at most cutpoint_grid_size_ bins
+  data_size_t step_size = (node_size + cutpoint_grid_size_ - 1) / cutpoint_grid_size_;
   double current_val, next_val;
   for (data_size_t i = node_begin; i < node_end; i++){
     current_sort_ind = feature_node_sort_tracker->SortIndex(i, feature_index);
@@ -304,7 +305,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
     } else {
       next_sort_ind = feature_node_sort_tracker->SortIndex(i + 1, feature_index);
       next_val = covariates(next_sort_ind, feature_index);
-      bin_complete = ((stride_length <= step_size) && ((stride_length + 1) > step_size));
+      bin_complete = (stride_length >= step_size);
       stride_complete = ((bin_complete) && (std::fabs(next_val - current_val) > StochTree::kEpsilon));
       if (stride_complete) {
         // Update bin vectors
-- 
2.43.0


From 9903b817592e90cb972b739ee5f460519539a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 12/31] fix: accumulate exactly the bin's observations when
 bins are not in sort order

---
 src/leaf_model.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/leaf_model.cpp b/src/leaf_model.cpp
index c3d54cd..787e8d7 100644
--- a/src/leaf_model.cpp
+++ b/src/leaf_model.cpp
@@ -81,12 +81,11 @@ void AccumulateCutpointBinSuffStat(SuffStatType& left_suff_stat, ForestTracker&
   // Determine cutpoint bin start and end points
   data_size_t current_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num, feature_num);
   data_size_t current_bin_size = cutpoint_grid_container.BinLength(cutpoint_num, feature_num);
-  data_size_t next_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num + 1, feature_num);
 
   // Cutpoint specific iterators
   // TODO: fix the hack of having to subtract off node_begin, probably by cleaning up the CutpointGridContainer interface
   auto cutpoint_begin_iter = node_begin_iter + current_bin_begin - node_begin;
-  auto cutpoint_end_iter = node_begin_iter + next_bin_begin - node_begin;
+  auto cutpoint_end_iter = cutpoint_begin_iter + current_bin_size;
 
   // Accumulate sufficient statistics
   for (auto i = cutpoint_begin_iter; i != cutpoint_end_iter; i++) {
-- 
2.43.0


From df4956e2b43eaba17bd7cb955f0bc33a665443e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 13/31] fix: range of a feature within a node was wrong for
 negative or descending values

---
 include/stochtree/tree_sampler.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e9ef65d..4695edf 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -22,7 +22,7 @@ namespace StochTree {
 
 static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset, int tree_num, int leaf_split, int feature_split, double& var_min, double& var_max) {
   var_min = std::numeric_limits<double>::max();
-  var_max = std::numeric_limits<double>::min();
+  var_max = std::numeric_limits<double>::lowest();
   double feature_value;
   
   std::vector<data_size_t>::iterator node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
@@ -33,7 +33,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
     feature_value = dataset.CovariateValue(idx, feature_split);
     if (feature_value < var_min) {
       var_min = feature_value;
-    } else if (feature_value > var_max) {
+    }
+    if (feature_value > var_max) {
       var_max = feature_value;
     }
   }
@@ -52,9 +53,9 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::min();
+    var_max_left = std::numeric_limits<double>::lowest();
     var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::min();
+    var_max_right = std::numeric_limits<double>::lowest();
     var_min_right = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -64,13 +65,15 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
       if (split.SplitTrue(split_feature_value)) {
         if (var_max_left < feature_value) {
           var_max_left = feature_value;
-        } else if (var_min_left > feature_value) {
+        }
+        if (var_min_left > feature_value) {
           var_min_left = feature_value;
         }
       } else {
         if (var_max_right < feature_value) {
           var_max_right = feature_value;
-        } else if (var_min_right > feature_value) {
+        }
+        if (var_min_right > feature_value) {
           var_min_right = feature_value;
         }
       }
@@ -92,7 +95,7 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::min();
+    var_max = std::numeric_limits<double>::lowest();
     var_min = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -100,7 +103,8 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
       feature_value = dataset.CovariateValue(idx, j);
       if (var_max < feature_value) {
         var_max = feature_value;
-      } else if (var_min > feature_value) {
+      }
+      if (var_min > feature_value) {
         var_min = feature_value;
       }
     }
-- 
2.43.0


From 17d59624ecbcac55c243d525da523b56e9aeeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 14/31] fix: forest-wide residual update accumulated
 predictions across trees and observations

---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 4695edf..ee2b737 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -161,13 +161,14 @@ static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestData
   double new_resid = 0.;
   int32_t leaf_pred;
   for (data_size_t i = 0; i < n; i++) {
+    pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
       leaf_pred = tracker.GetNodeId(i, j);
       if (requires_basis) {
-        tree_pred += tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
+        tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-        tree_pred += tree->PredictFromNode(leaf_pred);
+        tree_pred = tree->PredictFromNode(leaf_pred);
       }
       tracker.SetTreeSamplePrediction(i, j, tree_pred);
       pred_value += tree_pred;
-- 
2.43.0


From 88c3e0a6af5887eb2c095b91dd3b3e5b5dc7e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 15/31] fix: MCMC grow moves could create leaves below the
 minimum leaf size

---
 include/stochtree/tree_sampler.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index ee2b737..c50b75d 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -356,6 +356,11 @@ class MCMCForestSampler {
     double no_split_log_marginal_likelihood = std::get<1>(split_eval);
     int32_t left_n = std::get<2>(split_eval);
     int32_t right_n = std::get<3>(split_eval);
+
+    // Reject splits that would create a leaf with fewer than the minimum number of samples
+    if (left_n < tree_prior.GetMinSamplesLeaf() || right_n < tree_prior.GetMinSamplesLeaf()) {
+      return;
+    }
     
     // Determine probability of growing the split node and its two new left and right nodes
     double pg = tree_prior.GetAlpha() * std::pow(1+leaf_depth, -tree_prior.GetBeta());
-- 
2.43.0


From 8fd37f512751d1e483a7b2023ff49b7e101e6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 16/31] fix: MCMC acceptance ratio used the wrong reverse-move
 probabilities

---
 include/stochtree/tree_sampler.h | 49 ++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index c50b75d..a188d9c 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -308,7 +308,7 @@ class MCMCForestSampler {
     if (step_chosen == 0) {
       GrowTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, variable_weights, global_variance, prob_grow);
     } else {
-      PruneTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, global_variance);
+      PruneTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, global_variance, 1.0 - prob_grow);
     }
   }
 
@@ -370,20 +370,25 @@ class MCMCForestSampler {
     // Determine whether a "grow" move is possible from the newly formed tree
     // in order to compute the probability of choosing "prune" from the new tree
     // (which is always possible by construction)
-    bool non_constant = NodesNonConstantAfterSplit(dataset, tracker, split, tree_num, leaf_chosen, var_chosen);
-    bool min_samples_left_check = left_n >= 2*tree_prior.GetMinSamplesLeaf();
-    bool min_samples_right_check = right_n >= 2*tree_prior.GetMinSamplesLeaf();
+    bool grow_possible_new = left_n > 2*tree_prior.GetMinSamplesLeaf() || right_n > 2*tree_prior.GetMinSamplesLeaf();
+    for (auto& leaf: leaves) {
+      if (leaf != leaf_chosen && tracker.UnsortedNodeSize(tree_num, leaf) > 2*tree_prior.GetMinSamplesLeaf()) {
+        grow_possible_new = true;
+      }
+    }
     double prob_prune_new;
-    if (non_constant && (min_samples_left_check || min_samples_right_check)) {
+    if (grow_possible_new) {
       prob_prune_new = 0.5;
     } else {
       prob_prune_new = 1.0;
     }
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
+    // (the parent of the chosen leaf is no longer a leaf parent if it is one in the current tree)
     int num_leaf_parents = tree->NumLeafParents();
+    bool replaces_leaf_parent = !tree->IsRoot(leaf_chosen) && tree->IsLeafParent(tree->Parent(leaf_chosen));
     double p_leaf = 1/static_cast<double>(num_leaves);
-    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents+1);
+    double p_leaf_parent = 1/static_cast<double>(replaces_leaf_parent ? num_leaf_parents : num_leaf_parents+1);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
@@ -408,7 +413,7 @@ class MCMCForestSampler {
   }
 
   void PruneTreeOneIter(Tree* tree, ForestTracker& tracker, LeafModel& leaf_model, ForestDataset& dataset, ColumnVector& residual, 
-                        TreePrior& tree_prior, std::mt19937& gen, int tree_num, double global_variance) {
+                        TreePrior& tree_prior, std::mt19937& gen, int tree_num, double global_variance, double prob_prune_old) {
     // Choose a "leaf parent" node at random
     int num_leaves = tree->NumLeaves();
     int num_leaf_parents = tree->NumLeafParents();
@@ -434,36 +439,32 @@ class MCMCForestSampler {
     double pgl = tree_prior.GetAlpha() * std::pow(1+leaf_parent_depth+1, -tree_prior.GetBeta());
     double pgr = tree_prior.GetAlpha() * std::pow(1+leaf_parent_depth+1, -tree_prior.GetBeta());
 
-    // Determine whether a "prune" move is possible from the new tree,
+    // Determine whether "grow" and "prune" moves are possible from the new tree,
     // in order to compute the probability of choosing "grow" from the new tree
-    // (which is always possible by construction)
-    bool non_root_tree = tree->NumNodes() > 1;
+    bool grow_possible_new = left_n + right_n > 2*tree_prior.GetMinSamplesLeaf();
+    for (auto& leaf: tree->GetLeaves()) {
+      if (leaf != left_node && leaf != right_node && tracker.UnsortedNodeSize(tree_num, leaf) > 2*tree_prior.GetMinSamplesLeaf()) {
+        grow_possible_new = true;
+      }
+    }
+    bool non_root_tree = num_leaves > 2;
     double prob_grow_new;
-    if (non_root_tree) {
+    if (!grow_possible_new) {
+      prob_grow_new = 0.0;
+    } else if (non_root_tree) {
       prob_grow_new = 0.5;
     } else {
       prob_grow_new = 1.0;
     }
 
-    // Determine whether a "grow" move was possible from the old tree,
-    // in order to compute the probability of choosing "prune" from the old tree
-    bool non_constant_left = NodeNonConstant(dataset, tracker, tree_num, left_node);
-    bool non_constant_right = NodeNonConstant(dataset, tracker, tree_num, right_node);
-    double prob_prune_old;
-    if (non_constant_left && non_constant_right) {
-      prob_prune_old = 0.5;
-    } else {
-      prob_prune_old = 1.0;
-    }
-
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
     double p_leaf = 1/static_cast<double>(num_leaves-1);
     double p_leaf_parent = 1/static_cast<double>(num_leaf_parents);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
-      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_prune_old) +
-      std::log(p_leaf) - std::log(prob_grow_new) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
+      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_grow_new) +
+      std::log(p_leaf) - std::log(prob_prune_old) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
     );
     // Threshold at 0
     if (log_mh_ratio > 0) {
-- 
2.43.0


From 28ff569093e99deff223203f11cd4d7a8efaa7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 17/31] fix: keep_gfr / keep_burnin without such samples raised
 a NameError

---
 stochtree/bart.py | 5 ++---
 stochtree/bcf.py  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 963c47e..ef784b0 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -242,8 +242,8 @@ class BARTModel:
         forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
 
         # Run GFR (warm start) if specified
+        gfr_indices = np.arange(self.num_gfr)
         if self.num_gfr > 0:
-            gfr_indices = np.arange(self.num_gfr)
             for i in range(self.num_gfr):
                 # Sample the forest
                 forest_sampler.sample_one_iteration(
@@ -260,9 +260,8 @@ class BARTModel:
                     current_leaf_scale[0,0] = self.leaf_scale_samples[i]
         
         # Run MCMC
+        burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
         if self.num_burnin + self.num_mcmc > 0:
-            if self.num_burnin > 0:
-                burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
             if self.num_mcmc > 0:
                 mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
             for i in range(self.num_gfr, self.num_samples):
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index bfc334d..dd16f4c 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -642,8 +642,8 @@ class BCFModel:
         forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, 0, True)
 
         # Run GFR (warm start) if specified
+        gfr_indices = np.arange(self.num_gfr)
         if self.num_gfr > 0:
-            gfr_indices = np.arange(self.num_gfr)
             for i in range(self.num_gfr):
                 # Sample the prognostic forest
                 forest_sampler_mu.sample_one_iteration(
@@ -695,9 +695,8 @@ class BCFModel:
                     self.b1_samples[i] = current_b_1
         
         # Run MCMC
+        burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
         if self.num_burnin + self.num_mcmc > 0:
-            if self.num_burnin > 0:
-                burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
             if self.num_mcmc > 0:
                 mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
             for i in range(self.num_gfr, self.num_samples):
-- 
2.43.0


From d208a2f16770241da6c498d801eb7bf41548afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 18/31] fix: calibrate sigma2 when lamb is given and when the
 covariates are collinear

---
 stochtree/bart.py | 10 ++++++++--
 stochtree/bcf.py  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index ef784b0..8370476 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -172,10 +172,16 @@ class BARTModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            if reg_soln[2] < self.n_train:
+                # NOTE: lstsq does not report residuals if the design is rank deficient (i.e. includes a full set of one-hot columns)
+                sigma2hat = np.mean((np.squeeze(resid_train) - reg_basis @ reg_soln[0])**2)
+            else:
+                # Regression is saturated
+                sigma2hat = np.var(resid_train)
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index dd16f4c..d28bb30 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -505,10 +505,16 @@ class BCFModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            if reg_soln[2] < self.n_train:
+                # NOTE: lstsq does not report residuals if the design is rank deficient (i.e. includes a full set of one-hot columns)
+                sigma2hat = np.mean((np.squeeze(resid_train) - reg_basis @ reg_soln[0])**2)
+            else:
+                # Regression is saturated
+                sigma2hat = np.var(resid_train)
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
-- 
2.43.0


From 4c04168a4f75458b4365144052b337c5564a8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 19/31] fix: initialize vector-valued leaves when BART has a
 multivariate basis

---
 stochtree/bart.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 8370476..3f2a1d5 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -244,8 +244,11 @@ class BARTModel:
 
         # Initialize the leaves of each tree in the prognostic forest
         init_root = np.squeeze(np.mean(resid_train)) / num_trees
-        self.forest_container.set_root_leaves(0, init_root)
-        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
+        if leaf_model_int == 2:
+            self.forest_container.set_root_leaves(0, np.repeat(init_root, self.num_basis))
+        else:
+            self.forest_container.set_root_leaves(0, init_root)
+        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, self.has_basis, 0, True)
 
         # Run GFR (warm start) if specified
         gfr_indices = np.arange(self.num_gfr)
-- 
2.43.0


From 8aff7186f7d8bff74c32066d17cb280b5b6d4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 20/31] fix: BARTModel.predict did not preprocess covariates as
 in training

---
 stochtree/bart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 3f2a1d5..a7b1feb 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -353,8 +353,9 @@ class BARTModel:
             if basis.shape[0] != covariates.shape[0]:
                 raise ValueError("covariates and basis must have the same number of rows")
 
+        covariates_processed = self._covariate_transformer.transform(covariates)
         pred_dataset = Dataset()
-        pred_dataset.add_covariates(covariates)
+        pred_dataset.add_covariates(covariates_processed)
         if basis is not None:
             pred_dataset.add_basis(basis)
         pred_raw = self.forest_container.forest_container_cpp.Predict(pred_dataset.dataset_cpp)
-- 
2.43.0


From 05c82ae4d19a35cf5e6d63c4b27e3cb10995eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 21/31] fix: BART leaf scale must be a matrix when the basis
 has several columns

---
 stochtree/bart.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index a7b1feb..82dc17c 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -188,7 +188,12 @@ class BARTModel:
         b_leaf = np.squeeze(np.var(resid_train)) / num_trees if b_leaf is None else b_leaf
         sigma_leaf = np.squeeze(np.var(resid_train)) / num_trees if sigma_leaf is None else sigma_leaf
         current_sigma2 = sigma2
-        current_leaf_scale = np.array([[sigma_leaf]])
+        if self.num_basis > 1:
+            current_leaf_scale = sigma_leaf if np.ndim(sigma_leaf) == 2 else np.diagflat(np.repeat(sigma_leaf, self.num_basis))
+            # Sampling sigma_leaf is not supported for multivariate bases
+            sample_sigma_leaf = False
+        else:
+            current_leaf_scale = np.array([[sigma_leaf]])
 
         # Container of variance parameter samples
         self.num_gfr = num_gfr
-- 
2.43.0


From fc892bd892f0edf3ca58927bff566ec49e8337d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 22/31] fix: BCF read propensity predictions of a model that
 was not sampled yet

---
 stochtree/bcf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index d28bb30..ff1df5e 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -488,7 +488,6 @@ class BCFModel:
         if pi_train is None and propensity_covariate != "none":
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
-- 
2.43.0


From c1a1ef705544048c00c39af82d8e0c33e995b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 23/31] fix: update the residual when adaptive coding changes
 the treatment basis

---
 stochtree/bcf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index ff1df5e..b880139 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -692,7 +692,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Residual must reflect the treatment forest's predictions under the new basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
@@ -747,7 +750,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Residual must reflect the treatment forest's predictions under the new basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
-- 
2.43.0


From 8af0d4546ce17254ae57eba0e62acb2ff8ae3701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 24/31] fix: shape of BCF outcome predictions

---
 stochtree/bcf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index b880139..3c8c1b3 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -796,7 +796,7 @@ class BCFModel:
         if self.multivariate_treatment:
             treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
         else:
-            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train)
+            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train, axis=2)
         self.y_hat_train = self.mu_hat_train + treatment_term_train
         if self.has_test:
             mu_raw_test = self.forest_container_mu.forest_container_cpp.Predict(forest_dataset_test.dataset_cpp)
@@ -810,7 +810,7 @@ class BCFModel:
             if self.multivariate_treatment:
                 treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
             else:
-                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test)
+                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test, axis=2)
             self.y_hat_test = self.mu_hat_test + treatment_term_test
     
     def predict_tau(self, X: np.array, Z: np.array, propensity: np.array = None) -> np.array:
@@ -964,7 +964,7 @@ class BCFModel:
         tau_x = tau_raw[:,self.keep_indices]
 
         # Outcome predictions
-        yhat_x = mu_x + Z*tau_x
+        yhat_x = mu_x + np.multiply(np.atleast_3d(Z).swapaxes(1,2),tau_x).sum(axis=2)
 
         # Return result matrices as a tuple
         return (tau_x, mu_x, yhat_x)
-- 
2.43.0


From 3f11572e2b84cd0fbf19914c1b8c00d037246b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 25/31] fix: BCF predictions under adaptive coding left out b_0
 tau(X)

---
 stochtree/bcf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 3c8c1b3..be3b93f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -791,6 +791,8 @@ class BCFModel:
         self.tau_hat_train = tau_raw_train[:,self.keep_indices]
         if self.adaptive_coding:
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
+            # The outcome model is mu(X) + [b_0 (1-Z) + b_1 Z] tau(X), so b_0 tau(X) is part of the prognostic function
+            self.mu_hat_train = self.mu_hat_train + (self.tau_hat_train[:,:,0]*self.b0_samples[self.keep_indices])*self.y_std
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
         if self.multivariate_treatment:
@@ -805,6 +807,8 @@ class BCFModel:
             self.tau_hat_test = tau_raw_test[:,self.keep_indices]
             if self.adaptive_coding:
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
+                # The outcome model is mu(X) + [b_0 (1-Z) + b_1 Z] tau(X), so b_0 tau(X) is part of the prognostic function
+                self.mu_hat_test = self.mu_hat_test + (self.tau_hat_test[:,:,0]*self.b0_samples[self.keep_indices])*self.y_std
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
             if self.multivariate_treatment:
@@ -959,6 +963,7 @@ class BCFModel:
         # Estimate treatment effect
         tau_raw = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_tau.dataset_cpp)
         if self.adaptive_coding:
+            mu_x = mu_x + (tau_raw[:,:,0]*self.b0_samples)[:,self.keep_indices]*self.y_std
             tau_raw = tau_raw*np.expand_dims(self.b1_samples - self.b0_samples, axis=(0,2))
         tau_raw = tau_raw*self.y_std
         tau_x = tau_raw[:,self.keep_indices]
-- 
2.43.0


From 8377246c75ecec739f109b4935f81783aab5be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 26/31] fix: predict_tau left out the propensity covariate when
 both forests use it

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index be3b93f..6082ed2 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -857,14 +857,14 @@ class BCFModel:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
         else:
-            if self.propensity_covariate == "tau":
+            if self.propensity_covariate in ["tau", "both"]:
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
                     propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
         
         # Update covariates to include propensities if requested
-        if self.propensity_covariate == "tau":
+        if self.propensity_covariate in ["tau", "both"]:
             X_tau = np.c_[X, propensity]
         else:
             X_tau = X
-- 
2.43.0


From 123215e4c7846e5ce4d1473f3f31c0030aade688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 27/31] fix: BCF predictions did not preprocess covariates as
 in training

---
 stochtree/bcf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 6082ed2..8a09863 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -850,6 +850,9 @@ class BCFModel:
             if propensity.ndim == 1:
                 propensity = np.expand_dims(propensity, 1)
         
+        # Preprocess covariates as in training
+        X = self._covariate_transformer.transform(X)
+        
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
@@ -920,6 +923,9 @@ class BCFModel:
             if propensity.ndim == 1:
                 propensity = np.expand_dims(propensity, 1)
         
+        # Preprocess covariates as in training
+        X = self._covariate_transformer.transform(X)
+        
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
-- 
2.43.0


From 1d37452a23ce5bc2496e1cca321419b366441b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 28/31] fix: variables excluded from the treatment forest kept
 their weight, and those excluded from the prognostic forest lost it in both

---
 stochtree/bcf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 8a09863..5a5bb96 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -537,10 +537,10 @@ class BCFModel:
         variable_weights = variable_weights[original_var_indices]*variable_weights_adj
 
         # Create mu and tau specific variable weights with weights zeroed out for excluded variables
-        variable_weights_tau = variable_weights
-        variable_weights_mu = variable_weights
+        variable_weights_tau = variable_weights.copy()
+        variable_weights_mu = variable_weights.copy()
         variable_weights_mu[[variable_subset_mu.count(i) == 0 for i in original_var_indices]] = 0
-        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] <- 0
+        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] = 0
         
         # Update covariates to include propensities if requested
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
-- 
2.43.0


From d098de71840b316ee1727681d8d5bcfea3b71591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 29/31] fix: keep_vars / drop_vars given as names or arrays

---
 stochtree/bcf.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 5a5bb96..2bfc3e3 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -341,7 +341,7 @@ class BCFModel:
                 if all(isinstance(i, str) for i in keep_vars_mu):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_vars_mu.count(X_train.columns.array[i]) > 0]
                 elif all(isinstance(i, int) for i in keep_vars_mu):
                     if any(i >= X_train.shape[1] for i in keep_vars_mu):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -351,10 +351,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_mu, np.ndarray):
-                if keep_vars_mu.dtype == np.str_:
+                if keep_vars_mu.dtype.kind == "U":
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if np.isin(X_train.columns.array[i], keep_vars_mu)]
                 else:
                     if np.any(keep_vars_mu >= X_train.shape[1]):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -378,18 +378,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_mu, np.ndarray):
-                if drop_vars_mu.dtype == np.str_:
+                if drop_vars_mu.dtype.kind == "U":
                     if not np.all(np.isin(drop_vars_mu, X_train.columns)):
                         raise ValueError("drop_vars_mu includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_inds[i]]
                 else:
                     if np.any(drop_vars_mu >= X_train.shape[1]):
                         raise ValueError("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_mu < 0):
                         raise ValueError("drop_vars_mu includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_inds[i]]
             else:
                 raise ValueError("drop_vars_mu must be a list or np.array")
         else:
@@ -409,10 +409,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_tau, np.ndarray):
-                if keep_vars_tau.dtype == np.str_:
+                if keep_vars_tau.dtype.kind == "U":
                     if not np.all(np.isin(keep_vars_tau, X_train.columns)):
                         raise ValueError("keep_vars_tau includes some variable names that are not in X_train")
-                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_vars_tau.count(X_train.columns.array[i]) > 0]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if np.isin(X_train.columns.array[i], keep_vars_tau)]
                 else:
                     if np.any(keep_vars_tau >= X_train.shape[1]):
                         raise ValueError("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
@@ -436,18 +436,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_tau, np.ndarray):
-                if drop_vars_tau.dtype == np.str_:
+                if drop_vars_tau.dtype.kind == "U":
                     if not np.all(np.isin(drop_vars_tau, X_train.columns)):
                         raise ValueError("drop_vars_tau includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_inds[i]]
                 else:
                     if np.any(drop_vars_tau >= X_train.shape[1]):
                         raise ValueError("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_tau < 0):
                         raise ValueError("drop_vars_tau includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_inds[i]]
             else:
                 raise ValueError("drop_vars_tau must be a list or np.array")
         else:
-- 
2.43.0


From fe9295ad06f47d548db3a8776ce0442dc6074292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 30/31] fix: integer columns of a data frame were taken for
 strings, and string columns were ignored

---
 stochtree/preprocessing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index b9c6ceb..0186b10 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -32,7 +32,10 @@ class CovariateTransformer:
     
     def _process_unordered_categorical(self, covariate: pd.Series) -> int:
         num_onehot = len(self._onehot_encoders)
-        category_list = covariate.array.categories.to_list()
+        if isinstance(covariate.dtype, pd.CategoricalDtype):
+            category_list = covariate.array.categories.to_list()
+        else:
+            category_list = sorted(covariate.unique().tolist())
         enc = OneHotEncoder(categories=[category_list], sparse_output=False)
         enc.fit(pd.DataFrame(covariate))
         self._onehot_encoders.append(enc)
@@ -62,7 +65,7 @@ class CovariateTransformer:
         categorical_types = covariates.apply(lambda x: isinstance(x.dtype, pd.CategoricalDtype))
         float_types = covariates.apply(lambda x: pd.api.types.is_float_dtype(x))
         integer_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
-        string_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
+        string_types = covariates.apply(lambda x: isinstance(x.dtype, pd.StringDtype))
         if np.any(datetime_types):
             # raise ValueError("DateTime columns are currently unsupported")
             datetime_cols = covariates.columns[datetime_types].to_list()
-- 
2.43.0


From 9e4b9f65d7f463c0f65056f5a51662fe9e232d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 31/31] fix: refitting a CovariateTransformer kept the feature
 types of the previous fit

---
 stochtree/preprocessing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 0186b10..ffd2738 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -160,6 +160,9 @@ class CovariateTransformer:
                 self._processed_feature_types.append(0)
 
     def _fit(self, covariates: Union[pd.DataFrame, np.array]) -> None:
+        self._ordinal_encoders = []
+        self._onehot_encoders = []
+        self._processed_feature_types = []
         if isinstance(covariates, pd.DataFrame):
             self._fit_pandas(covariates)
         elif isinstance(covariates, np.ndarray):
-- 
2.43.0

