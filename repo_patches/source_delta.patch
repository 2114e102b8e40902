From b0225b4c5451a337534d492dd523171d187bc690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:32 +0000
Subject: [PATCH 01/36] fix: Reject NaN in assertGreaterOrEqual and
 assertLessOrEqual

---
 .../common/include/mlrl/common/util/validation.hpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/util/validation.hpp b/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
index 0fa8349..273c7fb 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
@@ -34,7 +34,7 @@ namespace util {
      */
     template<typename T>
     static inline constexpr void assertGreaterOrEqual(const std::string& name, const T value, const T threshold) {
-        if (value < threshold) {
+        if (!(value >= threshold)) {
             throw std::invalid_argument("Invalid value given for parameter \"" + name
                                         + "\": Must be greater or equal to " + std::to_string(threshold) + ", but is "
                                         + std::to_string(value));
@@ -67,7 +67,7 @@ namespace util {
      */
     template<typename T>
     static inline constexpr void assertLessOrEqual(const std::string& name, const T value, const T threshold) {
-        if (value > threshold) {
+        if (!(value <= threshold)) {
             throw std::invalid_argument("Invalid value given for parameter \"" + name + "\": Must be less or equal to "
                                         + std::to_string(threshold) + ", but is " + std::to_string(value));
         }
-- 
2.43.0


From 50a0b4c2af485d610e04e711afce04e90c47ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 02/36] fix: Accept the documented maximum support of 1

---
 .../rule_induction/rule_induction_top_down_beam_search.cpp  | 2 +-
 .../rule_induction/rule_induction_top_down_greedy.cpp       | 2 +-
 .../common/mlrl/common/cython/rule_induction.pyx            | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index a911369..28d1625 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -475,7 +475,7 @@ float32 BeamSearchTopDownRuleInductionConfig::getMinSupport() const {
 IBeamSearchTopDownRuleInductionConfig& BeamSearchTopDownRuleInductionConfig::setMinSupport(float32 minSupport) {
     if (!isEqualToZero(minSupport)) {
         util::assertGreater<float32>("minSupport", minSupport, 0);
-        util::assertLess<float32>("minSupport", minSupport, 1);
+        util::assertLessOrEqual<float32>("minSupport", minSupport, 1);
     }
 
     minSupport_ = minSupport;
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
index d23912e..ad77fa2 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
@@ -196,7 +196,7 @@ float32 GreedyTopDownRuleInductionConfig::getMinSupport() const {
 IGreedyTopDownRuleInductionConfig& GreedyTopDownRuleInductionConfig::setMinSupport(float32 minSupport) {
     if (!isEqualToZero(minSupport)) {
         util::assertGreater<float32>("minSupport", minSupport, 0);
-        util::assertLess<float32>("minSupport", minSupport, 1);
+        util::assertLessOrEqual<float32>("minSupport", minSupport, 1);
     }
 
     minSupport_ = minSupport;
diff --git a/python/subprojects/common/mlrl/common/cython/rule_induction.pyx b/python/subprojects/common/mlrl/common/cython/rule_induction.pyx
index 9b22fc8..b9276b0 100644
--- a/python/subprojects/common/mlrl/common/cython/rule_induction.pyx
+++ b/python/subprojects/common/mlrl/common/cython/rule_induction.pyx
@@ -1,7 +1,7 @@
 """
 @author: Michael Rapp (michael.rapp.ml@gmail.com)
 """
-from mlrl.common.cython.validation import assert_greater, assert_greater_or_equal, assert_less
+from mlrl.common.cython.validation import assert_greater, assert_greater_or_equal, assert_less_or_equal
 
 
 cdef class GreedyTopDownRuleInductionConfig:
@@ -49,7 +49,7 @@ cdef class GreedyTopDownRuleInductionConfig:
         """
         if min_support != 0:
             assert_greater('min_support', min_support, 0)
-            assert_less('min_support', min_support, 1)
+            assert_less_or_equal('min_support', min_support, 1)
         self.config_ptr.setMinSupport(min_support)
         return self
 
@@ -210,7 +210,7 @@ cdef class BeamSearchTopDownRuleInductionConfig:
         """
         if min_support != 0:
             assert_greater('min_support', min_support, 0)
-            assert_less('min_support', min_support, 1)
+            assert_less_or_equal('min_support', min_support, 1)
         self.config_ptr.setMinSupport(min_support)
         return self
 
-- 
2.43.0


From c441a3f604f4bfc200d9e8ad53fd1a7f22378f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 03/36] fix: Reject a stop interval of 0 instead of dividing by
 it

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..b783eb1 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -247,6 +247,7 @@ uint32 PrePruningConfig::getStopInterval() const {
 }
 
 IPrePruningConfig& PrePruningConfig::setStopInterval(uint32 stopInterval) {
+    util::assertGreaterOrEqual<uint32>("stopInterval", stopInterval, 1);
     util::assertMultiple<uint32>("stopInterval", stopInterval, updateInterval_);
     stopInterval_ = stopInterval;
     return *this;
-- 
2.43.0


From 7b6c219362086dda77395ae73ecd4a9327ed0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 04/36] fix: Reject a sample size of 1 as documented when
 sampling with replacement

---
 .../mlrl/common/sampling/instance_sampling_with_replacement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/instance_sampling_with_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/instance_sampling_with_replacement.cpp
index 3e1e71e..a7bc8b7 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/instance_sampling_with_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/instance_sampling_with_replacement.cpp
@@ -196,7 +196,7 @@ float32 InstanceSamplingWithReplacementConfig::getSampleSize() const {
 
 IInstanceSamplingWithReplacementConfig& InstanceSamplingWithReplacementConfig::setSampleSize(float32 sampleSize) {
     util::assertGreater<float32>("sampleSize", sampleSize, 0);
-    util::assertLessOrEqual<float32>("sampleSize", sampleSize, 1);
+    util::assertLess<float32>("sampleSize", sampleSize, 1);
     sampleSize_ = sampleSize;
     return *this;
 }
-- 
2.43.0


From a3e4d7fa41bdec40a52534565b10f2a3e0af67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 05/36] fix: Do not mistake infinite parameter values for zero

---
 .../mlrl/boosting/rule_evaluation/head_type_partial_fixed.cpp   | 2 +-
 .../rule_induction/rule_induction_top_down_beam_search.cpp      | 2 +-
 .../common/rule_induction/rule_induction_top_down_greedy.cpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/head_type_partial_fixed.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/head_type_partial_fixed.cpp
index ca5f16e..005f986 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/head_type_partial_fixed.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/head_type_partial_fixed.cpp
@@ -33,7 +33,7 @@ namespace boosting {
     }
 
     IFixedPartialHeadConfig& FixedPartialHeadConfig::setOutputRatio(float32 outputRatio) {
-        if (!isEqualToZero(outputRatio)) {
+        if (outputRatio != 0) {
             util::assertGreater<float32>("outputRatio", outputRatio, 0);
             util::assertLess<float32>("outputRatio", outputRatio, 1);
         }
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index 28d1625..4e5730f 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -473,7 +473,7 @@ float32 BeamSearchTopDownRuleInductionConfig::getMinSupport() const {
 }
 
 IBeamSearchTopDownRuleInductionConfig& BeamSearchTopDownRuleInductionConfig::setMinSupport(float32 minSupport) {
-    if (!isEqualToZero(minSupport)) {
+    if (minSupport != 0) {
         util::assertGreater<float32>("minSupport", minSupport, 0);
         util::assertLessOrEqual<float32>("minSupport", minSupport, 1);
     }
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
index ad77fa2..fb2f442 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
@@ -194,7 +194,7 @@ float32 GreedyTopDownRuleInductionConfig::getMinSupport() const {
 }
 
 IGreedyTopDownRuleInductionConfig& GreedyTopDownRuleInductionConfig::setMinSupport(float32 minSupport) {
-    if (!isEqualToZero(minSupport)) {
+    if (minSupport != 0) {
         util::assertGreater<float32>("minSupport", minSupport, 0);
         util::assertLessOrEqual<float32>("minSupport", minSupport, 1);
     }
-- 
2.43.0


From 94dcf5a286f0d32751109da1c7a78abd785fc836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 06/36] fix: Initialize the option to remove unused rules when
 pre-pruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index b783eb1..014aa06 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,9 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent),
+              minImprovement_(minImprovement) {}
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From 0122f5ee1a31e4b1c64d7d327dcaf0f094e10502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 07/36] fix: Decrement the index in the postfix decrement
 operator of IndexIterator

---
 .../common/src/mlrl/common/iterator/iterator_index.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp b/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp
index 3fa31f9..60777e5 100644
--- a/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp
@@ -28,7 +28,7 @@ IndexIterator& IndexIterator::operator--() {
 }
 
 IndexIterator& IndexIterator::operator--(int n) {
-    index_++;
+    index_--;
     return *this;
 }
 
-- 
2.43.0


From 96605252ed49abb41331988f55fc404836cdd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 08/36] fix: Copy the number of NOMINAL_NEQ conditions when
 copying a ConditionList

---
 cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
index a016116..4a0af53 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
@@ -7,7 +7,7 @@ ConditionList::ConditionList(const ConditionList& conditionList)
       numConditionsPerComparator_(
         {conditionList.numConditionsPerComparator_[0], conditionList.numConditionsPerComparator_[1],
          conditionList.numConditionsPerComparator_[2], conditionList.numConditionsPerComparator_[3],
-         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[4]}) {}
+         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[5]}) {}
 
 ConditionList::const_iterator ConditionList::cbegin() const {
     return vector_.cbegin();
-- 
2.43.0


From f57d9bf71361fd9c5cee80f4c21409486ebd7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 09/36] fix: Associate output sampling values with the mixins
 for output sampling

---
 python/subprojects/common/mlrl/common/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/config.py b/python/subprojects/common/mlrl/common/config.py
index bf6edc8..b7d040e 100644
--- a/python/subprojects/common/mlrl/common/config.py
+++ b/python/subprojects/common/mlrl/common/config.py
@@ -14,9 +14,11 @@ from mlrl.common.cython.learner import BeamSearchTopDownRuleInductionMixin, Equa
     EqualWidthFeatureBinningMixin, FeatureSamplingWithoutReplacementMixin, GreedyTopDownRuleInductionMixin, \
     InstanceSamplingWithoutReplacementMixin, InstanceSamplingWithReplacementMixin, IrepRulePruningMixin, \
     NoFeatureBinningMixin, NoFeatureSamplingMixin, NoGlobalPruningMixin, NoInstanceSamplingMixin, \
+    NoOutputSamplingMixin, \
     NoParallelPredictionMixin, NoParallelRuleRefinementMixin, NoParallelStatisticUpdateMixin, \
     NoPartitionSamplingMixin, NoRulePruningMixin, NoSequentialPostOptimizationMixin, NoSizeStoppingCriterionMixin, \
-    NoTimeStoppingCriterionMixin, ParallelPredictionMixin, ParallelRuleRefinementMixin, ParallelStatisticUpdateMixin, \
+    NoTimeStoppingCriterionMixin, OutputSamplingWithoutReplacementMixin, ParallelPredictionMixin, \
+    ParallelRuleRefinementMixin, ParallelStatisticUpdateMixin, \
     PostPruningMixin, PrePruningMixin, RandomBiPartitionSamplingMixin, RNGMixin, RoundRobinOutputSamplingMixin, \
     SequentialPostOptimizationMixin, SizeStoppingCriterionMixin, TimeStoppingCriterionMixin
 from mlrl.common.cython.learner_classification import ExampleWiseStratifiedBiPartitionSamplingMixin, \
@@ -393,9 +395,9 @@ class OutputSamplingParameter(NominalParameter):
 
     def __init__(self):
         super().__init__(name='output_sampling', description='The name of the strategy to be used for output sampling')
-        self.add_value(name=NONE, mixin=NoFeatureSamplingMixin)
+        self.add_value(name=NONE, mixin=NoOutputSamplingMixin)
         self.add_value(name=SAMPLING_WITHOUT_REPLACEMENT,
-                       mixin=FeatureSamplingWithoutReplacementMixin,
+                       mixin=OutputSamplingWithoutReplacementMixin,
                        options={OPTION_SAMPLE_SIZE, OPTION_MIN_SAMPLES, OPTION_MAX_SAMPLES})
         self.add_value(name=self.OUTPUT_SAMPLING_ROUND_ROBIN, mixin=RoundRobinOutputSamplingMixin)
 
-- 
2.43.0


From a0015e4ced63c827df6cbe8174b987858cc01516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 10/36] fix: Take the parameter random_state of BoomerRegressor
 into account

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pxd       | 1 +
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx       | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
index 9c9c192..8032174 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
@@ -134,6 +134,7 @@ cdef extern from "mlrl/boosting/learner_boomer_classifier.hpp" namespace "boosti
 cdef extern from "mlrl/boosting/learner_boomer_regressor.hpp" namespace "boosting" nogil:
 
     cdef cppclass IBoomerRegressorConfig"boosting::IBoomerRegressor::IConfig"(
+        IRNGMixin,
         IAutomaticPartitionSamplingMixin,
         IAutomaticFeatureBinningMixin,
         IAutomaticParallelRuleRefinementMixin,
diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 34a701d..bbb0f71 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -576,6 +576,7 @@ cdef class BoomerClassifier(ClassificationRuleLearner):
 
 
 cdef class BoomerRegressorConfig(RuleLearnerConfig,
+                                 RNGMixin,
                                  AutomaticPartitionSamplingMixin,
                                  AutomaticFeatureBinningMixin,
                                  AutomaticParallelRuleRefinementMixin,
@@ -640,6 +641,12 @@ cdef class BoomerRegressorConfig(RuleLearnerConfig,
     def __cinit__(self):
         self.config_ptr = createBoomerRegressorConfig()
 
+    def use_rng(self) -> RNGConfig:
+        cdef IRNGConfig* config_ptr = &self.config_ptr.get().useRNG()
+        cdef RNGConfig config = RNGConfig.__new__(RNGConfig)
+        config.config_ptr = config_ptr
+        return config
+
     def use_sequential_rule_model_assemblage(self):
         self.config_ptr.get().useSequentialRuleModelAssemblage()
 
-- 
2.43.0


From 6044d1a4c9d5cb3d8d671c67dffddcf0a3c07e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 11/36] fix: Accept the documented value 'auto' of the
 parameter head_type

---
 python/subprojects/boosting/mlrl/boosting/config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/config.py b/python/subprojects/boosting/mlrl/boosting/config.py
index cc27461..873e7de 100644
--- a/python/subprojects/boosting/mlrl/boosting/config.py
+++ b/python/subprojects/boosting/mlrl/boosting/config.py
@@ -12,8 +12,9 @@ from mlrl.common.cython.learner import DefaultRuleMixin, NoJointProbabilityCalib
     NoMarginalProbabilityCalibrationMixin, NoPostProcessorMixin
 from mlrl.common.options import BooleanOption, Options
 
-from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticParallelRuleRefinementMixin, \
-    AutomaticParallelStatisticUpdateMixin, CompleteHeadMixin, ConstantShrinkageMixin, \
+from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticHeadMixin, \
+    AutomaticParallelRuleRefinementMixin, AutomaticParallelStatisticUpdateMixin, CompleteHeadMixin, \
+    ConstantShrinkageMixin, \
     DecomposableSquaredErrorLossMixin, DynamicPartialHeadMixin, FixedPartialHeadMixin, L1RegularizationMixin, \
     L2RegularizationMixin, NoL1RegularizationMixin, NoL2RegularizationMixin, NonDecomposableSquaredErrorLossMixin, \
     SingleOutputHeadMixin
@@ -328,6 +329,10 @@ class HeadTypeParameter(NominalParameter):
                        mixin=DynamicPartialHeadMixin,
                        options={self.OPTION_THRESHOLD, self.OPTION_EXPONENT})
         self.add_value(name=self.HEAD_TYPE_COMPLETE, mixin=CompleteHeadMixin)
+        self.add_value(name=AUTOMATIC,
+                       mixin=AutomaticHeadMixin,
+                       description='If set to "' + AUTOMATIC + '", the most suitable type of heads is chosen '
+                       + 'automatically based on the parameter ' + RegressionLossParameter().argument_name)
 
     def _configure(self, config, value: str, options: Optional[Options]):
         if value == self.HEAD_TYPE_SINGLE:
-- 
2.43.0


From 89dfedd89039a245ec4387b519ce0a411220659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 12/36] fix: Do not discard the extended parameters that
 support the value 'auto'

---
 python/subprojects/boosting/mlrl/boosting/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/config.py b/python/subprojects/boosting/mlrl/boosting/config.py
index 873e7de..1a809a5 100644
--- a/python/subprojects/boosting/mlrl/boosting/config.py
+++ b/python/subprojects/boosting/mlrl/boosting/config.py
@@ -484,7 +484,7 @@ class ProbabilityPredictorParameter(NominalParameter):
             config.use_automatic_probability_predictor()
 
 
-BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_CLASSIFIER_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -501,9 +501,9 @@ BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     JointProbabilityCalibrationParameter(),
     BinaryPredictorParameter(),
     ProbabilityPredictorParameter()
-}
+} | RULE_LEARNER_PARAMETERS
 
-BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_REGRESSOR_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -515,4 +515,4 @@ BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     StatisticFormatParameter(),
     RegressionLossParameter(),
     HeadTypeParameter()
-}
+} | RULE_LEARNER_PARAMETERS
-- 
2.43.0


From f2ba16d8e1fb6c838183a31388e8d55d6cd6fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:41 +0000
Subject: [PATCH 13/36] fix: Choose the binary predictor automatically if
 binary_predictor is set to 'auto'

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index bbb0f71..57651cd 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -557,7 +557,7 @@ cdef class BoomerClassifierConfig(RuleLearnerConfig,
         return config
 
     def use_automatic_binary_predictor(self):
-        self.config_ptr.get().useOutputWiseBinaryPredictor()
+        self.config_ptr.get().useAutomaticBinaryPredictor()
 
 
 cdef class BoomerClassifier(ClassificationRuleLearner):
-- 
2.43.0


From 5edae430db7cde68844d9ca69cd8d1466e759e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 14/36] fix: Do not recurse infinitely if probabilities cannot
 be predicted incrementally

---
 python/subprojects/common/mlrl/common/rule_learners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 40c55f4..8c9a031 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -516,7 +516,7 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
                 feature_matrix, model, max_rules, predictor)
 
-        return super().predict_proba_incrementally(x, **kwargs)
+        return super()._predict_proba_incrementally(x, **kwargs)
 
     @staticmethod
     def _create_binary_predictor(learner: RuleLearnerWrapper, model: RuleModel, output_space_info: OutputSpaceInfo,
-- 
2.43.0


From ea8572931cd0df182fd74517c233f63ab9374933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 15/36] fix: Allow to specify the indices of ordinal features
 or nominal features only

---
 python/subprojects/common/mlrl/common/rule_learners.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 8c9a031..3e13b52 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -275,10 +275,10 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         :param num_features:    The total number of available features
         :return:                The `FeatureInfo` that has been created
         """
-        ordinal_feature_indices = self.ordinal_feature_indices
-        nominal_feature_indices = self.nominal_feature_indices
-        num_ordinal_features = 0 if ordinal_feature_indices is None else len(ordinal_feature_indices)
-        num_nominal_features = 0 if nominal_feature_indices is None else len(nominal_feature_indices)
+        ordinal_feature_indices = [] if self.ordinal_feature_indices is None else list(self.ordinal_feature_indices)
+        nominal_feature_indices = [] if self.nominal_feature_indices is None else list(self.nominal_feature_indices)
+        num_ordinal_features = len(ordinal_feature_indices)
+        num_nominal_features = len(nominal_feature_indices)
 
         if num_ordinal_features == 0 and num_nominal_features == 0:
             return EqualFeatureInfo.create_numerical()
-- 
2.43.0


From a05216d50373b7bfd1c5e6849a9316e77660a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:46 +0000
Subject: [PATCH 16/36] fix: Validate the step size of all predictors that
 obtain predictions incrementally

---
 python/subprojects/common/mlrl/common/cython/prediction.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/cython/prediction.pyx b/python/subprojects/common/mlrl/common/cython/prediction.pyx
index b630df3..79d297f 100644
--- a/python/subprojects/common/mlrl/common/cython/prediction.pyx
+++ b/python/subprojects/common/mlrl/common/cython/prediction.pyx
@@ -128,6 +128,7 @@ cdef class IncrementalSparseBinaryPredictor:
         :return:            A `scipy.sparse.csr_array` of type `uint8`, shape `(num_examples, num_labels)` that stores
                             the predictions
         """
+        assert_greater_or_equal('step_size', step_size, 1)
         cdef BinarySparsePredictionMatrix* prediction_matrix_ptr = &self.predictor_ptr.get().applyNext(step_size)
         cdef uint32 num_rows = prediction_matrix_ptr.getNumRows()
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
@@ -221,6 +222,7 @@ cdef class IncrementalScorePredictor:
         :return:            A `numpy.ndarray` of type `float64`, shape `(num_examples, num_outputs)`, that stores the
                             updated predictions
         """
+        assert_greater_or_equal('step_size', step_size, 1)
         cdef DensePredictionMatrix[float64]* prediction_matrix_ptr = &self.predictor_ptr.get().applyNext(step_size)
         cdef uint32 num_rows = prediction_matrix_ptr.getNumRows()
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
@@ -304,6 +306,7 @@ cdef class IncrementalProbabilityPredictor:
         :return:            A `numpy.ndarray` of type `float64`, shape `(num_examples, num_labels)`, that stores the
                             updated predictions
         """
+        assert_greater_or_equal('step_size', step_size, 1)
         cdef DensePredictionMatrix[float64]* prediction_matrix_ptr = &self.predictor_ptr.get().applyNext(step_size)
         cdef uint32 num_rows = prediction_matrix_ptr.getNumRows()
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
-- 
2.43.0


From 71acceb348570721bb403a05f145eecbbe16c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:46 +0000
Subject: [PATCH 17/36] fix: Do not consider zeros explicitly stored in a
 sparse label matrix to be relevant labels

---
 python/subprojects/common/mlrl/common/rule_learners.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 3e13b52..ef50995 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -439,6 +439,10 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the labels of the training examples')
+            # All elements explicitly stored in the matrix are considered to be relevant and must be sorted by their index
+            y = y.copy()
+            y.sum_duplicates()
+            y.eliminate_zeros()
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
             return CsrLabelMatrix(y_indices, y_indptr, y.shape[0], y.shape[1])
-- 
2.43.0


From c22924594d19f4d10ab650b34a6bbb5cd54f4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:46 +0000
Subject: [PATCH 18/36] fix: Do not replace zeros explicitly stored in a sparse
 matrix with the sparse value

---
 python/subprojects/common/mlrl/common/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/arrays.py b/python/subprojects/common/mlrl/common/arrays.py
index 7b1fc9b..4fa7642 100644
--- a/python/subprojects/common/mlrl/common/arrays.py
+++ b/python/subprojects/common/mlrl/common/arrays.py
@@ -144,7 +144,8 @@ def enforce_dense(array, order: str, dtype, sparse_value=0) -> np.ndarray:
     if is_sparse(array):
         if sparse_value != 0:
             dense_array = np.full(shape=array.shape, fill_value=sparse_value, dtype=dtype, order=order)
-            dense_array[array.nonzero()] = 0
+            coo_array = array.tocoo()
+            dense_array[coo_array.row, coo_array.col] = 0
             dense_array += array
             return np.asarray(dense_array, dtype=dtype, order=order)
         return np.require(array.toarray(order=order), dtype=dtype)
-- 
2.43.0


From a1da3669d4525ecbefc522bdcd589194f020bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:19 +0000
Subject: [PATCH 19/36] fix: Sort the elements of sparse regression matrices by
 their index

---
 python/subprojects/common/mlrl/common/rule_learners.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index ef50995..ec7846e 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -613,6 +613,9 @@ class RegressionRuleLearner(RuleLearner, RegressorMixin, IncrementalRegressorMix
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the regression scores of the training examples')
+            # The elements explicitly stored in the matrix must be sorted by their index
+            y = y.copy()
+            y.sum_duplicates()
             y_data = np.ascontiguousarray(y.data, dtype=Float32)
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
-- 
2.43.0


From 1e7179228458fa29feb38f70c7dde595b04a6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:47 +0000
Subject: [PATCH 20/36] fix: correct default values in the documentation of
 parameters

---
 doc/user_guide/boosting/parameters.md |  9 ++++++---
 doc/user_guide/seco/parameters.md     | 21 +++++++++------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/doc/user_guide/boosting/parameters.md b/doc/user_guide/boosting/parameters.md
index cddac6c..00aec0d 100644
--- a/doc/user_guide/boosting/parameters.md
+++ b/doc/user_guide/boosting/parameters.md
@@ -348,7 +348,7 @@ The following parameters provide fine-grain control over the techniques that sho
 
       The number of quality scores of the most recent iterations to be stored in a buffer. The given value must be at least 1.
 
-    - `aggregation` *(Default value = `'min'`)*
+    - `aggregation` *(Default value = `'avg'`)*
 
       The name of the aggregation function that should be used to aggregate the scores in both buffers. The given value must be `'min'`, `'max'` or `'avg'`.
 
@@ -461,7 +461,7 @@ The seed to be used by random number generators. The given value must be at leas
 `'with-replacement'`
   The training examples to be considered for learning a new rule are selected randomly with replacement. The following options may be provided using the {ref}`bracket notation<bracket-notation>`:
 
-    - `sample_size` *(Default value = `1.0`)*
+    - `sample_size` *(Default value = `0.66`)*
     
       The percentage of examples to be included in a sample. For example, a value of 0.6 corresponds to 60% of the available examples. The given value must be in the range (0, 1).
 
@@ -525,12 +525,15 @@ The following parameters can be used to control various approximation and optimi
 
 ### `feature_binning`
 
-> *Default value = `'none'`.*
+> *Default value = `'auto'`.*
 
 ```{glossary}
 `'none'`
   No feature binning is used.
 
+`'auto'`
+  The most suitable strategy for feature binning is chosen automatically, depending on the characteristics of the dataset.
+
 `'equal-width'`
   Examples are assigned to bins, based on their feature values, according to the equal-width binning method. The following options may be provided using the {ref}`bracket notation<bracket-notation>`:
 
diff --git a/doc/user_guide/seco/parameters.md b/doc/user_guide/seco/parameters.md
index 9a34b33..6691bb6 100644
--- a/doc/user_guide/seco/parameters.md
+++ b/doc/user_guide/seco/parameters.md
@@ -82,7 +82,7 @@ The following parameters may be used to control the heuristic used for guiding t
 `'f-measure'`
   Uses the heuristic "F-Measure" for evaluating the quality of rules. It calculates as the (weighted) harmonic mean between the heuristics "Precision" and "Recall", where the parameter "beta" allows to trade off between both heuristics. If `beta = 1`, both heuristics are weighed equally. If `beta = 0`, this heuristic is equivalent to "Precision". As beta approaches infinity, this heuristic becomes equivalent to "Recall".
 
-    - `beta` *(Default value = `1.0`)*
+    - `beta` *(Default value = `0.25`)*
     
       The value of the parameter "beta".
 
@@ -176,7 +176,7 @@ The parameters listed below allow to configure the algorithm used for the induct
 
       The maximum number of times the head of a rule may be refined. The given value must be at least 1 or 0, if the number of refinements should not be restricted.
 
-    - `recalculate_predictions` *(Default value = `'true'`)*
+    - `recalculate_predictions` *(Default value = `'false'`)*
 
       `'true'`, if the predictions of rules should be recalculated on the entire training data if the parameter {ref}`instance_sampling<seco_parameters_instance_sampling>` is not set to the value `'none'`, `'false'`, if the predictions of rules should not be recalculated.
 
@@ -207,7 +207,7 @@ The parameters listed below allow to configure the algorithm used for the induct
     
       The maximum number of times the head of a rule may be refined. The given value must be at least 1 or 0, if the number of refinements should not be restricted.
 
-    - `recalculate_predictions` *(Default value = `'true'`)*
+    - `recalculate_predictions` *(Default value = `'false'`)*
     
       `'true'`, if the predictions of rules should be recalculated on the entire training data if the parameter {ref}`instance_sampling<seco_parameters_instance_sampling>` is not set to the value `'none'`, `'false'`, if the predictions of rules should not be recalculated.
 ```
@@ -230,7 +230,7 @@ The following parameters can be used to configure different stopping mechanisms
 
 ### `max_rules`
 
-> *Default value = `1000`.*
+> *Default value = `500`.*
 
 The maximum number of rules to be learned (including the default rule). The given value must be at least 1 or 0, if the number of rules should not be restricted.
 
@@ -244,15 +244,12 @@ The duration in seconds after which the induction of rules should be canceled. T
 
 ### `holdout`
 
-> *Default value = `'auto'`.*
+> *Default value = `'none'`.*
 
 ```{glossary}
 `'none'`
   No holdout set is created.
 
-`'auto'`
-  The most suitable strategy for creating a holdout set is chosen automatically, depending on whether a holdout set is needed according to the parameter {ref}`rule_pruning<boosting_parameters_rule_pruning>`.
-
 `'random'`
   The available examples are randomly split into a training set and a holdout set. The following options may be provided using the {ref}`bracket notation<bracket-notation>`:
 
@@ -279,7 +276,7 @@ The duration in seconds after which the induction of rules should be canceled. T
 
 ### `rule_pruning`
 
-> *Default value = `'none'`.*
+> *Default value = `'irep'`.*
 
 ```{glossary}
 `'none'`
@@ -352,7 +349,7 @@ The seed to be used by random number generators. The given value must be at leas
 
 ### `feature_sampling`
 
-> *Default value = `'without-replacement'`.*
+> *Default value = `'none'`.*
 
 ```{glossary}
 `'none'`
@@ -382,7 +379,7 @@ The seed to be used by random number generators. The given value must be at leas
 
 ### `instance_sampling`
 
-> *Default value = `'none'`.*
+> *Default value = `'stratified-output-wise'`.*
 
 ```{glossary}
 `'none'`
@@ -391,7 +388,7 @@ The seed to be used by random number generators. The given value must be at leas
 `'with-replacement'`
   The training examples to be considered for learning a new rule are selected randomly with replacement. The following options may be provided using the {ref}`bracket notation<bracket-notation>`:
 
-    - `sample_size` *(Default value = `1.0`)*
+    - `sample_size` *(Default value = `0.66`)*
     
       The percentage of examples to be included in a sample. For example, a value of 0.6 corresponds to 60% of the available examples. The given value must be in the range (0, 1).
 
-- 
2.43.0


From f4666231d44dc7450248b3ada87ddce60cb33769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:46 +0000
Subject: [PATCH 21/36] fix: use first thread index if multi-threading support
 is disabled

---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From 276edb83479a56341379230cc19cbc65a1c2ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:06 +0000
Subject: [PATCH 22/36] fix: refer to the correct variable when specifying the
 number of threads

---
 .../statistics_provider_non_decomposable_dense.cpp           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp
index 11980bf..73081ed 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp
@@ -120,7 +120,7 @@ namespace boosting {
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numRows) firstprivate(numCols) \
       firstprivate(decomposableStatisticMatrixRawPtr) firstprivate(NonDecomposableStatisticViewRawPtr) \
-      schedule(dynamic) num_threads(numThreads)
+      schedule(dynamic) num_threads(multiThreadingSettings.numThreads)
 #endif
                 for (int64 i = 0; i < numRows; i++) {
                     CContiguousView<Tuple<float64>>::value_iterator iterator =
@@ -162,7 +162,8 @@ namespace boosting {
 
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numExamples) firstprivate(lossRawPtr) firstprivate(outputMatrixPtr) \
-      firstprivate(scoreMatrixRawPtr) firstprivate(statisticMatrixRawPtr) schedule(dynamic) num_threads(numThreads)
+      firstprivate(scoreMatrixRawPtr) firstprivate(statisticMatrixRawPtr) schedule(dynamic) \
+      num_threads(multiThreadingSettings.numThreads)
 #endif
         for (int64 i = 0; i < numExamples; i++) {
             lossRawPtr->updateNonDecomposableStatistics(i, *outputMatrixPtr, *scoreMatrixRawPtr,
-- 
2.43.0


From 56571a6b6845e8a38eac8f39094057865f3a8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:00 +0000
Subject: [PATCH 23/36] fix: update the sum of uncovered weights atomically

---
 .../seco/include/mlrl/seco/data/matrix_coverage_dense.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
index 5cc83a1..35b8f03 100644
--- a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
+++ b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
@@ -8,6 +8,8 @@
 #include "mlrl/common/indices/index_vector_complete.hpp"
 #include "mlrl/common/indices/index_vector_partial.hpp"
 
+#include <atomic>
+
 namespace seco {
 
     /**
@@ -17,7 +19,7 @@ namespace seco {
     class DenseCoverageMatrix final : public DenseMatrixDecorator<AllocatedCContiguousView<uint32>> {
         private:
 
-            float64 sumOfUncoveredWeights_;
+            std::atomic<float64> sumOfUncoveredWeights_;
 
         public:
 
-- 
2.43.0


From d4a541a9a8bafa7ff876c04c30145a86cbb8877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:04 +0000
Subject: [PATCH 24/36] fix: prevent undefined number of samples if less than
 two features are available

---
 .../common/sampling/feature_sampling_without_replacement.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..dc87abd 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -151,8 +151,11 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
 
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
-    } else {
+    } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+    } else {
+        // The logarithm is undefined if less than two features are available...
+        numSamples = numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From c3927d47353051cbbb74f9f33b727ac3c9d34c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:10 +0000
Subject: [PATCH 25/36] fix: initialize number of rules in PrePruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 014aa06..8cc5a03 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -74,7 +74,8 @@ class PrePruning final : public IStoppingCriterion {
             : partition_(partition), aggregationFunctionPtr_(std::move(aggregationFunctionPtr)),
               useHoldoutSet_(useHoldoutSet), removeUnusedRules_(removeUnusedRules), updateInterval_(updateInterval),
               stopInterval_(stopInterval), minImprovement_(minImprovement), pastBuffer_(numPast),
-              recentBuffer_(numCurrent), bestScore_(std::numeric_limits<float64>::infinity()), stopped_(false) {
+              recentBuffer_(numCurrent), bestScore_(std::numeric_limits<float64>::infinity()), bestNumRules_(0),
+              stopped_(false) {
             uint32 bufferInterval = (numPast * updateInterval) + (numCurrent * updateInterval);
             offset_ = bufferInterval < minRules ? minRules - bufferInterval : 0;
         }
-- 
2.43.0


From 71eae76170c16c489e219860413d413bb846a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 26/36] fix: report errors that are encountered during training
 as Python exceptions

---
 .../rule_refinement_statistics_based.cpp      | 34 +++++++++++++++----
 .../common/cython/learner_classification.pxd  |  2 +-
 .../mlrl/common/cython/learner_regression.pxd |  2 +-
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp b/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp
index 3d168c5..3df6c74 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp
@@ -3,6 +3,8 @@
 #include "mlrl/common/rule_refinement/feature_subspace.hpp"
 #include "mlrl/common/util/openmp.hpp"
 
+#include <exception>
+
 template<typename RefinementComparator>
 struct RuleRefinementEntry final {
     public:
@@ -10,6 +12,8 @@ struct RuleRefinementEntry final {
         std::unique_ptr<RefinementComparator> comparatorPtr;
 
         std::unique_ptr<IFeatureSubspace::ICallback> callbackPtr;
+
+        std::exception_ptr exceptionPtr;
 };
 
 template<typename RefinementComparator>
@@ -50,12 +54,30 @@ static inline bool findRefinementInternally(RefinementComparator& refinementComp
     for (int64 i = 0; i < numFeatures; i++) {
         uint32 featureIndex = featureIndices.getIndex(i);
         RuleRefinementEntry<RefinementComparator>& ruleRefinementEntry = ruleRefinementEntries[i];
-        RefinementComparator& refinementComparator = *ruleRefinementEntry.comparatorPtr;
-        IFeatureSubspace::ICallback::Result callbackResult = ruleRefinementEntry.callbackPtr->invoke();
-        const IFeatureVector& featureVector = callbackResult.featureVector;
-        const IWeightedStatistics& statistics = callbackResult.statistics;
-        findRefinementInternally(refinementComparator, outputIndices, featureIndex, statistics, featureVector,
-                                 featureSubspace.getNumCovered(), minCoverage);
+
+        // Exceptions must not leave the body of a parallel loop...
+        try {
+            RefinementComparator& refinementComparator = *ruleRefinementEntry.comparatorPtr;
+            IFeatureSubspace::ICallback::Result callbackResult = ruleRefinementEntry.callbackPtr->invoke();
+            const IFeatureVector& featureVector = callbackResult.featureVector;
+            const IWeightedStatistics& statistics = callbackResult.statistics;
+            findRefinementInternally(refinementComparator, outputIndices, featureIndex, statistics, featureVector,
+                                     featureSubspace.getNumCovered(), minCoverage);
+        } catch (...) {
+            ruleRefinementEntry.exceptionPtr = std::current_exception();
+        }
+    }
+
+    // Rethrow the first exception that has been encountered when searching for the best condition, if any...
+    std::exception_ptr exceptionPtr;
+
+    for (uint32 i = 0; i < numFeatures && !exceptionPtr; i++) {
+        exceptionPtr = ruleRefinementEntries[i].exceptionPtr;
+    }
+
+    if (exceptionPtr) {
+        delete[] ruleRefinementEntries;
+        std::rethrow_exception(exceptionPtr);
     }
 
     // Pick the best refinement among the refinements that have been found for the different features...
diff --git a/python/subprojects/common/mlrl/common/cython/learner_classification.pxd b/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
index 16338c8..3db73ee 100644
--- a/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
+++ b/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
@@ -25,7 +25,7 @@ cdef extern from "mlrl/common/learner_classification.hpp" nogil:
         # Functions:
 
         unique_ptr[ITrainingResult] fit(const IFeatureInfo& featureInfo, const IColumnWiseFeatureMatrix& featureMatrix,
-                                        const IRowWiseLabelMatrix& labelMatrix) const
+                                        const IRowWiseLabelMatrix& labelMatrix) except +
 
         bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) const
 
diff --git a/python/subprojects/common/mlrl/common/cython/learner_regression.pxd b/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
index 26c822f..707916d 100644
--- a/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
+++ b/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
@@ -18,7 +18,7 @@ cdef extern from "mlrl/common/learner_regression.hpp" nogil:
         # Functions:
 
         unique_ptr[ITrainingResult] fit(const IFeatureInfo& featureInfo, const IColumnWiseFeatureMatrix& featureMatrix,
-                                        const IRowWiseRegressionMatrix& regressionMatrix) const
+                                        const IRowWiseRegressionMatrix& regressionMatrix) except +
 
         bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) const
 
-- 
2.43.0


From 3237279f7c2e10c944fd872d1586ede07b2d7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 27/36] fix: declare that the setters of the sampling
 configurations may throw exceptions

---
 .../mlrl/common/cython/instance_sampling.pxd  | 24 +++++++++----------
 .../mlrl/common/cython/output_sampling.pxd    |  6 ++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
index bc50e81..5bb6a60 100644
--- a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
@@ -9,15 +9,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_example_wise
 
         float32 getSampleSize() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize)
+        IExampleWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.hpp" nogil:
@@ -28,15 +28,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.
 
         float32 getSampleSize() const
 
-        IOutputWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize)
+        IOutputWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" nogil:
@@ -47,15 +47,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" n
 
         float32 getSampleSize() const
 
-        IInstanceSamplingWithReplacementConfig& setSampleSize(float32 sampleSize)
+        IInstanceSamplingWithReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp" nogil:
@@ -66,15 +66,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp
 
         float32 getSampleSize() const
 
-        IInstanceSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize)
+        IInstanceSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef class ExampleWiseStratifiedInstanceSamplingConfig:
diff --git a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
index 63e6ba0..83aa93b 100644
--- a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
@@ -9,15 +9,15 @@ cdef extern from "mlrl/common/sampling/output_sampling_without_replacement.hpp"
 
         float32 getSampleSize() const
 
-        IOutputSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize)
+        IOutputSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMinSamples(float32 minSamples)
+        IOutputSamplingWithoutReplacementConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMaxSamples(float32 maxSamples)
+        IOutputSamplingWithoutReplacementConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef class OutputSamplingWithoutReplacementConfig:
-- 
2.43.0


From f94bfe5908d53867593b12494974a45bfddf31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 28/36] fix: pass the minimum and maximum number of samples as
 integers

---
 .../mlrl/common/cython/instance_sampling.pxd     | 16 ++++++++--------
 .../mlrl/common/cython/output_sampling.pxd       |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
index 5bb6a60..9146d55 100644
--- a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
@@ -13,11 +13,11 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_example_wise
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.hpp" nogil:
@@ -32,11 +32,11 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" nogil:
@@ -51,11 +51,11 @@ cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" n
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp" nogil:
@@ -70,11 +70,11 @@ cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef class ExampleWiseStratifiedInstanceSamplingConfig:
diff --git a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
index 83aa93b..f115577 100644
--- a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
@@ -13,11 +13,11 @@ cdef extern from "mlrl/common/sampling/output_sampling_without_replacement.hpp"
 
         uint32 getMinSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMinSamples(float32 minSamples) except +
+        IOutputSamplingWithoutReplacementConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMaxSamples(float32 maxSamples) except +
+        IOutputSamplingWithoutReplacementConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef class OutputSamplingWithoutReplacementConfig:
-- 
2.43.0


From 676af357ec2b6951b36784d05c936c969d1e64bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 29/36] fix: store the total sums of confusion matrices for
 each label rather than for each example

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From 26acbee0f48f3e184f76552ca80f9a692a5030ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 30/36] fix: preserve examples and attributes without non-zero
 values at the end of sparse ARFF files

---
 python/subprojects/testbed/mlrl/testbed/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 1da5244..72cbdc1 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -378,10 +378,10 @@ def __load_arff(arff_file: str, feature_dtype) -> Tuple[csc_array, list, str]:
     try:
         arff_dict = __load_arff_as_dict(arff_file, sparse=True)
         data = arff_dict['data']
-        matrix_data = data[0]
-        matrix_row_indices = data[1]
-        matrix_col_indices = data[2]
-        shape = (max(matrix_row_indices) + 1, max(matrix_col_indices) + 1)
+        matrix_data = [value for row in data for value in row.values()]
+        matrix_row_indices = [i for i, row in enumerate(data) for _ in row]
+        matrix_col_indices = [j for row in data for j in row]
+        shape = (len(data), len(arff_dict['attributes']))
         matrix = coo_array((matrix_data, (matrix_row_indices, matrix_col_indices)), shape=shape, dtype=feature_dtype)
         matrix = matrix.tocsc()
     except arff.BadLayout:
@@ -404,7 +404,7 @@ def __load_arff_as_dict(arff_file: str, sparse: bool) -> dict:
     :return:            A dictionary that stores the content of the ARFF file
     """
     with open(arff_file, 'r', encoding=ENCODING_UTF8) as file:
-        sparse_format = arff.COO if sparse else arff.DENSE
+        sparse_format = arff.LOD if sparse else arff.DENSE
         return arff.load(file, encode_nominal=True, return_type=sparse_format)
 
 
-- 
2.43.0


From ee84006c4c5ffb7406a22c6a614865c685d4b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 31/36] fix: support negative numbers of outputs in the
 @relation declaration of ARFF files

---
 python/subprojects/testbed/mlrl/testbed/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 72cbdc1..21a5e79 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -437,7 +437,9 @@ def __parse_outputs_from_relation(relation: str, features: list) -> List[Output]
         parameter_value = parameter_value[:index]
 
     num_outputs = int(parameter_value)
-    return [Output(__parse_feature_or_output_name(features[i][0])) for i in range(num_outputs)]
+    # A negative number indicates that the outputs are located at the end
+    output_features = features[:num_outputs] if num_outputs >= 0 else features[num_outputs:]
+    return [Output(__parse_feature_or_output_name(feature[0])) for feature in output_features]
 
 
 def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaData:
-- 
2.43.0


From 223019ed26dd39e6e06f81637ecdfab672337631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 32/36] fix: pass keyword arguments when predicting
 probabilities in experiments

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index 914ee69..f69a379 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -52,7 +52,7 @@ class Evaluation(ABC):
         :param x:                       A `numpy.ndarray`, `scipy.sparse.spmatrix` or `scipy.sparse.sparray`, shape
                                         `(num_examples, num_features)`, that stores the feature values of the query
                                         examples
-        :param kwargs:                  Optional keyword arguments to be passed to the `predict_function`
+        :param kwargs:                  Optional keyword arguments to be passed to the invoked function
         :return:                        The return value of the invoked function
         """
         prediction_type = self.prediction_type
@@ -70,7 +70,7 @@ class Evaluation(ABC):
                 result = None
         elif prediction_type == PredictionType.PROBABILITIES:
             try:
-                result = predict_proba_function(x)
+                result = predict_proba_function(x, **kwargs)
             except RuntimeError:
                 log.error('Prediction of probabilities not supported')
                 result = None
-- 
2.43.0


From 7ccb05afc6c742366f494fffabd142c957b8b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 33/36] fix: respect the maximum model size in incremental
 evaluations

---
 .../subprojects/testbed/mlrl/testbed/experiments.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index f69a379..95bc571 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -197,14 +197,14 @@ class IncrementalEvaluation(Evaluation):
                 total_size = min(max_size, total_size)
 
             min_size = self.min_size
-            next_step_size = min_size if min_size > 0 else step_size
-            current_size = min(next_step_size, total_size)
+            previous_size = 0
+            current_size = min(min_size if min_size > 0 else step_size, total_size)
 
-            while incremental_predictor.has_next():
+            while current_size > previous_size and incremental_predictor.has_next():
                 log.info('Predicting for %s %s examples using a model of size %s...', x.shape[0], data_type.value,
                          current_size)
                 start_time = timer()
-                predictions = incremental_predictor.apply_next(next_step_size)
+                predictions = incremental_predictor.apply_next(current_size - previous_size)
                 end_time = timer()
                 predict_time = end_time - start_time
 
@@ -222,8 +222,8 @@ class IncrementalEvaluation(Evaluation):
                                                predictions=predictions,
                                                learner=learner)
 
-                next_step_size = step_size
-                current_size = min(current_size + next_step_size, total_size)
+                previous_size = current_size
+                current_size = min(current_size + step_size, total_size)
 
 
 class Experiment(DataSplitter.Callback):
-- 
2.43.0


From b63df10947d20ce41835da2d7bc0d8484e1d72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 34/36] fix: do not mix up models of different sizes when
 averaging evaluation results across folds

---
 python/subprojects/testbed/mlrl/testbed/evaluation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/evaluation.py b/python/subprojects/testbed/mlrl/testbed/evaluation.py
index 961da97..b1f8ba4 100644
--- a/python/subprojects/testbed/mlrl/testbed/evaluation.py
+++ b/python/subprojects/testbed/mlrl/testbed/evaluation.py
@@ -381,7 +381,7 @@ class EvaluationWriter(OutputWriter, ABC):
 
     def __init__(self, sinks: List[OutputWriter.Sink]):
         super().__init__(sinks)
-        self.results: Dict[str, EvaluationWriter.EvaluationResult] = {}
+        self.results: Dict[Tuple[Optional[DataType], Optional[int]], EvaluationWriter.EvaluationResult] = {}
 
     @abstractmethod
     def _populate_result(self, data_split: DataSplit, result: EvaluationResult, predictions, ground_truth):
@@ -401,8 +401,10 @@ class EvaluationWriter(OutputWriter, ABC):
                               learner, data_type: Optional[DataType], prediction_type: Optional[PredictionType],
                               prediction_scope: Optional[PredictionScope], predictions: Optional[Any],
                               train_time: float, predict_time: float) -> Optional[Any]:
-        result = self.results[data_type] if data_type in self.results else EvaluationWriter.EvaluationResult()
-        self.results[data_type] = result
+        # Results for models of different sizes must not be mixed up when averaging across several folds
+        key = (data_type, None if prediction_scope is None else prediction_scope.get_model_size())
+        result = self.results[key] if key in self.results else EvaluationWriter.EvaluationResult()
+        self.results[key] = result
         num_folds = data_split.get_num_folds()
         fold = data_split.get_fold()
         result.put(EVALUATION_MEASURE_TRAINING_TIME, train_time, num_folds=num_folds, fold=fold)
-- 
2.43.0


From 8435dc4e6fbcc9da92988f38cf516a6de3940afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:42 +0000
Subject: [PATCH 35/36] fix: concatenate dense training folds of predefined
 cross validation splits

---
 python/subprojects/testbed/mlrl/testbed/data_splitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data_splitting.py b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
index 0713025..45f6df8 100644
--- a/python/subprojects/testbed/mlrl/testbed/data_splitting.py
+++ b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
@@ -13,9 +13,13 @@ from os import path
 from timeit import default_timer as timer
 from typing import List, Optional
 
+import numpy as np
+
 from scipy.sparse import vstack
 from sklearn.model_selection import KFold, train_test_split
 
+from mlrl.common.arrays import is_sparse
+
 from mlrl.testbed.data import MetaData, load_data_set, load_data_set_and_meta_data, one_hot_encode
 from mlrl.testbed.format import format_duration
 from mlrl.testbed.io import SUFFIX_ARFF, SUFFIX_XML, get_file_name, get_file_name_per_fold
@@ -449,7 +453,7 @@ class CrossValidationSplitter(DataSplitter):
                         train_x = x
                         train_y = y
                     else:
-                        train_x = vstack((train_x, x))
+                        train_x = vstack((train_x, x)) if is_sparse(train_x) else np.vstack((train_x, x))
                         train_y = vstack((train_y, y))
 
             # Obtain test set for current fold...
-- 
2.43.0


From 4e9c31ade7ebec2e68396c26d3eef03ff3af618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:42 +0000
Subject: [PATCH 36/36] fix: do not declare real-valued predictions as nominal
 in ARFF files

---
 .../subprojects/testbed/mlrl/testbed/predictions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/predictions.py b/python/subprojects/testbed/mlrl/testbed/predictions.py
index abfbd82..4cda2a3 100644
--- a/python/subprojects/testbed/mlrl/testbed/predictions.py
+++ b/python/subprojects/testbed/mlrl/testbed/predictions.py
@@ -10,7 +10,7 @@ import numpy as np
 
 from mlrl.common.options import Options
 
-from mlrl.testbed.data import MetaData, Output, save_arff_file
+from mlrl.testbed.data import Feature, FeatureType, MetaData, Output, save_arff_file
 from mlrl.testbed.data_splitting import DataSplit, DataType
 from mlrl.testbed.format import OPTION_DECIMALS, format_array
 from mlrl.testbed.io import SUFFIX_ARFF, get_file_name_per_fold
@@ -83,11 +83,18 @@ class PredictionWriter(OutputWriter):
 
             file_name = get_file_name_per_fold(prediction_scope.get_file_name(data_type.get_file_name('predictions')),
                                                SUFFIX_ARFF, data_split.get_fold())
-            features = [Output('Ground Truth ' + output.name) for output in meta_data.outputs]
-            outputs = [Output('Prediction ' + output.name) for output in meta_data.outputs]
+            features = [self.__create_output('Ground Truth ' + output.name, ground_truth) for output in meta_data.outputs]
+            outputs = [self.__create_output('Prediction ' + output.name, predictions) for output in meta_data.outputs]
             prediction_meta_data = MetaData(features, outputs, outputs_at_start=False)
             save_arff_file(self.output_dir, file_name, ground_truth, predictions, prediction_meta_data)
 
+        @staticmethod
+        def __create_output(name: str, values) -> Feature:
+            # Scores and probabilities are real-valued, i.e., they cannot be represented by nominal values
+            if issubclass(values.dtype.type, np.integer):
+                return Output(name)
+            return Feature(name, FeatureType.NUMERICAL)
+
     # pylint: disable=unused-argument
     def _generate_output_data(self, problem_type: ProblemType, meta_data: MetaData, x, y, data_split: DataSplit,
                               learner, data_type: Optional[DataType], prediction_type: Optional[PredictionType],
-- 
2.43.0

