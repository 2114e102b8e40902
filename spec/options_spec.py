"""The documented parameters of the estimators (doc/user_guide/*/parameters.md and the docstrings of the estimators) and
the part of the public C++ interface that is in charge of each documented value and option.

value -> (method of the C++ configuration that selects the component, {option: (setter of the component, type)})
"""
SAMPLE = {'sample_size': ('setSampleSize', 'float'), 'min_samples': ('setMinSamples', 'int'),
          'max_samples': ('setMaxSamples', 'int')}
BINS = {'bin_ratio': ('setBinRatio', 'float'), 'min_bins': ('setMinBins', 'int'), 'max_bins': ('setMaxBins', 'int')}
THREADS = {'num_preferred_threads': ('setNumPreferredThreads', 'int')}
HOLDOUT = {'holdout_set_size': ('setHoldoutSetSize', 'float')}
GREEDY = {'max_conditions': ('setMaxConditions', 'int'), 'min_coverage': ('setMinCoverage', 'int'),
          'min_support': ('setMinSupport', 'float'), 'max_head_refinements': ('setMaxHeadRefinements', 'int'),
          'recalculate_predictions': ('setRecalculatePredictions', 'bool')}
BEAM = dict(GREEDY, beam_width=('setBeamWidth', 'int'), resample_features=('setResampleFeatures', 'bool'))
CALIBRATED = {'use_probability_calibration': ('setUseProbabilityCalibrationModel', 'bool')}
PROBABILISTIC = dict(CALIBRATED, based_on_probabilities=('setBasedOnProbabilities', 'bool'))
USE_HOLDOUT = {'use_holdout_set': ('setUseHoldoutSet', 'bool')}

COMMON = {
    'rule_induction': {'top-down-greedy': ('useGreedyTopDownRuleInduction', GREEDY),
                       'top-down-beam-search': ('useBeamSearchTopDownRuleInduction', BEAM)},
    'rule_pruning': {'none': ('useNoRulePruning', {}), 'irep': ('useIrepRulePruning', {})},
    'sequential_post_optimization': {
        'false': ('useNoSequentialPostOptimization', {}),
        'true': ('useSequentialPostOptimization', {'num_iterations': ('setNumIterations', 'int'),
                                                   'refine_heads': ('setRefineHeads', 'bool'),
                                                   'resample_features': ('setResampleFeatures', 'bool')})},
    'output_sampling': {'none': ('useNoOutputSampling', {}), 'round-robin': ('useRoundRobinOutputSampling', {}),
                        'without-replacement': ('useOutputSamplingWithoutReplacement', SAMPLE)},
    'feature_sampling': {'none': ('useNoFeatureSampling', {}),
                         'without-replacement': ('useFeatureSamplingWithoutReplacement',
                                                 dict(SAMPLE, num_retained=('setNumRetained', 'int')))},
    'parallel_rule_refinement': {'false': ('useNoParallelRuleRefinement', {}),
                                 'true': ('useParallelRuleRefinement', THREADS)},
    'parallel_statistic_update': {'false': ('useNoParallelStatisticUpdate', {}),
                                  'true': ('useParallelStatisticUpdate', THREADS)},
    'parallel_prediction': {'false': ('useNoParallelPrediction', {}), 'true': ('useParallelPrediction', THREADS)},
    'feature_binning': {'none': ('useNoFeatureBinning', {}), 'equal-width': ('useEqualWidthFeatureBinning', BINS),
                        'equal-frequency': ('useEqualFrequencyFeatureBinning', BINS)},
}
INSTANCE = {'none': ('useNoInstanceSampling', {}), 'with-replacement': ('useInstanceSamplingWithReplacement', SAMPLE),
            'without-replacement': ('useInstanceSamplingWithoutReplacement', SAMPLE)}
INSTANCE_STRATIFIED = {'stratified-output-wise': ('useOutputWiseStratifiedInstanceSampling', SAMPLE),
                       'stratified-example-wise': ('useExampleWiseStratifiedInstanceSampling', SAMPLE)}
PARTITION = {'none': ('useNoPartitionSampling', {}), 'random': ('useRandomBiPartitionSampling', HOLDOUT)}
PARTITION_STRATIFIED = {'stratified-output-wise': ('useOutputWiseStratifiedBiPartitionSampling', HOLDOUT),
                        'stratified-example-wise': ('useExampleWiseStratifiedBiPartitionSampling', HOLDOUT)}
SQUARED_ERROR = {'squared-error-decomposable': ('useDecomposableSquaredErrorLoss', {}),
                 'squared-error-non-decomposable': ('useNonDecomposableSquaredErrorLoss', {})}
BOOSTING = {
    'default_rule': {'auto': ('useAutomaticDefaultRule', {}), 'true': ('useDefaultRule', {}),
                     'false': ('useNoDefaultRule', {})},
    'head_type': {'auto': ('useAutomaticHeads', {}), 'single': ('useSingleOutputHeads', {}),
                  'complete': ('useCompleteHeads', {}),
                  'partial-fixed': ('useFixedPartialHeads', {'output_ratio': ('setOutputRatio', 'float'),
                                                             'min_outputs': ('setMinOutputs', 'int'),
                                                             'max_outputs': ('setMaxOutputs', 'int')}),
                  'partial-dynamic': ('useDynamicPartialHeads', {'threshold': ('setThreshold', 'float'),
                                                                 'exponent': ('setExponent', 'float')})},
    'global_pruning': {
        'none': ('useNoGlobalPruning', {}),
        'post-pruning': ('useGlobalPostPruning', dict(USE_HOLDOUT, remove_unused_rules=('setRemoveUnusedRules', 'bool'),
                                                      min_rules=('setMinRules', 'int'),
                                                      interval=('setInterval', 'int'))),
        'pre-pruning': ('useGlobalPrePruning', dict(USE_HOLDOUT, remove_unused_rules=('setRemoveUnusedRules', 'bool'),
                                                    min_rules=('setMinRules', 'int'),
                                                    update_interval=('setUpdateInterval', 'int'),
                                                    stop_interval=('setStopInterval', 'int'),
                                                    num_past=('setNumPast', 'int'),
                                                    num_recent=('setNumCurrent', 'int'),
                                                    aggregation=('setAggregationFunction', 'aggregation'),
                                                    min_improvement=('setMinImprovement', 'float')))},
    'statistic_format': {'auto': ('useAutomaticStatistics', {}), 'dense': ('useDenseStatistics', {}),
                         'sparse': ('useSparseStatistics', {})},
}
AUTO_BOOSTING = {'holdout': ('useAutomaticPartitionSampling', {}),
                 'parallel_rule_refinement': ('useAutomaticParallelRuleRefinement', {}),
                 'parallel_statistic_update': ('useAutomaticParallelStatisticUpdate', {}),
                 'feature_binning': ('useAutomaticFeatureBinning', {})}
HEURISTICS = {'accuracy': ('Accuracy', {}), 'precision': ('Precision', {}), 'recall': ('Recall', {}),
              'laplace': ('Laplace', {}), 'weighted-relative-accuracy': ('Wra', {}),
              'f-measure': ('FMeasure', {'beta': ('setBeta', 'float')}),
              'm-estimate': ('MEstimate', {'m': ('setM', 'float')})}

# parameter -> (method and setter for ordinary values, type, {special value: method})
NUMERIC_COMMON = {'random_state': ('useRNG', 'setRandomState', 'int', {}),
                  'max_rules': ('useSizeStoppingCriterion', 'setMaxRules', 'int', {0: 'useNoSizeStoppingCriterion'}),
                  'time_limit': ('useTimeStoppingCriterion', 'setTimeLimit', 'int', {0: 'useNoTimeStoppingCriterion'})}
NUMERIC_BOOSTING = dict(NUMERIC_COMMON,
                        shrinkage=('useConstantShrinkagePostProcessor', 'setShrinkage', 'float',
                                   {1.0: 'useNoPostProcessor'}),
                        l1_regularization_weight=('useL1Regularization', 'setRegularizationWeight', 'float',
                                                  {0.0: 'useNoL1Regularization'}),
                        l2_regularization_weight=('useL2Regularization', 'setRegularizationWeight', 'float',
                                                  {0.0: 'useNoL2Regularization'}))


def _boosting():
    r = dict(COMMON)
    r.update(BOOSTING)
    r['holdout'] = PARTITION
    r['instance_sampling'] = INSTANCE
    r['loss'] = SQUARED_ERROR
    for p, v in AUTO_BOOSTING.items():
        r[p] = dict(r[p], auto=v)
    return r


def _classifier():
    r = _boosting()
    r['holdout'] = dict(r['holdout'], **PARTITION_STRATIFIED)
    r['instance_sampling'] = dict(INSTANCE, **INSTANCE_STRATIFIED)
    r['loss'] = dict(SQUARED_ERROR, **{
        'logistic-decomposable': ('useDecomposableLogisticLoss', {}),
        'logistic-non-decomposable': ('useNonDecomposableLogisticLoss', {}),
        'squared-hinge-decomposable': ('useDecomposableSquaredHingeLoss', {}),
        'squared-hinge-non-decomposable': ('useNonDecomposableSquaredHingeLoss', {})})
    r['label_binning'] = {'none': ('useNoLabelBinning', {}), 'auto': ('useAutomaticLabelBinning', {}),
                          'equal-width': ('useEqualWidthLabelBinning', BINS)}
    r['marginal_probability_calibration'] = {'none': ('useNoMarginalProbabilityCalibration', {}),
                                             'isotonic': ('useIsotonicMarginalProbabilityCalibration', USE_HOLDOUT)}
    r['joint_probability_calibration'] = {'none': ('useNoJointProbabilityCalibration', {}),
                                          'isotonic': ('useIsotonicJointProbabilityCalibration', USE_HOLDOUT)}
    r['binary_predictor'] = {'auto': ('useAutomaticBinaryPredictor', {}),
                             'output-wise': ('useOutputWiseBinaryPredictor', PROBABILISTIC),
                             'example-wise': ('useExampleWiseBinaryPredictor', PROBABILISTIC),
                             'gfm': ('useGfmBinaryPredictor', CALIBRATED)}
    r['probability_predictor'] = {'auto': ('useAutomaticProbabilityPredictor', {}),
                                  'output-wise': ('useOutputWiseProbabilityPredictor', CALIBRATED),
                                  'marginalized': ('useMarginalizedProbabilityPredictor', CALIBRATED)}
    return r


def _seco():
    r = dict(COMMON)
    r['holdout'] = dict(PARTITION, **PARTITION_STRATIFIED)
    r['instance_sampling'] = dict(INSTANCE, **INSTANCE_STRATIFIED)
    r['head_type'] = {'single': ('useSingleOutputHeads', {}), 'partial': ('usePartialHeads', {})}
    r['heuristic'] = {v: ('use%sHeuristic' % n, o) for v, (n, o) in HEURISTICS.items()}
    r['pruning_heuristic'] = {v: ('use%sPruningHeuristic' % n, o) for v, (n, o) in HEURISTICS.items()}
    r['lift_function'] = {'none': ('useNoLiftFunction', {}), 'kln': ('useKlnLiftFunction', {'k': ('setK', 'float')}),
                          'peak': ('usePeakLiftFunction', {'peak_label': ('setPeakLabel', 'int'),
                                                           'max_lift': ('setMaxLift', 'float'),
                                                           'curvature': ('setCurvature', 'float')})}
    return r


ESTIMATORS = {
    'BoomerClassifier': ('mlrl.boosting.boosting_learners', _classifier(), NUMERIC_BOOSTING, 'createBoomerClassifier'),
    'BoomerRegressor': ('mlrl.boosting.boosting_learners', _boosting(), NUMERIC_BOOSTING, 'createBoomerRegressor'),
    'SeCoClassifier': ('mlrl.seco.seco_learners', _seco(), NUMERIC_COMMON, 'createSeCoClassifier'),
}
# options a configuration has in addition to the ones above although the user guide does not document them
AGGREGATIONS = {'min': 'MIN', 'max': 'MAX', 'avg': 'ARITHMETIC_MEAN'}

# Getter that yields the value set by a setter, unless it is named accordingly (setX/getX)
GETTERS = {'setBasedOnProbabilities': 'isBasedOnProbabilities',
           'setRecalculatePredictions': 'arePredictionsRecalculated', 'setRefineHeads': 'areHeadsRefined',
           'setResampleFeatures': 'areFeaturesResampled', 'setUseHoldoutSet': 'isHoldoutSetUsed',
           'setUseProbabilityCalibrationModel': 'isProbabilityCalibrationModelUsed',
           'setRemoveUnusedRules': 'isRemoveUnusedRules'}
