"""Documented default values (doc/user_guide/*/parameters.md)."""
SAMPLE = {'min_samples': 1, 'max_samples': 0}
HOLDOUT = {'holdout_set_size': 0.33}
GREEDY = {'max_conditions': 0, 'min_coverage': 1, 'min_support': 0.0, 'max_head_refinements': 1,
          'recalculate_predictions': True}
BEAM = dict(GREEDY, beam_width=4, resample_features=False)
BINS = {'bin_ratio': 0.33, 'min_bins': 2, 'max_bins': 0}
PRUNING = {'use_holdout_set': True, 'remove_unused_rules': True, 'min_rules': 100}
THREADS = {'num_preferred_threads': 0}
STRATIFIED = {'stratified-output-wise': dict(SAMPLE, sample_size=0.66),
              'stratified-example-wise': dict(SAMPLE, sample_size=0.66)}

# parameter -> value -> option -> default
OPTIONS = {
    'rule_induction': {'top-down-greedy': GREEDY, 'top-down-beam-search': BEAM},
    'head_type': {'partial-fixed': {'output_ratio': 0.0, 'min_outputs': 2, 'max_outputs': 0},
                  'partial-dynamic': {'threshold': 0.02, 'exponent': 2.0}},
    'holdout': {'random': HOLDOUT, 'stratified-output-wise': HOLDOUT, 'stratified-example-wise': HOLDOUT},
    'global_pruning': {'post-pruning': dict(PRUNING, interval=1),
                       'pre-pruning': dict(PRUNING, update_interval=1, stop_interval=1, num_past=50, num_recent=50,
                                           aggregation='ARITHMETIC_MEAN', min_improvement=0.005)},
    'sequential_post_optimization': {'true': {'num_iterations': 2, 'refine_heads': False, 'resample_features': True}},
    'output_sampling': {'without-replacement': {'sample_size': 0.33, 'min_samples': 1, 'max_samples': 1}},
    'feature_sampling': {'without-replacement': {'sample_size': 0, 'min_samples': 1, 'max_samples': 0, 'num_retained': 0}},
    'instance_sampling': dict(STRATIFIED, **{'with-replacement': dict(SAMPLE, sample_size=0.66),
                                             'without-replacement': dict(SAMPLE, sample_size=0.66)}),
    'feature_binning': {'equal-width': BINS, 'equal-frequency': BINS},
    'label_binning': {'equal-width': {'bin_ratio': 0.04, 'min_bins': 1, 'max_bins': 0}},
    'marginal_probability_calibration': {'isotonic': {'use_holdout_set': True}},
    'joint_probability_calibration': {'isotonic': {'use_holdout_set': True}},
    'binary_predictor': {'output-wise': {'based_on_probabilities': False, 'use_probability_calibration': True},
                         'example-wise': {'based_on_probabilities': False, 'use_probability_calibration': True},
                         'gfm': {'use_probability_calibration': True}},
    'probability_predictor': {'output-wise': {'use_probability_calibration': True},
                              'marginalized': {'use_probability_calibration': True}},
    'parallel_rule_refinement': {'true': THREADS}, 'parallel_statistic_update': {'true': THREADS},
    'parallel_prediction': {'true': THREADS},
    'heuristic': {'f-measure': {'beta': 0.25}, 'm-estimate': {'m': 22.466}},
    'pruning_heuristic': {'f-measure': {'beta': 0.25}, 'm-estimate': {'m': 22.466}},
}
SECO = {('rule_induction', v, 'recalculate_predictions'): False for v in ('top-down-greedy', 'top-down-beam-search')}
_NUM = {'random_state': 1, 'max_rules': 1000}
_BOOSTING = dict(_NUM, shrinkage=0.3, l1_regularization_weight=1.0, l2_regularization_weight=1.0)
NUMERIC = {'BoomerClassifier': _BOOSTING, 'BoomerRegressor': _BOOSTING, 'SeCoClassifier': dict(_NUM, max_rules=500)}

_COMMON = {'rule_induction': 'useGreedyTopDownRuleInduction', 'rule_pruning': 'useNoRulePruning',
           'sequential_post_optimization': 'useNoSequentialPostOptimization', 'random_state': 'useRNG',
           'max_rules': 'useSizeStoppingCriterion', 'time_limit': 'useNoTimeStoppingCriterion',
           'output_sampling': 'useNoOutputSampling', 'feature_sampling': 'useFeatureSamplingWithoutReplacement',
           'instance_sampling': 'useNoInstanceSampling', 'parallel_prediction': 'useParallelPrediction'}
_BOOST = dict(_COMMON, shrinkage='useConstantShrinkagePostProcessor', l1_regularization_weight='useNoL1Regularization',
              l2_regularization_weight='useL2Regularization', default_rule='useAutomaticDefaultRule',
              head_type='useAutomaticHeads', holdout='useAutomaticPartitionSampling', global_pruning='useNoGlobalPruning',
              feature_binning='useAutomaticFeatureBinning', statistic_format='useAutomaticStatistics',
              parallel_rule_refinement='useAutomaticParallelRuleRefinement',
              parallel_statistic_update='useAutomaticParallelStatisticUpdate')
# parameter -> method that selects the component used by default
DEFAULTS = {
    'BoomerClassifier': dict(_BOOST, loss='useDecomposableLogisticLoss', label_binning='useAutomaticLabelBinning',
                             marginal_probability_calibration='useNoMarginalProbabilityCalibration',
                             joint_probability_calibration='useNoJointProbabilityCalibration',
                             binary_predictor='useAutomaticBinaryPredictor',
                             probability_predictor='useAutomaticProbabilityPredictor'),
    'BoomerRegressor': dict(_BOOST, loss='useDecomposableSquaredErrorLoss'),
    'SeCoClassifier': dict(_COMMON, rule_pruning='useIrepRulePruning', feature_sampling='useNoFeatureSampling',
                           instance_sampling='useOutputWiseStratifiedInstanceSampling', heuristic='useFMeasureHeuristic', pruning_heuristic='useAccuracyPruningHeuristic',
                           lift_function='usePeakLiftFunction', head_type='useSingleOutputHeads',
                           holdout='useNoPartitionSampling', feature_binning='useNoFeatureBinning',
                           parallel_rule_refinement='useParallelRuleRefinement',
                           parallel_statistic_update='useNoParallelStatisticUpdate'),
}


def option(estimator, param, value, opt):
    d = SECO if estimator.startswith('SeCo') else {}
    v = d.get((param, value, opt))
    return v if v is not None else OPTIONS.get(param, {}).get(value, {}).get(opt)
