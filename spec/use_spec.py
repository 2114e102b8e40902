"""Methods of the C++ configuration that select a component: the class that is configured, the slots it is stored
in and the values its constructor is given. Reviewed against the documentation of the mixins."""
USE = {
    'boosting::useAutomaticBinaryPredictor': ('AutomaticBinaryPredictorConfig', ['getBinaryPredictorConfig'],
        ['getClassificationLossConfig', 'getParallelPredictionConfig']),
    'boosting::useAutomaticDefaultRule': ('AutomaticDefaultRuleConfig', ['getDefaultRuleConfig'],
        ['getStatisticsConfig', 'getLossConfig', 'getHeadConfig']),
    'boosting::useAutomaticFeatureBinning': ('AutomaticFeatureBinningConfig', ['getFeatureBinningConfig'],
        []),
    'boosting::useAutomaticHeads': ('AutomaticHeadConfig', ['getHeadConfig'],
        ['getLossConfig', 'getLabelBinningConfig', 'getParallelStatisticUpdateConfig', 'getL1RegularizationConfig', 'getL2RegularizationConfig']),
    'boosting::useAutomaticLabelBinning': ('AutomaticLabelBinningConfig', ['getLabelBinningConfig'],
        ['getL1RegularizationConfig', 'getL2RegularizationConfig']),
    'boosting::useAutomaticParallelRuleRefinement': ('AutoParallelRuleRefinementConfig', ['getParallelRuleRefinementConfig'],
        ['getLossConfig', 'getHeadConfig', 'getFeatureSamplingConfig']),
    'boosting::useAutomaticParallelStatisticUpdate': ('AutoParallelStatisticUpdateConfig', ['getParallelStatisticUpdateConfig'],
        ['getLossConfig']),
    'boosting::useAutomaticPartitionSampling': ('AutomaticPartitionSamplingConfig', ['getClassificationPartitionSamplingConfig', 'getRegressionPartitionSamplingConfig'],
        ['getRNGConfig', 'getGlobalPruningConfig', 'getMarginalProbabilityCalibratorConfig', 'getJointProbabilityCalibratorConfig']),
    'boosting::useAutomaticProbabilityPredictor': ('AutomaticProbabilityPredictorConfig', ['getProbabilityPredictorConfig'],
        ['getClassificationLossConfig', 'getParallelPredictionConfig']),
    'boosting::useAutomaticStatistics': ('AutomaticStatisticsConfig', ['getClassificationStatisticsConfig', 'getRegressionStatisticsConfig'],
        ['getClassificationLossConfig', 'getRegressionLossConfig', 'getHeadConfig', 'getDefaultRuleConfig']),
    'boosting::useCompleteHeads': ('CompleteHeadConfig', ['getHeadConfig'],
        ['getLabelBinningConfig', 'getParallelStatisticUpdateConfig', 'getL1RegularizationConfig', 'getL2RegularizationConfig']),
    'boosting::useConstantShrinkagePostProcessor': ('ConstantShrinkageConfig', ['getPostProcessorConfig'],
        []),
    'boosting::useDecomposableLogisticLoss': ('DecomposableLogisticLossConfig', ['getClassificationLossConfig'],
        ['getHeadConfig']),
    'boosting::useDecomposableSquaredErrorLoss': ('DecomposableSquaredErrorLossConfig', ['getClassificationLossConfig', 'getRegressionLossConfig'],
        ['getHeadConfig']),
    'boosting::useDecomposableSquaredHingeLoss': ('DecomposableSquaredHingeLossConfig', ['getClassificationLossConfig'],
        ['getHeadConfig']),
    'boosting::useDenseStatistics': ('DenseStatisticsConfig', ['getClassificationStatisticsConfig', 'getRegressionStatisticsConfig'],
        ['getClassificationLossConfig', 'getRegressionLossConfig']),
    'boosting::useDynamicPartialHeads': ('DynamicPartialHeadConfig', ['getHeadConfig'],
        ['getLabelBinningConfig', 'getParallelStatisticUpdateConfig']),
    'boosting::useEqualWidthLabelBinning': ('EqualWidthLabelBinningConfig', ['getLabelBinningConfig'],
        ['getL1RegularizationConfig', 'getL2RegularizationConfig']),
    'boosting::useExampleWiseBinaryPredictor': ('ExampleWiseBinaryPredictorConfig', ['getBinaryPredictorConfig'],
        ['getClassificationLossConfig', 'getParallelPredictionConfig']),
    'boosting::useFixedPartialHeads': ('FixedPartialHeadConfig', ['getHeadConfig'],
        ['getLabelBinningConfig', 'getParallelStatisticUpdateConfig']),
    'boosting::useGfmBinaryPredictor': ('GfmBinaryPredictorConfig', ['getBinaryPredictorConfig'],
        ['getClassificationLossConfig', 'getParallelPredictionConfig']),
    'boosting::useIsotonicJointProbabilityCalibration': ('IsotonicJointProbabilityCalibratorConfig', ['getJointProbabilityCalibratorConfig'],
        ['getClassificationLossConfig']),
    'boosting::useIsotonicMarginalProbabilityCalibration': ('IsotonicMarginalProbabilityCalibratorConfig', ['getMarginalProbabilityCalibratorConfig'],
        ['getClassificationLossConfig']),
    'boosting::useL1Regularization': ('ManualRegularizationConfig', ['getL1RegularizationConfig'],
        []),
    'boosting::useL2Regularization': ('ManualRegularizationConfig', ['getL2RegularizationConfig'],
        []),
    'boosting::useMarginalizedProbabilityPredictor': ('MarginalizedProbabilityPredictorConfig', ['getProbabilityPredictorConfig'],
        ['getClassificationLossConfig', 'getParallelPredictionConfig']),
    'boosting::useNoDefaultRule': ('DefaultRuleConfig', ['getDefaultRuleConfig'],
        ['false']),
    'boosting::useNoL1Regularization': ('NoRegularizationConfig', ['getL1RegularizationConfig'],
        []),
    'boosting::useNoL2Regularization': ('NoRegularizationConfig', ['getL2RegularizationConfig'],
        []),
    'boosting::useNoLabelBinning': ('NoLabelBinningConfig', ['getLabelBinningConfig'],
        ['getL1RegularizationConfig', 'getL2RegularizationConfig']),
    'boosting::useNonDecomposableLogisticLoss': ('NonDecomposableLogisticLossConfig', ['getClassificationLossConfig'],
        ['getHeadConfig']),
    'boosting::useNonDecomposableSquaredErrorLoss': ('NonDecomposableSquaredErrorLossConfig', ['getClassificationLossConfig', 'getRegressionLossConfig'],
        ['getHeadConfig']),
    'boosting::useNonDecomposableSquaredHingeLoss': ('NonDecomposableSquaredHingeLossConfig', ['getClassificationLossConfig'],
        ['getHeadConfig']),
    'boosting::useOutputWiseBinaryPredictor': ('OutputWiseBinaryPredictorConfig', ['getBinaryPredictorConfig'],
        ['getClassificationLossConfig', 'getParallelPredictionConfig']),
    'boosting::useOutputWiseProbabilityPredictor': ('OutputWiseProbabilityPredictorConfig', ['getProbabilityPredictorConfig'],
        ['getClassificationLossConfig', 'getParallelPredictionConfig']),
    'boosting::useOutputWiseScorePredictor': ('OutputWiseScorePredictorConfig', ['getScorePredictorConfig'],
        ['getParallelPredictionConfig']),
    'boosting::useSingleOutputHeads': ('SingleOutputHeadConfig', ['getHeadConfig'],
        ['getLabelBinningConfig', 'getParallelStatisticUpdateConfig', 'getL1RegularizationConfig', 'getL2RegularizationConfig']),
    'boosting::useSparseStatistics': ('SparseStatisticsConfig', ['getClassificationStatisticsConfig', 'getRegressionStatisticsConfig'],
        ['getClassificationLossConfig', 'getRegressionLossConfig']),
    'seco::useAccuracyHeuristic': ('AccuracyConfig', ['getHeuristicConfig'],
        []),
    'seco::useAccuracyPruningHeuristic': ('AccuracyConfig', ['getPruningHeuristicConfig'],
        []),
    'seco::useCoverageStoppingCriterion': ('CoverageStoppingCriterionConfig', ['getCoverageStoppingCriterionConfig'],
        []),
    'seco::useFMeasureHeuristic': ('FMeasureConfig', ['getHeuristicConfig'],
        []),
    'seco::useFMeasurePruningHeuristic': ('FMeasureConfig', ['getPruningHeuristicConfig'],
        []),
    'seco::useKlnLiftFunction': ('KlnLiftFunctionConfig', ['getLiftFunctionConfig'],
        []),
    'seco::useLaplaceHeuristic': ('LaplaceConfig', ['getHeuristicConfig'],
        []),
    'seco::useLaplacePruningHeuristic': ('LaplaceConfig', ['getPruningHeuristicConfig'],
        []),
    'seco::useMEstimateHeuristic': ('MEstimateConfig', ['getHeuristicConfig'],
        []),
    'seco::useMEstimatePruningHeuristic': ('MEstimateConfig', ['getPruningHeuristicConfig'],
        []),
    'seco::useNoCoverageStoppingCriterion': ('NoStoppingCriterionConfig', ['getCoverageStoppingCriterionConfig'],
        []),
    'seco::useNoLiftFunction': ('NoLiftFunctionConfig', ['getLiftFunctionConfig'],
        []),
    'seco::useOutputWiseBinaryPredictor': ('OutputWiseBinaryPredictorConfig', ['getBinaryPredictorConfig'],
        ['getParallelPredictionConfig']),
    'seco::usePartialHeads': ('PartialHeadConfig', ['getHeadConfig'],
        ['getHeuristicConfig', 'getPruningHeuristicConfig', 'getLiftFunctionConfig']),
    'seco::usePeakLiftFunction': ('PeakLiftFunctionConfig', ['getLiftFunctionConfig'],
        []),
    'seco::usePrecisionHeuristic': ('PrecisionConfig', ['getHeuristicConfig'],
        []),
    'seco::usePrecisionPruningHeuristic': ('PrecisionConfig', ['getPruningHeuristicConfig'],
        []),
    'seco::useRecallHeuristic': ('RecallConfig', ['getHeuristicConfig'],
        []),
    'seco::useRecallPruningHeuristic': ('RecallConfig', ['getPruningHeuristicConfig'],
        []),
    'seco::useSingleOutputHeads': ('SingleOutputHeadConfig', ['getHeadConfig'],
        ['getHeuristicConfig', 'getPruningHeuristicConfig']),
    'seco::useWraHeuristic': ('WraConfig', ['getHeuristicConfig'],
        []),
    'seco::useWraPruningHeuristic': ('WraConfig', ['getPruningHeuristicConfig'],
        []),
    'useBeamSearchTopDownRuleInduction': ('BeamSearchTopDownRuleInductionConfig', ['getRuleInductionConfig'],
        ['getRuleCompareFunction', 'getRuleRefinementConfig', 'getRulePruningConfig', 'getPostProcessorConfig']),
    'useDefaultRule': ('DefaultRuleConfig', ['getDefaultRuleConfig'],
        ['true']),
    'useEqualFrequencyFeatureBinning': ('EqualFrequencyFeatureBinningConfig', ['getFeatureBinningConfig'],
        []),
    'useEqualWidthFeatureBinning': ('EqualWidthFeatureBinningConfig', ['getFeatureBinningConfig'],
        []),
    'useExampleWiseStratifiedBiPartitionSampling': ('ExampleWiseStratifiedBiPartitionSamplingConfig', ['getClassificationPartitionSamplingConfig'],
        ['getRNGConfig']),
    'useExampleWiseStratifiedInstanceSampling': ('ExampleWiseStratifiedInstanceSamplingConfig', ['getClassificationInstanceSamplingConfig'],
        ['getRNGConfig']),
    'useFeatureSamplingWithoutReplacement': ('FeatureSamplingWithoutReplacementConfig', ['getFeatureSamplingConfig'],
        ['getRNGConfig']),
    'useGlobalPostPruning': ('PostPruningConfig', ['getGlobalPruningConfig'],
        []),
    'useGlobalPrePruning': ('PrePruningConfig', ['getGlobalPruningConfig'],
        []),
    'useGreedyTopDownRuleInduction': ('GreedyTopDownRuleInductionConfig', ['getRuleInductionConfig'],
        ['getRuleCompareFunction', 'getRuleRefinementConfig', 'getRulePruningConfig', 'getPostProcessorConfig']),
    'useInstanceSamplingWithReplacement': ('InstanceSamplingWithReplacementConfig', ['getClassificationInstanceSamplingConfig', 'getRegressionInstanceSamplingConfig'],
        ['getRNGConfig']),
    'useInstanceSamplingWithoutReplacement': ('InstanceSamplingWithoutReplacementConfig', ['getClassificationInstanceSamplingConfig', 'getRegressionInstanceSamplingConfig'],
        ['getRNGConfig']),
    'useIrepRulePruning': ('IrepConfig', ['getRulePruningConfig'],
        ['getRuleCompareFunction']),
    'useNoBinaryPredictor': ('NoBinaryPredictorConfig', ['getBinaryPredictorConfig'],
        []),
    'useNoFeatureBinning': ('NoFeatureBinningConfig', ['getFeatureBinningConfig'],
        []),
    'useNoFeatureSampling': ('NoFeatureSamplingConfig', ['getFeatureSamplingConfig'],
        []),
    'useNoGlobalPruning': ('NoGlobalPruningConfig', ['getGlobalPruningConfig'],
        []),
    'useNoInstanceSampling': ('NoInstanceSamplingConfig', ['getClassificationInstanceSamplingConfig', 'getRegressionInstanceSamplingConfig'],
        []),
    'useNoJointProbabilityCalibration': ('NoJointProbabilityCalibratorConfig', ['getJointProbabilityCalibratorConfig'],
        []),
    'useNoMarginalProbabilityCalibration': ('NoMarginalProbabilityCalibratorConfig', ['getMarginalProbabilityCalibratorConfig'],
        []),
    'useNoOutputSampling': ('NoOutputSamplingConfig', ['getOutputSamplingConfig'],
        []),
    'useNoParallelPrediction': ('NoMultiThreadingConfig', ['getParallelPredictionConfig'],
        []),
    'useNoParallelRuleRefinement': ('NoMultiThreadingConfig', ['getParallelRuleRefinementConfig'],
        []),
    'useNoParallelStatisticAggregation': ('StatisticsBasedRuleRefinementConfig', ['getRuleRefinementConfig'],
        ['getParallelRuleRefinementConfig']),
    'useNoParallelStatisticUpdate': ('NoMultiThreadingConfig', ['getParallelStatisticUpdateConfig'],
        []),
    'useNoPartitionSampling': ('NoPartitionSamplingConfig', ['getClassificationPartitionSamplingConfig', 'getRegressionPartitionSamplingConfig'],
        []),
    'useNoPostProcessor': ('NoPostProcessorConfig', ['getPostProcessorConfig'],
        []),
    'useNoProbabilityPredictor': ('NoProbabilityPredictorConfig', ['getProbabilityPredictorConfig'],
        []),
    'useNoRulePruning': ('NoRulePruningConfig', ['getRulePruningConfig'],
        []),
    'useNoScorePredictor': ('NoScorePredictorConfig', ['getScorePredictorConfig'],
        []),
    'useNoSequentialPostOptimization': ('NoPostOptimizationPhaseConfig', ['getSequentialPostOptimizationConfig'],
        []),
    'useNoSizeStoppingCriterion': ('NoStoppingCriterionConfig', ['getSizeStoppingCriterionConfig'],
        []),
    'useNoTimeStoppingCriterion': ('NoStoppingCriterionConfig', ['getTimeStoppingCriterionConfig'],
        []),
    'useOutputSamplingWithoutReplacement': ('OutputSamplingWithoutReplacementConfig', ['getOutputSamplingConfig'],
        ['getRNGConfig']),
    'useOutputWiseStratifiedBiPartitionSampling': ('OutputWiseStratifiedBiPartitionSamplingConfig', ['getClassificationPartitionSamplingConfig'],
        ['getRNGConfig']),
    'useOutputWiseStratifiedInstanceSampling': ('OutputWiseStratifiedInstanceSamplingConfig', ['getClassificationInstanceSamplingConfig'],
        ['getRNGConfig']),
    'useParallelPrediction': ('ManualMultiThreadingConfig', ['getParallelPredictionConfig'],
        []),
    'useParallelRuleRefinement': ('ManualMultiThreadingConfig', ['getParallelRuleRefinementConfig'],
        []),
    'useParallelStatisticUpdate': ('ManualMultiThreadingConfig', ['getParallelStatisticUpdateConfig'],
        []),
    'useRNG': ('RNGConfig', ['getRNGConfig'],
        []),
    'useRandomBiPartitionSampling': ('RandomBiPartitionSamplingConfig', ['getClassificationPartitionSamplingConfig', 'getRegressionPartitionSamplingConfig'],
        ['getRNGConfig']),
    'useRoundRobinOutputSampling': ('RoundRobinOutputSamplingConfig', ['getOutputSamplingConfig'],
        []),
    'useSequentialPostOptimization': ('SequentialPostOptimizationConfig', ['getSequentialPostOptimizationConfig'],
        ['getRuleInductionConfig']),
    'useSequentialRuleModelAssemblage': ('SequentialRuleModelAssemblageConfig', ['getRuleModelAssemblageConfig'],
        ['getRuleInductionConfig', 'getDefaultRuleConfig']),
    'useSizeStoppingCriterion': ('SizeStoppingCriterionConfig', ['getSizeStoppingCriterionConfig'],
        []),
    'useTimeStoppingCriterion': ('TimeStoppingCriterionConfig', ['getTimeStoppingCriterionConfig'],
        []),
}

# slots that are emptied because the component does not support the respective problem
CLEARED = {
    'boosting::useDecomposableLogisticLoss': ['getRegressionLossConfig'],
    'boosting::useDecomposableSquaredHingeLoss': ['getRegressionLossConfig'],
    'boosting::useNonDecomposableLogisticLoss': ['getRegressionLossConfig'],
    'boosting::useNonDecomposableSquaredHingeLoss': ['getRegressionLossConfig'],
}
