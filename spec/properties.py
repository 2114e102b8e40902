"""Single source of properties.jsonl and MANIFEST.json: run `python3 spec/properties.py` to regenerate both."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'cpp/subprojects/'
P = 'python/subprojects/'


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = [observe]
    return {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why, 'anchors': a}


PROPERTIES = [
    prop('C01', 'Configured values and components reach the algorithms that use them',
         'The value of each option and each component that is configured for a learner is handed on, via the configuration '
         'and the factories that are created from it, to the algorithm that uses it. No value is dropped, replaced with a '
         'constant, or confused with another value of the same type on the way; the same holds for all kinds of output '
         'matrices, loss functions, and statistics a factory is implemented for. Each configured component of a learner '
         'is created and used for training or prediction.',
         ['configurations'], 'all options and components, all combinations of loss functions, heads, statistics, etc. a '
         'factory method is implemented for',
         'The number of combinations a value may be passed through is large; tests use default values for most options, '
         'and compare the outcomes for a few configurations with those of previous versions.',
         [C + 'common/src/mlrl/common', C + 'boosting/src/mlrl/boosting', C + 'seco/src/mlrl/seco',
          C + 'common/include/mlrl/common/learner_common.hpp'],
         [('factory methods of configurations', C + '*/src/**/*.cpp: *Config::create*Factory()'),
          ('factories', C + '*/src/**/*.cpp: *Factory::create*()'),
          ('learners', C + 'common/include/mlrl/common/learner_common.hpp: RuleLearnerConfigurator')],
         'arguments of constructors and factory methods'),
    prop('C02', 'Numeric options accept exactly their documented range',
         'Every numeric option of the learners (and of the underlying configuration API) accepts every value of its '
         'documented range and stores it unchanged. Every other value, including NaN, infinities that lie outside the '
         'range, and values that contradict another configured value, is rejected with an error and leaves the '
         'configuration as it was.',
         ['inputs', 'configurations'], 'all values of all numeric options, in every state of the configuration object',
         'Tests configure a handful of typical values; boundaries, NaN and relational constraints between two options '
         'are never exercised.',
         [C + 'common/include/mlrl/common/util/validation.hpp', C + 'common/src/mlrl/common',
          C + 'boosting/src/mlrl/boosting', C + 'seco/src/mlrl/seco', P + 'common/mlrl/common/cython/validation.py'],
         [('setters of the configuration classes', C + '*/src/**/*.cpp: set*()'),
          ('range assertions', C + 'common/include/mlrl/common/util/validation.hpp'),
          ('Cython setters', P + '*/mlrl/*/cython/*.pyx')],
         'exceptions thrown by setters, values returned by getters'),
    prop('C03', 'Documented parameter values select the documented algorithm',
         'For every estimator, each documented value of each parameter, together with its documented options in '
         'brackets, configures the learner with the algorithm the documentation associates with it, and every option '
         'reaches that algorithm and no other. Parameters that are left unset do not change the default '
         'configuration, and undocumented values or options are rejected.',
         ['configurations'], 'all estimators, parameters, documented values and options',
         'Integration tests cover some values on the command line and compare outputs with snapshots; combinations of '
         'options are not enumerated, and a value that silently selects the default goes unnoticed.',
         [P + 'common/mlrl/common/config.py', P + 'boosting/mlrl/boosting', P + 'seco/mlrl/seco',
          P + 'common/mlrl/common/cython', C + 'common/include/mlrl/common/learner.hpp',
          C + 'boosting/include/mlrl/boosting/learner.hpp', C + 'seco/include/mlrl/seco/learner.hpp'],
         [('parameter classes', P + '*/mlrl/*/config.py'),
          ('learner configurations', P + '*/mlrl/*/cython/learner*.pyx'),
          ('mixins', C + '*/include/mlrl/*/learner*.hpp: use*()')],
         'calls that configure the C++ learner'),
    prop('C04', 'The iterations of parallel loops do not interfere',
         'Whenever a loop may be executed by several threads (searching for conditions, updating statistics, obtaining '
         'predictions, initialising gradients), no iteration modifies memory that another iteration reads or modifies, '
         'except for memory that belongs to the executing thread, atomic counters and reductions whose result does not '
         'depend on the order. Hence, there are no data races, and the outcome is the same for any number of threads and '
         'any assignment of iterations to threads.',
         ['schedules', 'configurations'], 'all parallel loops, all algorithms and data structures reachable from them, all '
         'schedules and numbers of threads',
         'Tests use small data sets for which races hardly ever manifest, and cannot enumerate schedules.',
         [C + 'common/src/mlrl/common/rule_refinement', C + 'common/include/mlrl/common/prediction/predictor_common.hpp',
          C + 'boosting/src/mlrl/boosting/statistics', C + 'seco/src/mlrl/seco'],
         [('parallel search for refinements', C + 'common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp'),
          ('parallel update of statistics', C + 'common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp'),
          ('parallel prediction', C + 'common/include/mlrl/common/prediction/predictor_common.hpp')],
         'models and predictions'),
    prop('C05', 'Training and predicting are reproducible',
         'The model that is learned and the predictions that are obtained from it are determined by the given data, the '
         'parameters and the random state. They do not depend on the time (unless a time limit is configured), the '
         'environment, addresses or the content of uninitialised memory, the number of models that have been trained in '
         'the same process before, or the order in which Python iterates sets. All random choices, including splits of the '
         'data, are derived from the configured random state.',
         ['histories', 'configurations'], 'all configurations, all data sets, all histories of a process',
         'Tests train each model once, in a process of its own, and with memory that usually happens to be zeroed.',
         [C + 'common/src/mlrl/common/random/rng.cpp', C + 'common/src/mlrl/common', C + 'boosting/src/mlrl/boosting',
          C + 'seco/src/mlrl/seco', P + 'common/mlrl/common', P + 'testbed/mlrl/testbed'],
         [('random number generators', C + 'common/src/mlrl/common/random/rng.cpp: RNG, RNGFactory, RNGConfig'),
          ('initialisation of fields, local variables and buffers', C + '*: all functions'),
          ('splitting of data sets', P + 'testbed/mlrl/testbed/data_splitting.py')],
         'models and predictions of two runs with the same inputs'),
    prop('C06', 'A saved and restored model is the same model',
         'Serialising any fitted model and restoring it yields a model with the same rules in the same order: the same '
         'conditions of each type with identical thresholds and feature indices, the same complete or partial heads with '
         'identical scores, the same default rule, precedence and number of used rules. The same holds for the known '
         'label vectors with their frequencies and for the bins of the probability calibration models; no value is lost, '
         'swapped or rounded.',
         ['inputs', 'histories'], 'all models: any combination of condition types, head types, default rule, number of '
         'used rules; all label vector sets and calibration models',
         'Tests save and load a few models whose rules use a few types of conditions; most combinations of condition '
         'types, the number of used rules and non-trivial calibration models are never round-tripped.',
         [P + 'common/mlrl/common/cython/rule_model.pyx', P + 'common/mlrl/common/cython/output_space_info.pyx',
          P + 'common/mlrl/common/cython/probability_calibration.pyx', C + 'common/src/mlrl/common/model',
          C + 'common/src/mlrl/common/prediction'],
         [('__reduce__ / __setstate__', P + 'common/mlrl/common/cython/*.pyx'),
          ('RuleList', C + 'common/src/mlrl/common/model/rule_list.cpp'),
          ('ConjunctiveBody', C + 'common/src/mlrl/common/model/body_conjunctive.cpp')],
         'pickle of a fitted estimator'),
    prop('C19', 'Predictions come from the fitted model, by the requested predictor',
         'Each method for prediction (labels, sparse labels, scores, probabilities, and their incremental variants) '
         'returns exactly the matrix that a predictor of the requested kind obtains for the query examples and the '
         'components that resulted from fitting: the model, the output space information, the marginal and the joint '
         'calibration model, and the number of outputs. This holds for every learner, input format and configuration. '
         'A kind of prediction that is not supported by the learner results in an error. Incremental predictors use '
         'the same predictor, and consider exactly as many rules as requested, up to the available ones; has_next and '
         'get_num_next agree with the number of remaining rules.',
         ['inputs', 'configurations', 'histories'], 'all estimators, kinds of predictions, input formats, and sequences '
         'of calls of an incremental predictor',
         'Tests compare outputs of some configurations with snapshots; combinations of formats, kinds of predictions, '
         'and incremental steps are sampled only.',
         [P + 'common/mlrl/common/rule_learners.py', P + 'common/mlrl/common/mixins.py', P + 'common/mlrl/common/cython/learner.pyx',
          P + 'common/mlrl/common/cython/learner_classification.pyx',
          P + 'common/mlrl/common/cython/prediction.pyx', P + 'boosting/mlrl/boosting', P + 'seco/mlrl/seco'],
         [('RuleLearner', P + 'common/mlrl/common/rule_learners.py'),
          ('predictors', P + 'common/mlrl/common/cython/prediction.pyx'),
          ('creation of predictors', P + 'common/mlrl/common/cython/learner*.pyx')],
         'predict, predict_proba, predict_incrementally, predict_proba_incrementally'),
    prop('C22', 'The algorithm is given the specified features, labels and feature types',
         'Whatever format a matrix is given in (dense, or any sparse format with sorted or unsorted indices, explicitly '
         'stored zeros, and any value for sparse elements), and whatever formats are configured, the algorithm is given '
         'a matrix of the same dimensions with the same feature values, labels or scores, in training as well as for '
         'predictions. The features that have been specified to be ordinal or nominal are treated as such, all others '
         'as numerical.',
         ['inputs', 'configurations'], 'all matrices in all formats, with all values of the parameters for formats',
         'Tests use a few data sets in canonical formats; explicitly stored zeros, unsorted indices, and combinations of '
         'formats and sparse values are never exercised.',
         [P + 'common/mlrl/common/rule_learners.py', P + 'common/mlrl/common/arrays.py', P + 'common/mlrl/common/cython/feature_matrix.pyx',
          P + 'common/mlrl/common/cython/label_matrix.pyx', P + 'common/mlrl/common/cython/regression_matrix.pyx',
          P + 'common/mlrl/common/cython/feature_info.pyx'],
         [('conversion of matrices', P + 'common/mlrl/common/arrays.py, rule_learners.py'),
          ('creation of C++ views', P + 'common/mlrl/common/cython/*_matrix.pyx'),
          ('feature types', P + 'common/mlrl/common/cython/feature_info.pyx')],
         'values seen by the C++ views given to fit and to the predictors'),
    prop('C07', 'Candidate conditions are assessed on exactly the examples they cover',
         'When searching for the condition to be added to a rule, each candidate that is considered for a numerical, ordinal, '
         'nominal or binary feature is assessed based on the scores that result from exactly those examples with non-zero '
         'weights and non-missing values that satisfy it. The number of covered examples that is stored with a candidate, and '
         'compared to the minimum coverage, is the number of these examples, the range of the feature vector that is stored '
         'consists of them, and the comparator and threshold are satisfied by them and by no others. All distinct values of a '
         'feature are considered, regardless of which examples have zero weights, whether values are sparse or dense, and '
         'where the value of sparse elements, or the most frequent one, is located among the others.',
         ['inputs'], 'all feature vectors, weights of examples, and minimum coverages',
         'Tests only see which of many candidates is selected on a few data sets; wrong scores of a single candidate, e.g. '
         'if some group of examples has zero weights, rarely change it.',
         [C + 'common/src/mlrl/common/input/feature_based_search_numerical.hpp',
          C + 'common/src/mlrl/common/input/feature_based_search_ordinal.hpp',
          C + 'common/src/mlrl/common/input/feature_based_search_nominal.hpp',
          C + 'common/src/mlrl/common/input/feature_based_search_binary.hpp',
          C + 'common/src/mlrl/common/input/feature_based_search_binned.hpp',
          C + 'common/src/mlrl/common/input/feature_based_search_binned_common.hpp'],
         [('search for conditions', 'feature_based_search_*.hpp: searchFor*RefinementInternally'),
          ('examples of a bin', 'feature_based_search_binned_common.hpp: addAllToSubset')],
         'candidates that are passed to the comparator'),
    prop('C08', 'Rules are applied as they are written',
         'For every example, given in a dense or sparse matrix, a rule of a model applies if and only if the example satisfies '
         'all conditions of its body. A numerical or ordinal condition `<=` is satisfied exactly if the corresponding `>` '
         'is not (also for missing values), and `==` exactly if `!=` is not; features for which a sparse matrix does not '
         'contain an explicit value have the value of sparse elements. Regression scores and the scores of boosted models '
         'are the sums of the scores in the heads of all used rules that apply, and the prediction of a rule list for a '
         'label is the one of the first used rule that applies and has a head for this label. The conditions and heads '
         'that are exported via visitors are the ones that are used for prediction.',
         ['inputs'], 'all models and all examples, including missing and sparse values',
         'Tests compare the output of a few models on a few data sets; conditions of many kinds never occur in them.',
         [C + 'common/src/mlrl/common/model', C + 'boosting/include/mlrl/boosting/prediction',
          C + 'boosting/src/mlrl/boosting/prediction', C + 'seco/src/mlrl/seco/prediction'],
         [('evaluation of conditions', C + 'common/src/mlrl/common/model/body_conjunctive.cpp: ConjunctiveBody::covers'),
          ('aggregation of scores', C + 'boosting/include/mlrl/boosting/prediction/predictor_score_common.hpp'),
          ('rule lists', C + 'seco/src/mlrl/seco/prediction/predictor_binary_output_wise.cpp')],
         'scores and labels that are predicted for an example, and the exported rules'),
    prop('C11', 'Data and parameters given by the user are never modified',
         'Neither fitting an estimator nor any method for prediction modifies the matrices given by the user, in whatever '
         'format, memory layout and type they are, nor lists of feature indices. The constructor stores all '
         'hyper-parameters unchanged, and no method changes them afterwards.',
         ['inputs', 'configurations'], 'all matrices in all formats, types and layouts, all configured formats',
         'Whether memory is shared with the matrix of the user depends on its type, layout and format. Tests load a new '
         'data set each time, and never look at their inputs afterwards.',
         [P + 'common/mlrl/common/rule_learners.py', P + 'common/mlrl/common/arrays.py', P + 'common/mlrl/common/mixins.py',
          P + 'common/mlrl/common/cython', P + 'boosting/mlrl/boosting/boosting_learners.py',
          P + 'seco/mlrl/seco/seco_learners.py', C + 'common/src/mlrl/common/input'],
         [('conversion of matrices', P + 'common/mlrl/common/arrays.py, rule_learners.py'),
          ('views of user memory', C + 'common/include/mlrl/common/input/*_matrix_*.hpp'),
          ('constructors', P + '*/mlrl/*/*_learners.py: __init__')],
         'inputs and get_params() after fit, predict, predict_proba, and their incremental variants'),
    prop('C23', 'Fitting and predicting do not depend on what happened before',
         'Fitting an estimator gives the same result, no matter whether and how it has been fitted or used for prediction '
         'before. Predictions of a fitted estimator are the same, no matter which predictions it has been used for '
         'before. No state is shared between estimators.',
         ['histories'], 'all sequences of calls of the methods of one or several estimators',
         'Tests fit each estimator once. State that leaks from one call to another becomes visible for particular '
         'sequences of calls only.',
         [P + 'common/mlrl/common/rule_learners.py', P + 'common/mlrl/common/mixins.py',
          P + 'boosting/mlrl/boosting/boosting_learners.py', P + 'seco/mlrl/seco/seco_learners.py', C],
         [('fit and predict', P + 'common/mlrl/common/rule_learners.py'),
          ('creation of the learner', P + '*/mlrl/*/*_learners.py: _create_learner'),
          ('variables with static storage duration', C + '*/src')],
         'models and predictions after several calls of fit and predict'),
    prop('C12', 'Errors are reported as exceptions instead of terminating the process',
         'Whenever the C++ library detects an error - an invalid argument, an unsupported configuration, a failure of an '
         'external solver or of the allocation of memory - the user is presented with a Python exception. No error '
         'terminates the process, also if it occurs during multi-threaded training or prediction, no error is swallowed, '
         'and optional components that may be missing are never dereferenced without having been checked.',
         ['inputs', 'schedules', 'fault_sequences'], 'all functions of the library, all inputs and all numbers of threads',
         'Tests do not make solvers fail and exercise hardly any invalid arguments.',
         [P + 'common/mlrl/common/cython', P + 'boosting/mlrl/boosting/cython', P + 'seco/mlrl/seco/cython',
          C + 'common/src/mlrl/common', C + 'boosting/src/mlrl/boosting', C + 'seco/src/mlrl/seco'],
         [('declarations of C++ functions', P + 'common/mlrl/common/cython/*.pxd'),
          ('parallel loops', C + 'common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp'),
          ('external solvers', C + 'boosting/src/mlrl/boosting/util/lapack.cpp'),
          ('optional components', C + 'common/include/mlrl/common/learner_classification_common.hpp')],
         'exceptions that are raised in Python; termination of the process'),
    prop('C14', 'Aggregated statistics are the weighted sums of what has been added',
         'The gradients, Hessians, confusion matrices and scores that are aggregated during training always equal the sum, '
         'taken over all examples that have been added and not been removed, of the statistics of these examples times '
         'their weights. This applies to each output, and each pair of outputs, individually, regardless of whether the '
         'statistics are dense or sparse and whether all or some outputs are considered; differences of such sums are the '
         'sums over the remaining examples. Applying the prediction of a rule adds its scores, and reverting it restores '
         'the previous ones; the number of rules that cover an example and output is counted correctly.',
         ['inputs', 'histories'], 'all sequences of updates, all weights, indices and statistics',
         'Tests only compare the resulting models; updates of partial, sparse or weighted statistics are used by few of them.',
         [C + 'boosting/src/mlrl/boosting/data', C + 'boosting/src/mlrl/boosting/statistics',
          C + 'seco/src/mlrl/seco/data', C + 'seco/src/mlrl/seco/statistics', C + 'common/include/mlrl/common/data'],
         [('update kernels', C + 'boosting/src/mlrl/boosting/data/vector_statistic_*.cpp'),
          ('confusion matrices', C + 'seco/src/mlrl/seco/data/vector_confusion_matrix_dense.cpp'),
          ('subsets and totals', C + 'boosting/src/mlrl/boosting/statistics/statistics_common.hpp, '
           + C + 'seco/src/mlrl/seco/statistics/statistics_common.hpp')],
         'scores, coverage and quality of the rules that are learned'),
    prop('C16', 'Experiments never use test data for training, and evaluate what they report',
         'In each run of an experiment, and for each value of `--data-split`, the model is trained on the training data of the '
         'split only and evaluated on the corresponding test data. The training and test data of a split are disjoint and '
         'together comprise all examples; with cross validation each example is used for testing exactly once, and folds are '
         'the same for the same random state, regardless of whether all folds or a single one are run. Features and ground '
         'truth always belong to the same examples, nominal features of all parts are encoded in the same way, and the meta '
         'data describes the features. Each model is stored in, and loaded from, a file of its own, a clone of the configured '
         'learner is trained for each split, and with incremental evaluation predictions of a model of the reported size are '
         'evaluated, starting at the minimum size and never exceeding the maximum size.',
         ['configurations', 'inputs', 'histories'], 'all kinds of splits, folds, options and data sets',
         'Tests compare the logs of a few runs on two data sets, in which leaking a few examples is not noticed.',
         [P + 'testbed/mlrl/testbed/data_splitting.py', P + 'testbed/mlrl/testbed/experiments.py',
          P + 'testbed/mlrl/testbed/persistence.py', P + 'testbed/mlrl/testbed/runnables.py'],
         [('splitting of data', P + 'testbed/mlrl/testbed/data_splitting.py: DataSplitter'),
          ('training and evaluation', P + 'testbed/mlrl/testbed/experiments.py: Experiment.train_and_evaluate'),
          ('incremental evaluation', P + 'testbed/mlrl/testbed/experiments.py: IncrementalEvaluation')],
         'data that is used by the learner, the evaluation and the output writers'),
    prop('C17', 'Reported evaluation results are the named measures of the right predictions',
         'The evaluation results that are printed or written to files are the measures they are labelled with, computed from the '
         'predictions and the ground truth of the fold, the kind of data (training or test) and the model size they are '
         'reported for. Averages and standard deviations are those of the results of all folds of a cross validation, and are '
         'reported once it is complete. All measures that apply to a problem are reported unless they are disabled via the '
         'documented options, and results of different folds, kinds of data and kinds of output end up in different files.',
         ['histories', 'configurations', 'inputs'], 'all measures, options, and sequences of folds, data types and model sizes',
         'Tests compare the console output of a few runs; many combinations of measures, options and splits never occur in them.',
         [P + 'testbed/mlrl/testbed/evaluation.py', P + 'testbed/mlrl/testbed/output_writer.py',
          P + 'testbed/mlrl/testbed/format.py', P + 'testbed/mlrl/testbed/io.py'],
         [('measures', P + 'testbed/mlrl/testbed/evaluation.py: *_EVALUATION_MEASURES'),
          ('results', P + 'testbed/mlrl/testbed/evaluation.py: EvaluationWriter.EvaluationResult'),
          ('files', P + 'testbed/mlrl/testbed/output_writer.py: OutputWriter.CsvSink')],
         'console output and CSV files'),
    prop('C18', 'Unspecified parameters and options take their documented default values',
         'If a parameter is not specified by the user, the learner uses the component the documentation lists as its '
         'default. If an option of a component is not specified, it has the documented default value, including those '
         'that are specific to an estimator.',
         ['configurations'], 'all estimators, all parameters and options with a documented default, all ways of leaving '
         'them unspecified',
         'Most defaults only make a difference for particular data sets or in combination with particular other '
         'parameters. Tests usually specify the values they depend on.',
         [C + 'common/include/mlrl/common/learner.hpp', C + 'common/src/mlrl/common', C + 'boosting/src/mlrl/boosting',
          C + 'seco/src/mlrl/seco', 'doc/user_guide/boosting/parameters.md', 'doc/user_guide/seco/parameters.md'],
         [('defaults of the learners', C + '*/src/mlrl/*/learner_*.cpp: useDefaults(), overrides of use*()'),
          ('defaults of options', C + '*/src/**/*.cpp: constructors of *Config')],
         'configuration objects returned by use*() methods, components used for training'),
    prop('C24', 'Data sets are loaded and saved without loss',
         'For each data set in the documented ARFF/XML format, sparse or dense, with outputs at the start or at the end, named '
         'in an XML file or by the `@relation` declaration, the feature and ground truth matrices contain exactly the '
         'values of the file at the corresponding rows and columns, and the meta data states the names and types of the features '
         'and the names of the outputs; unsupported types are rejected. One-hot encoding replaces exactly the nominal '
         'features, using the encoder that has been fit to the training data. Data sets that are saved by the program declare '
         'their attributes, outputs and values such that they can be loaded again.',
         ['inputs'], 'all data sets', 'Tests only use a few small files, none of which ends with empty rows or columns.',
         [P + 'testbed/mlrl/testbed/data.py'],
         [('loading', P + 'testbed/mlrl/testbed/data.py: load_data_set_and_meta_data'),
          ('saving', P + 'testbed/mlrl/testbed/data.py: save_arff_file'),
          ('encoding', P + 'testbed/mlrl/testbed/data.py: one_hot_encode')],
         'matrices and meta data that are loaded; files that are written'),
    prop('C25', 'Gradients and Hessians are the derivatives of the loss',
         'For each loss function, the gradients and Hessians that guide the training are the first and second derivatives of the '
         'value that is used for evaluating predictions, with respect to the predicted scores.',
         ['inputs'], 'all scores and labels', 'Tests do not inspect gradients.',
         [C + 'boosting/src/mlrl/boosting/losses/loss_decomposable_logistic.cpp'],
         [('losses', C + 'boosting/src/mlrl/boosting/losses')]),
    prop('C26', 'Samples are drawn without bias',
         'Each example, feature or output that is available is equally likely to be selected by random sampling (of the same '
         'stratum, if sampling is stratified).',
         ['inputs', 'histories'], 'all populations, sample sizes and random states', 'Tests fix the random state.',
         [C + 'common/src/mlrl/common/sampling/index_sampling.hpp'],
         [('sampling of indices', C + 'common/src/mlrl/common/sampling/index_sampling.hpp')]),
]

CHECKS = {
    'C01': ('wiring', 'provenance analysis of arguments and fields across constructors and factory methods; liveness of '
            'fields, parameters, properties and components in the whole program'),
    'C02': ('ranges', 'interval/partition abstract interpretation of all setters over the type-checked AST (C++) and '
            'the Cython syntax tree'),
    'C03': ('options', 'abstract interpretation of the Python/Cython configuration layer for every documented value, '
            'and of the C++ methods it calls, against a table of documented meanings'),
    'C04': ('races', 'interprocedural, context-sensitive ownership and effect analysis of the bodies of OpenMP loops with '
            'class hierarchy analysis'),
    'C05': ('determinism', 'effect analysis for sources of entropy and static state; backward slicing of seeds; definite '
            'initialisation of fields, local variables and accumulated memory'),
    'C07': ('search', 'abstract interpretation of the search for conditions with affine index arithmetic, difference '
            'constraints, intervals of processed entries, and inferred loop invariants'),
    'C08': ('coverage', 'symbolic dataflow summaries of the evaluation of conditions and the aggregation of predictions, '
            'normalised and compared with the required relations'),
    'C12': ('errors', 'interprocedural exception escape analysis, null pointer dataflow analysis, and evaluation of status '
            'codes over their signs'),
    'C14': ('sums', 'linearity and correspondence analysis of update kernels on normalised symbolic summaries, typestate of '
            'aggregates'),
    'C16': ('splits', 'path-sensitive abstract interpretation of the data flow of experiments on symbolic data sets'),
    'C17': ('evaluation', 'abstract interpretation of histories of evaluations with symbolic predictions, provenance of each '
            'score'),
    'C24': ('datafiles', 'abstract interpretation of loading and saving on files with symbolic values'),
    'C06': ('roundtrip', 'abstract interpretation of serialisation followed by deserialisation over symbolic models, '
            'field-resolution and constant propagation for the C++ model classes'),
    'C19': ('predict', 'abstract interpretation of fit and all methods for prediction from the Python methods down to the '
            'calls on the C++ learner'),
    'C22': ('inputs', 'abstract interpretation of the conversion of matrices with an abstract domain for the contents of '
            'arrays, down to the creation of C++ views'),
    'C11': ('purity', 'alias and effect analysis on top of an abstract interpretation of the Python and Cython layers; '
            'const-ness and effect queries over the type-checked C++ AST'),
    'C23': ('history', 'abstract interpretation of pairs of calls: comparison of the outcomes in the initial state and in '
            'states with unknown history; queries for state with static storage duration'),
    'C18': ('defaults', 'constant propagation through constructors and setters of the configuration classes, with class '
            'hierarchy analysis for overridden methods'),
}

LEVEL_NOTES = {
    'C01': 'Provenance is compared with the names of parameters and fields; exchanges of values whose names have nothing in '
           'common are beyond the analysis, as are the formulas values are derived by.',
    'C02': 'Decides every setter found; exhaustive over the partition of the value space, no bounds.',
    'C03': 'Exhaustive over the documented values and options (one option at a time plus all together).',
    'C04': 'All loops with OpenMP directives, with multi-threading support being enabled; all reachable functions.',
    'C05': 'Memory that is read without being accumulated into (e.g. a buffer that is only ever overwritten) is not tracked; '
           'the order of floating point operations is fixed by the source, except for parallel loops (see C04).',
    'C07': 'Any number of entries and any weights (loop invariants); feature vectors are assumed to be sorted, and the number '
           'of examples with non-zero weights that is given to the search to be right.',
    'C08': 'The rules that are learned and how many of them are used are not subject of this property; rounding of floating '
           'point numbers is not considered.',
    'C12': 'Exceptions thrown by the standard library itself (other than those caught by the same handlers) and exhaustion of '
           'the stack are not considered; null pointers are tracked for local variables, parameters and return values.',
    'C14': 'Sums are considered to be real numbers, i.e., rounding is ignored; the values of the statistics of individual '
           'examples are not subject of this property.',
    'C16': 'Numbers of folds and model sizes are enumerated (2, 3 and 10 folds; 15 combinations of sizes); the data, the '
           'learner and all paths including exceptions are symbolic. The behaviour of scikit-learn (KFold, train_test_split) '
           'is assumed.',
    'C17': 'Histories of up to three folds and two model sizes are enumerated with symbolic data. The functions of '
           'scikit-learn and the rounding of numbers are not subject of the analysis.',
    'C24': 'The kinds of files are enumerated (7 layouts, sparse and dense), their values are symbolic. The parsers of '
           'liac-arff and XML are assumed to be correct.',
    'C06': 'Symbolic values; all 64 combinations of condition types, lists of up to 3 rules, 3 label vectors, 3 bins.',
    'C19': 'All estimators and kinds of predictions; both outcomes of every condition on unknown values.',
    'C22': 'All estimators, formats and configured formats; cells are abstracted to absent, explicit zero and other ones.',
    'C11': 'All estimators and formats of matrices; arrays may share memory unless numpy or scipy guarantee a copy.',
    'C23': 'All estimators; pairs of calls, with unknown values for all attributes that are assigned by the first one.',
    'C18': 'Exhaustive over the documented defaults of all parameters and options.',
}

NOT_APPLICABLE = {
    'C25': 'The losses are implemented by numerically stable reformulations of transcendental functions; whether they equal '
           'the derivatives is a question of algebra and rounding, which dataflow and syntactic rules cannot settle.',
    'C26': 'Whether samples are unbiased and all elements are equally likely is a statement about the distribution of the '
           'numbers generated at runtime, which no sound static argument in reach can bound.',
}


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + '\n')
    ids = {p['id'] for p in PROPERTIES}
    assert ids == set(CHECKS) | set(NOT_APPLICABLE), (ids, set(CHECKS))
    m = {'version': 1, 'setup_cmd': 'python3 lib/facts.py',
         'checks': [{'property': k, 'quick_cmd': 'python3 checks/%s.py' % c,
                     'thorough_cmd': 'python3 checks/%s.py --thorough' % c, 'technique': 'static analysis: ' + t,
                     'level': 'other', 'level_note': LEVEL_NOTES[k]} for k, (c, t) in sorted(CHECKS.items())],
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())]}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
