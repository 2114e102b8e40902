"""C17: evaluation results are the documented measures, computed from the given predictions, and belong to the right fold."""
import ast
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pyabs
import report
from pyabs import const, show

RULE = ('Each evaluation measure is interpreted abstractly and must be the function of sklearn.metrics (with the averaging '
        'strategy, or subtracted from one) that corresponds to its name. Each evaluation writer is interpreted on symbolic '
        'ground truth and predictions for several folds, kinds of data and model sizes: each score that is written must result from applying '
        'the measure to the ground truth and the predictions, in this order and without changing values, of the '
        'fold, the kind of data and the model size it is written for. Averages and standard deviations must be computed from the scores of all folds. '
        'Output files of different folds, kinds of data and kinds of results must have different names.')

E = 'mlrl.testbed.evaluation'
S = 'mlrl.testbed.data_splitting'
F = 'mlrl.testbed.format'
OPTIONS = 'mlrl.common.options'
P = 'mlrl.testbed.prediction_scope'

AVG = {'Micro': 'micro', 'Macro': 'macro', 'Example-wise': 'samples'}
SCORES = {'Precision': 'precision_score', 'Recall': 'recall_score', 'F1': 'f1_score', 'Jaccard': 'jaccard_score'}
SPEC = {'Hamming Accuracy': ('hamming_loss', True), 'Hamming Loss': ('hamming_loss', False),
        'Subset Accuracy': ('accuracy_score', False), 'Subset 0/1 Loss': ('accuracy_score', True),
        'Accuracy': ('accuracy_score', False), '0/1 Loss': ('accuracy_score', True),
        'Mean Absolute Error': ('mean_absolute_error', False), 'Mean Squared Error': ('mean_squared_error', False),
        'Median Absolute Error': ('median_absolute_error', False),
        'Mean Absolute Percentage Error': ('mean_absolute_percentage_error', False),
        'Ranking Loss': ('label_ranking_loss', False), 'Coverage Error': ('coverage_error', False),
        'Label Ranking Average Precision': ('label_ranking_average_precision_score', False),
        'Discounted Cumulative Gain': ('dcg_score', False), 'NDCG': ('ndcg_score', False)}
PERCENTAGE = {'Hamming Accuracy', 'Hamming Loss', 'Subset Accuracy', 'Subset 0/1 Loss', 'Accuracy', '0/1 Loss', 'NDCG'}
for _s, _f in SCORES.items():
    SPEC[_s] = (_f, False)
    PERCENTAGE.add(_s)
    for _a in AVG:
        SPEC['%s %s' % (_a, _s)] = (_f, False)
        PERCENTAGE.add('%s %s' % (_a, _s))


# options for enabling or disabling measures, as documented
OPTION = {'Subset 0/1 Loss': 'subset_zero_one_loss', '0/1 Loss': 'zero_one_loss', 'Ranking Loss': 'rank_loss',
          'Label Ranking Average Precision': 'lrap', 'Discounted Cumulative Gain': 'dcg', 'NDCG': 'ndcg',
          'Median Absolute Error': 'mean_absolute_error'}
REGRESSION = ['Mean Absolute Error', 'Mean Squared Error', 'Median Absolute Error', 'Mean Absolute Percentage Error']
RANKING = ['Ranking Loss', 'Coverage Error', 'Label Ranking Average Precision', 'Discounted Cumulative Gain', 'NDCG']
SINGLE = ['Accuracy', '0/1 Loss', 'Precision', 'Recall', 'F1', 'Jaccard']
MULTI = ['Hamming Accuracy', 'Hamming Loss', 'Subset Accuracy', 'Subset 0/1 Loss'] + [
    '%s %s' % (a, n) for a in AVG for n in SCORES]
EXPECTED = {('BinaryEvaluationWriter', True): MULTI, ('BinaryEvaluationWriter', False): SINGLE,
            ('RegressionEvaluationWriter', True): REGRESSION, ('RegressionEvaluationWriter', False): REGRESSION,
            ('RankingEvaluationWriter', True): RANKING + REGRESSION, ('RankingEvaluationWriter', False): REGRESSION}
# the documented option of this measure is the one of another measure
AMBIGUOUS = {'Median Absolute Error'}
TIMES = ['Training Time', 'Prediction Time']


def option(name):
    return OPTION.get(name) or name.lower().replace(' ', '_').replace('-', '_')


class Undecided(Exception):
    pass


COMPLEMENTS = {'zero_one_loss': 'accuracy_score'}


def metric(t):
    """term -> (function, complement, args, kwargs)"""
    comp = False
    while t[0] == 'bin' and t[1] == '-' and t[2] in (const(1), const(1.0)):
        comp = not comp
        t = t[3]
    if t[0] != 'call' or t[1][0] != 'ext' or not t[1][1].startswith('sklearn.metrics'):
        raise Undecided('measure %s' % show(t)[:60])
    n = t[1][1].split('.')[-1]
    if n in COMPLEMENTS:
        n, comp = COMPLEMENTS[n], not comp
    return n, comp, t[2], dict(t[3])


def unconvert(t):
    """conversions that do not change the values of integers (binary labels) or scores"""
    while True:
        if t[0] == 'call' and t[1] in (('ext', 'numpy.ravel'), ('ext', 'numpy.asarray'), ('ext', 'numpy.array'),
                                     ('ext', 'numpy.squeeze')) and t[2]:
            t = t[2][0]
        elif t[0] == 'call' and t[1] == ('sym', 'enforce_dense'):
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('ravel', 'flatten', 'toarray', 'squeeze', 'copy'):
            t = t[1][1]
        else:
            return t


def names(I, st, o):
    """-> name of a measure"""
    h = st.heap.get(o[1]) if o[0] == 'ref' else None
    return h['attrs'].get('name', (None,) * 3)[2] if h and h['kind'] == 'obj' else None


def make_interp():
    I = pyabs.Interp()
    I.ignore_order = True
    I.overrides[('fn', 'mlrl.common.arrays', 'enforce_dense')] = lambda self, st, a, k, n, e: [
        (st, ('call', ('sym', 'enforce_dense'), (a[0],), ()))]
    for n in I.module(F).tree.body:
        if isinstance(n, ast.FunctionDef) and n.name != 'filter_formatters':
            I.overrides[('fn', F, n.name)] = lambda self, st, args, kwargs, node, env, n=n: [
                (st, ('call', ('sym', n.name), tuple(args), ()))]
    return I


def check_measures(rep):
    I = make_interp()
    I.module(E)
    rep.file('python/subprojects/testbed/mlrl/testbed/evaluation.py')
    lists = [k for k, v in I.module(E).vars.items() if k.endswith('EVALUATION_MEASURES')]
    seen = set()
    G, Q = ('sym', 'ground truth'), ('sym', 'predictions')
    for l in sorted(lists):
        st = I.start()
        for o in I.items(st, I.module(E).vars[l]) or ():
            name = names(I, st, o)
            if name in (None, 'Training Time', 'Prediction Time'):
                continue
            what = '%s (%s)' % (name, l)
            if name not in SPEC:
                rep.notes.append('%s: undecided (unknown measure)' % what)
                continue
            seen.add(name)
            try:
                for s, r in I.call_method(st.fork(), o, 'evaluate', [G, Q]):
                    fn, comp, args, kw = metric(r)
                    for i, p in enumerate(('y_true', 'y_pred' if fn not in (
                            'label_ranking_loss', 'coverage_error', 'label_ranking_average_precision_score', 'dcg_score',
                            'ndcg_score') else 'y_score')):
                        if p in kw:
                            args = args + (kw.pop(p),)
                    want, wcomp = SPEC[name]
                    msg = None
                    if fn != want:
                        msg = '%s is computed by %s' % (name, fn)
                    elif comp != wcomp:
                        msg = '%s is %s' % (name, 'one minus %s' % fn if comp else fn)
                    elif tuple(unconvert(a) for a in args) != (G, Q):
                        msg = '%s is given %s' % (name, ', '.join(show(a) for a in args))
                    avg = next((v for k, v in AVG.items() if name.startswith(k)), None)
                    got = kw.get('average')
                    got = got[2] if got is not None and got[0] == 'c' else None
                    if avg is None and got not in (None, 'binary') or avg is not None and got != avg:
                        msg = msg or '%s uses the averaging strategy %s' % (name, got)
                    if kw.get('zero_division', const(1)) not in (const(1), const(1.0)):
                        msg = msg or '%s is %s if it is undefined' % (name, show(kw['zero_division']))
                    if kw.get('normalize', pyabs.TRUE) != pyabs.TRUE:
                        msg = msg or '%s is not normalized' % name
                    if kw.get('squared', pyabs.TRUE) != pyabs.TRUE:
                        msg = msg or '%s is not squared' % name
                    h = s.heap[o[1]]['attrs'].get('percentage')
                    if h is not None and h[0] == 'c' and bool(h[2]) != (name in PERCENTAGE):
                        msg = msg or '%s is%s considered as a percentage' % (name, '' if h[2] else ' not')
                    rep.check(msg is None, what, msg or '')
            except (Undecided, pyabs.Unsupported) as e:
                rep.notes.append('%s: undecided (%s)' % (what, e))
    for name in sorted(set(SPEC) - seen):
        rep.violate(name, 'the evaluation measure %s is not available' % name)
    for a in I.analysed:
        rep.functions.add('.'.join(str(x) for x in a))


# ---------------------------------------------------------------- writers

WNAMES = ('problem_type', 'meta_data', 'data_split', 'data_type', 'prediction_scope', 'output_data')


def writers(I):
    """evaluation writers that can be instantiated"""
    res = []
    for (m, n), info in list(I.classes.items()):
        if m == E and n.endswith('EvaluationWriter') and '.' not in n and n != 'EvaluationWriter':
            res.append(n)
    return sorted(res)


class Failure(Exception):
    pass


def history(folds, sizes):
    """the sequence of calls in a cross validation: (fold, data type, model size)"""
    for f in range(folds) if folds else [None]:
        for t in ('TRAINING', 'TEST'):
            for k in sizes:
                yield f, t, k


def run_writer(rep, wname, multi, folds, sizes, options=None, assume=None):
    I = make_interp()
    I.max_paths = 200
    cls = I.cls(E, wname)
    split_cls = I.cls(S, 'CrossValidationFold'), I.cls(S, 'TrainingTestSplit')
    scope_cls = I.cls(P, 'GlobalPrediction'), I.cls(P, 'IncrementalPrediction')
    types = {n: I.enum_member(I.cls(S, 'DataType'), n) for n in ('TRAINING', 'TEST')}
    opt_cls = I.cls(OPTIONS, 'Options')
    sinks_cls = [I.cls(E, 'EvaluationWriter.LogSink'), I.cls(E, 'EvaluationWriter.CsvSink')]
    if any(c is None for c in sinks_cls):
        raise Undecided('sinks')
    I.module(E)
    I.facts.append(lambda self, st, t: multi if t[0] == 'call' and 'is_multilabel' in repr(t[1]) else None)
    I.facts.append(lambda self, st, t: True if t[0] == 'cmp' and "'shape'" in repr(t) else None)
    I.facts.append(lambda self, st, t: True if 'isfile' in show(t) or t[0] == 'cmp' and any(
        x[0] == 'attr' and x[2] == 'mode' for x in t[2:]) else None)
    I.fork_exceptions = False
    if assume is not None:
        I.facts.append(lambda self, st, t: assume if t[0] == 'cmp' else None)
    outputs = []

    # what is given to the sinks is interpreted down to the formatting of scores
    def fmt(self, st, args, kwargs, node, env):
        return [(st, ('call', ('sym', 'formatted'), (args[0], args[1]), ()))]
    I.overrides[('fn', F, 'Formatter.format')] = fmt
    st = I.start()
    sink_objs = []
    cur = st
    for i, c in enumerate(sinks_cls):
        args = {} if i == 0 else {'output_dir': const('dir')}
        if options is not None:
            (cur, o), = I.call(cur, opt_cls, [], {}, None)
            cur.heap[o[1]]['attrs']['dict'] = cur.new('dict', items=[(const(k), const(v)) for k, v in options.items()])
            args['options'] = o
        rs = [x for x in I.call(cur, c, [], args, None) if x[1][0] != 'raise']
        if len(rs) != 1:
            raise Undecided('construction of a sink')
        cur, o = rs[0]
        sink_objs.append(o)
    rs = [x for x in I.call(cur, cls, [cur.new('list', items=list(sink_objs))], {}, None) if x[1][0] != 'raise']
    if len(rs) != 1:
        raise Undecided('construction of %s' % wname)
    cur, w = rs[0]
    for f, t, k in history(folds, sizes):
        kw = {'num_folds': const(folds), 'fold': const(f), 'current_fold': const(-1)} if folds else {}
        (cur, sp), = I.call(cur, split_cls[0 if folds else 1], [], kw, None)
        (cur, sc), = I.call(cur, scope_cls[0 if k is None else 1], [], {} if k is None else {'model_size': const(k)}, None)
        tag = (f, t, k)
        args = {'problem_type': ('sym', 'problem'), 'meta_data': ('sym', 'meta'), 'x': ('sym', 'x %s %s' % (f, t)),
                'y': ('call', ('sym', 'y'), (const(f), const(t)), ()), 'data_split': sp, 'learner': ('sym', 'learner'),
                'data_type': types[t], 'prediction_type': ('sym', 'type'), 'prediction_scope': sc,
                'predictions': ('call', ('sym', 'p'), (const(f), const(t), const(k)), ()),
                'train_time': ('call', ('sym', 'train time'), (const(f),), ()),
                'predict_time': ('call', ('sym', 'predict time'), (const(f), const(t), const(k)), ())}
        n = len(cur.effects)
        rs = I.call_method(cur, w, 'write_output', [], args)
        raised = [x for x in rs if x[1][0] == 'raise']
        rs = [x for x in rs if x[1][0] != 'raise']
        if not rs and raised:
            raise Failure('writing the results of %s fails' % (tag,))
        if not rs:
            raise Undecided('no path')
        if len(rs) > 1:
            conds = {c for s, _ in rs for c in s.pc}
            raise Undecided('%d paths (%s)' % (len(rs), ' '.join(show(c)[:80] for c in sorted(conds, key=repr))))
        cur = rs[0][0]
        outputs.append((tag, cur.effects[n:]))
    return I, cur, outputs, w


def deep(I, st, t, depth=0):
    """expand heap objects inside a term"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'ref' and isinstance(t[1], int):
            h = st.heap[t[1]]
            if depth > 8 or h['kind'] == 'obj':
                return ('obj', names(I, st, t))
            return (h['kind'],) + tuple(deep(I, st, x, depth + 1) for x in h.get('items', ()))
        return tuple(deep(I, st, x, depth) for x in t)
    return t


def scores(I, st, t):
    """-> list of (measure, value) for each formatted score in a term"""
    for x in pyabs.subterms(deep(I, st, t)):
        if x[:2] == ('call', ('sym', 'formatted')):
            yield x[2][0][1] if x[2][0][0] == 'obj' else None, x[2][1]


def single(v, name, tag):
    """whether `v` is the score of one fold -> message"""
    f, t, k = tag
    if name == 'Training Time':
        return None if v == ('call', ('sym', 'train time'), (const(f),), ()) else 'the training time is %s' % show(v)[:60]
    if name == 'Prediction Time':
        return None if v == ('call', ('sym', 'predict time'), (const(f), const(t), const(k)), ()) else \
            'the prediction time is %s' % show(v)[:60]
    if v[0] == 'idx' and v[1][0] == 'dict':
        return 'no score has been stored for fold %s' % f
    fn, comp, args, kw = metric(v)
    if name in SPEC and (fn, comp) != SPEC[name]:
        return 'the score of %s is computed as %s' % (name, fn)
    if len(args) != 2:
        raise Undecided('measure %s' % show(v)[:60])
    y, p = (unconvert(a) for a in args)
    if p[0] == 'idx' and p[2][0] == 'tuple':
        col = p[2][1][-1]
        if col[0] == 'c' and col[2] not in (-1, 1):
            return 'the predictions are taken from column %s instead of the last one' % col[2]
        p = p[1]
    p = unconvert(p)
    if (y, p) == (('call', ('sym', 'p'), (const(f), const(t), const(k)), ()), ('call', ('sym', 'y'), (const(f), const(t)), ())):
        return 'ground truth and predictions are mixed up'
    if y != ('call', ('sym', 'y'), (const(f), const(t)), ()):
        return 'the ground truth of another split is used (%s)' % show(y)[:60]
    if p != ('call', ('sym', 'p'), (const(f), const(t), const(k)), ()):
        return 'the predictions for another split are used (%s)' % show(p)[:60]
    return None


def aggregated(v):
    """-> (kind, values) for an average or standard deviation"""
    if v[0] != 'call':
        return None
    n = show(v[1]).split('.')[-1]
    kind = {'average': 'avg', 'mean': 'avg', 'std': 'std', 'nanmean': 'avg', 'nanstd': 'std', 'pstdev': 'std'}.get(n)
    if n in ('median', 'nanmedian', 'max', 'amax', 'min', 'amin', 'sum', 'nansum', 'var', 'prod', 'ptp', 'percentile', 'quantile'):
        return 'unknown', 'the %s' % n
    if kind is None:
        return None
    kw = dict(v[3])
    if n == 'average' and 'weights' in kw:
        raise Undecided('weights')
    if kw.get('ddof', const(0)) != const(0):
        return 'other', None
    a = unconvert(v[2][0] if v[2] else v[1][1])
    if a[0] not in ('list', 'tuple'):
        raise Undecided('average of %s' % show(a)[:60])
    return kind, a[1:] if a[0] == 'list' else a[1]


def columns(I, st, t):
    """the columns of a row -> {name: kind and value}"""
    h = st.heap[t[1]] if t[0] == 'ref' else None
    if h is None or h['kind'] != 'dict' or h.get('items') is None:
        raise Undecided('row %s' % show(t)[:60])
    if any(k[0] != 'c' for k, _ in h['items']):
        raise Undecided('names of columns')
    return {k[2]: v for k, v in h['items']}


def check_row(I, st, row, tag, names_):
    """whether the columns of a row are named after the scores they contain -> message"""
    cols = columns(I, st, row)
    found = set()
    for n, v in cols.items():
        if n == 'Model size':
            if v != const(tag[2]):
                return 'the model size is %s' % show(v)[:40]
            continue
        its = list(scores(I, st, v))
        if len(its) != 1:
            raise Undecided('column %s' % n)
        agg = aggregated(its[0][1])
        kind = 'single' if agg is None else agg[0]
        base = n[len('Std.-dev. '):] if n.startswith('Std.-dev. ') else n
        if base != its[0][0]:
            return 'the column %s contains the scores of %s' % (n, its[0][0])
        if kind == 'std' and base == n or kind == 'avg' and base != n:
            return 'the column %s contains %s' % (n, 'a standard deviation' if kind == 'std' else 'an average')
        found.add(base)
    if tag[2] is not None and 'Model size' not in cols:
        return 'the model size is missing'
    found, names_ = (None if x is None else x - AMBIGUOUS for x in (found, names_))
    if names_ is not None and found != names_:
        miss, more = sorted(names_ - found), sorted(found - names_)
        return 'the score of %s is missing' % miss[0] if miss else 'the score of %s is not expected' % more[0]
    return None


def check_writer(rep, wname, multi, folds, sizes, mode=None):
    try:
        check_writer_paths(rep, wname, multi, folds, sizes, mode, None)
    except (Undecided, pyabs.Unsupported) as e:
        # Several paths depend on conditions that concern the results: take all of them or none
        for assume in (True, False):
            try:
                check_writer_paths(rep, wname, multi, folds, sizes, mode, assume)
            except (Undecided, pyabs.Unsupported) as e2:
                rep.notes.append('%s, %s, %s: undecided (%s; %s)' % (wname, multi, folds, str(e)[:200], str(e2)[:200]))


def check_writer_paths(rep, wname, multi, folds, sizes, mode, assume):
    what = '%s, %s, %s%s%s' % (wname, 'several outputs' if multi else 'single output',
                             '%d folds' % folds if folds else 'train/test split', ', incremental' if sizes != (None,) else '',
                               '' if mode is None else ', %s measures' % mode)
    measures = EXPECTED.get((wname, multi))
    options = None
    if measures is not None and mode is not None:
        chosen = sorted(option(n) for n in measures + TIMES)[::2]
        options = {o: 'true' if mode == 'enabled' else 'false' for o in chosen}
        if mode == 'enabled':
            options['enable_all'] = 'false'
        measures = [n for n in measures + TIMES if (option(n) in chosen) == (mode == 'enabled')]
        log = [n for n in measures if n not in TIMES]
    elif measures is not None:
        log, measures = measures, measures + TIMES
    elif mode is not None:
        return
    try:
        I, st, outputs, w = run_writer(rep, wname, multi, folds, sizes, options, assume)
    except Failure as e:
        rep.violate(what, '%s: %s' % (what, e))
        return
    except (ValueError, KeyError) as e:
        rep.notes.append('%s: undecided (%s)' % (what, e))
        return
    for a in I.analysed:
        rep.functions.add('.'.join(str(x) for x in a))
    total = 0
    files = {}
    try:
        for tag, effects in outputs:
            f, t, k = tag
            overall = 0
            current = None
            for e in effects:
                if e.kind != 'call':
                    continue
                n = show(e.target).split('.')[-1]
                if n == 'info':
                    key = 'log'
                elif n == 'writerow':
                    key = 'csv'
                elif n == 'open':
                    current = e.args[0] if e.args else dict(e.kwargs)['file']
                    continue
                else:
                    continue
                if key == 'csv' and e.args:
                    msg = check_row(I, st, e.args[0], tag, None if measures is None else set(measures))
                    if msg:
                        rep.violate(what, '%s: %s: %s' % (what, tag, msg))
                        return
                its = list(scores(I, st, e.args))
                if key == 'log' and (its or any(x[0] == 'call' and x[1] == ('sym', 'format_table')
                                                for x in pyabs.subterms(deep(I, st, e.args)))) and measures is not None and {n for n, _ in its} - AMBIGUOUS != set(log) - AMBIGUOUS:
                    rep.violate(what, '%s: %s: the log contains the scores of %s instead of %s' % (
                        what, tag, sorted({n for n, _ in its}), sorted(log)))
                    return
                kinds = set()
                for name, v in its:
                    total += 1
                    agg = aggregated(v)
                    if agg is None:
                        msg = single(v, name, tag)
                        kinds.add('single')
                    else:
                        kinds.add(agg[0])
                        msg = None
                        if agg[0] == 'unknown':
                            msg = '%s of the scores of several folds is written' % agg[1]
                        elif agg[1] is None:
                            msg = 'the standard deviation is not the population standard deviation'
                        elif folds and f != folds - 1 and len(agg[1]) > 1:
                            msg = 'the average across all folds is written after fold %d' % (f + 1)
                        elif len(agg[1]) != max(folds, 1):
                            msg = 'the average is computed from %d instead of %d folds' % (len(agg[1]), folds)
                        else:
                            for i, x in enumerate(agg[1]):
                                msg = msg or single(x, name, (i if folds else None, t, k))
                    if msg:
                        rep.violate(what, '%s: %s, %s: %s' % (what, tag, name, msg))
                        return
                if 'avg' in kinds:
                    overall += 1
                if key == 'csv' and current is not None and kinds:
                    files.setdefault(current, set()).add((t, 'all' if 'avg' in kinds and folds else f))
            if folds:
                last = f == folds - 1
                if bool(overall) != last:
                    rep.violate(what, '%s: the average across all folds is %s after fold %d' % (
                        what, 'missing' if last else 'written', f + 1))
                    return
        if not total:
            rep.notes.append('%s: undecided (no scores found)' % what)
            return
        for name, uses in files.items():
            if len(uses) > 1:
                rep.violate(what, '%s: results for %s are written to the same file' % (
                    what, ' and '.join('%s data, fold %s' % u for u in sorted(uses, key=str))))
                return
        rep.ok('%s (%d scores)' % (what, total))
    except Undecided as e:
        rep.notes.append('%s: undecided (%s)' % (what, e))


def check_files(rep):
    """different kinds of results are written to different files"""
    used = {}
    for mod in ('characteristics', 'data_characteristics', 'evaluation', 'label_vectors', 'model_characteristics', 'models',
                'parameters', 'prediction_characteristics', 'predictions', 'probability_calibration'):
        I = make_interp()
        mod = 'mlrl.testbed.' + mod
        if I.module(mod) is None:
            continue
        rep.file('python/subprojects/testbed/%s.py' % mod.replace('.', '/'))
        for (m, n) in sorted(I.classes):
            if m != mod or not n.endswith('Sink') or n.endswith('LogSink'):
                continue
            st = I.start()
            I.fork_exceptions = False
            try:
                rs = [x for x in I.call(st, I.cls(m, n), [], {'output_dir': const('dir')}, None) if x[1][0] == 'ref']
            except pyabs.Unsupported:
                continue
            for s, o in rs:
                v = s.heap[o[1]]['attrs'].get('file_name')
                if v is not None and v[0] == 'c':
                    used.setdefault((n.split('.')[-1], v[2]), set()).add('%s.%s' % (m.split('.')[-1], n))
    for (kind, name), cs in sorted(used.items()):
        rep.check(len(cs) == 1, 'results in files named %s (%s)' % (name, kind), '%s write to the same file %s' % (
            ' and '.join(sorted(cs)), name))


def analyse(rep, tier):
    rep.guard(check_measures)
    I = make_interp()
    I.module(E)
    ws = writers(I)
    if not ws:
        rep.notes.append('evaluation writers: undecided')
    for wname in ws:
        for multi in (True, False):
            for folds, sizes in ((0, (None,)), (3, (None,)), (0, (10, 20)), (2, (10, 20))):
                rep.guard(check_writer, wname, multi, folds, sizes)
            for mode in ('enabled', 'disabled'):
                rep.guard(check_writer, wname, multi, 2, (None,), mode)
    rep.guard(check_files)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C17', RULE, 'other', {}, analyse, 12)
