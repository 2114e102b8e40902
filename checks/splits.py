"""C16: experiments train on the training data of a split only, and evaluate on the test data that belong to it."""
import ast
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pyabs
import report
from pyabs import const, show

RULE = ('DataSplitter._split_data is interpreted abstractly for each implementation and several configurations, with data '
        'sets loaded from files as symbols. The symbolic data given to the callback must be a split: no part used for '
        'testing is used for training, all other parts are, features and ground truth have the same origin, and all parts '
        'are encoded by the same encoder and described by the meta data that belongs to it. Experiment.train_and_evaluate is interpreted on '
        'symbolic data, including exceptional paths: a clone of the learner, configured for this split, is fit to the training data '
        'only, or loaded from the file that belongs to the split, and each evaluation obtains matching data. '
        'Evaluations must pass the predictions for the given features to the output writers.')

S = 'mlrl.testbed.data_splitting'
EX = 'mlrl.testbed.experiments'
D = 'mlrl.testbed.data'
CALLBACK = ('sym', 'callback')
PARAMS = ('meta_data', 'data_split', 'train_x', 'train_y', 'test_x', 'test_y')


def bind(st, params, e):
    """arguments of a recorded call by the name of the parameter"""
    r = dict(zip(params, e.args))
    r.update(dict(e.kwargs))
    return r


class Failure(Exception):
    pass


class Undecided(Exception):
    pass


def make_interp():
    I = pyabs.Interp()
    for n in I.module('mlrl.testbed.format').tree.body:
        if isinstance(n, ast.FunctionDef):
            # only used for output
            I.overrides[('fn', 'mlrl.testbed.format', n.name)] = lambda self, st, args, kwargs, node, env, n=n: [
                (st, ('call', ('sym', n.name), tuple(args), ()))]

    def facts_(self, st, t):
        if t[0] == 'cmp' and t[1] in ('is', '==') and pyabs.NONE in t[2:]:
            for x in t[2:]:
                if x[0] == 'call' and x[1][0] == 'ext' and x[1][1].split('.')[-1] in STACK:
                    return False
        if t[0] == 'call' and t[1] == ('builtin', 'callable') and t[2] and 'learner' in repr(t[2][0]):
            return True
        if t[0] == 'call' and t[1] == ('builtin', 'isinstance') and 'FeatureSupportMixin' in repr(t[2][1]):
            return True
        if t[0] == 'call' and t[1] == ('builtin', 'isinstance') and t[2][0] == pyabs.NONE:
            return False
        return None
    I.facts.append(facts_)
    return I


def text(t):
    return t[2] if t is not None and t[0] == 'c' else None


def interpreter(one_hot_changes=True):
    I = make_interp()
    X, Y, M, E = (lambda f, k=k: ('call', ('sym', k), (f,), ()) for k in ('features', 'outputs', 'meta', 'encoder'))

    def both(st, a):
        f = a['arff_file_name']
        return X(f), Y(f)

    I.loaded = []

    def named(names, f):
        def g(self, st, args, kwargs, node, env):
            a = dict(zip(names, args))
            a.update(kwargs)
            if 'output_dtype' in names:
                self.loaded.append(('load_data_set' if 'xml_file_name' not in names else 'load_data_set_and_meta_data',
                                    a.get('output_dtype')))
            return [(st, f(st, a))]
        return g

    I.overrides[('fn', D, 'load_data_set_and_meta_data')] = named(
        ('data_dir', 'arff_file_name', 'xml_file_name', 'feature_dtype', 'output_dtype'),
        lambda st, a: ('tuple', both(st, a) + (M(a['arff_file_name']),)))
    I.overrides[('fn', D, 'load_data_set')] = named(
        ('data_dir', 'arff_file_name', 'meta_data', 'feature_dtype', 'output_dtype'),
        lambda st, a: ('tuple', (('call', ('sym', 'features'), (a['arff_file_name'], a['meta_data']), ()),
                                 ('call', ('sym', 'outputs'), (a['arff_file_name'], a['meta_data']), ()))))

    def encode(st, a):
        if a['meta_data'][0] == 'call' and a['meta_data'][1] == ('sym', 'encodedmeta'):
            # there are no nominal features left
            return ('tuple', (a['x'], pyabs.NONE, a['meta_data']))
        enc = a.get('encoder', pyabs.NONE)
        e = ('call', ('sym', 'encoder'), (a['x'],), ()) if enc == pyabs.NONE else enc
        return ('tuple', (('call', ('sym', 'encoded'), (a['x'], e), ()), e,
                          ('call', ('sym', 'encodedmeta'), (a['meta_data'],), ())))
    I.overrides[('fn', D, 'one_hot_encode')] = named(('x', 'y', 'meta_data', 'encoder'), encode)
    # encoded data are dense, others are sparse
    I.overrides[('fn', 'mlrl.common.arrays', 'is_sparse')] = lambda self, st, a, k, n, e: [(st, const(not dense(a[0])))]
    # an encoder is never None
    I.facts.append(lambda self, st, t: False if t[0] == 'cmp' and t[1] in ('is', '==') and pyabs.NONE in t[2:] and
                   any(x[0] == 'call' and x[1][0] == 'sym' and x[1][1] in ('encoder', 'encodedmeta', 'features', 'outputs',
                                                                         'encoded')
                       for x in t[2:]) else None)
    return I


def strip(t):
    """conversions of the format of a matrix do not affect its content"""
    while True:
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('tocsr', 'tocsc', 'tolil', 'todok', 'tocoo', 'toarray',
                                                              'copy', 'todense'):
            t = t[1][1]
        elif t[0] == 'call' and t[1][0] == 'ext' and len(t[2]) >= 1 and t[1][1].split('.')[-1] in (
                'csr_array', 'csc_array', 'lil_array', 'csr_matrix', 'csc_matrix', 'lil_matrix', 'array', 'asarray',
                'ascontiguousarray'):
            t = t[2][0]
        else:
            return t


def dense(t):
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('toarray', 'todense'):
        return True
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].startswith('numpy'):
        return True
    return t[:2] == ('call', ('sym', 'encoded'))


STACK = {'vstack', 'concatenate', 'append', 'row_stack', 'concat'}


def parts(I, st, t):
    """-> list of row blocks"""
    t = strip(t)
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in STACK and t[2]:
        kw = dict(t[3])
        if 'axis' in kw and text(kw['axis']) != 0:
            raise Undecided('concatenation along another axis')
        its = I.items(st, t[2][0])
        if its is None or len(t[2]) > 1:
            raise Undecided('concatenation of %s' % show(t)[:60])
        if t[1][1].startswith('scipy.sparse') and len(its) > 1 and all(dense(x) for x in its):
            raise Failure('dense matrices, which result from one-hot encoding, are concatenated as if they were sparse')
        if t[1][1].startswith('numpy') and any(not dense(x) for x in its):
            raise Failure('sparse matrices are concatenated as if they were dense')
        return [p for x in its for p in parts(I, st, x)]
    return [t]


def origin(t):
    """row block -> (kind, file, selection, encoder, meta)"""
    t = strip(t)
    sel = None
    enc = None
    while True:
        if t[0] == 'idx' and t[1][0] == 'call' and t[1][1][0] == 'ext' and t[1][1][1].split('.')[-1] == 'train_test_split':
            if t[2][0] != 'c' or sel is not None:
                raise Undecided('part %s' % show(t)[:60])
            call, i = t[1], t[2][2]
            if i < 0:
                i += 2 * len(call[2])
            if i // 2 >= len(call[2]):
                raise Undecided('part %s' % show(t)[:60])
            sel = ('part', ('random split', tuple(sorted(call[3]))), i % 2)
            t = strip(call[2][i // 2])
        elif t[0] == 'idx':
            if sel is not None:
                raise Undecided('selection %s' % show(t)[:60])
            k = t[2]
            if k[0] == 'tuple' and len(k[1]) == 2 and k[1][1] in (('c', 'ellipsis', Ellipsis), ('slice', pyabs.NONE, (pyabs.NONE,) * 3)):
                k = k[1][0]
            sel = ('rows', k)
            t = strip(t[1])
        elif t[0] == 'slice':
            raise Undecided('selection %s' % show(t)[:60])
        elif t[0] == 'call' and t[1] == ('sym', 'encoded'):
            enc = t[2][1]
            t = strip(t[2][0])
        elif t[0] == 'call' and t[1] in (('sym', 'features'), ('sym', 'outputs')):
            return t[1][1], text(t[2][0]) or show(t[2][0]), sel, enc, t[2][1] if len(t[2]) > 1 else None
        else:
            raise Undecided('data %s' % show(t)[:80])


class Split:
    """One call of the callback"""

    def __init__(self, I, st, e):
        self.I, self.st, self.e = I, st, e
        self.args = bind(st, PARAMS, e)
        self.origins = {n: [origin(p) for p in parts(I, st, self.args[n])] for n in PARAMS[2:]}

    def kind(self):
        for n in PARAMS[2:]:
            want = 'features' if n.endswith('_x') else 'outputs'
            if any(o[0] != want for o in self.origins[n]):
                return '%s are given as %s' % ('outputs' if want == 'features' else 'features', n)
        for n in ('train', 'test'):
            x = [o[1:3] for o in self.origins[n + '_x']]
            y = [o[1:3] for o in self.origins[n + '_y']]
            if x != y:
                return 'the features and outputs given for %sing are taken from different rows: %s and %s' % (
                    n, describe(x), describe(y))
        return None

    def encoders(self):
        encs = set()
        for n in ('train_x', 'test_x'):
            for o in self.origins[n]:
                encs.add(o[3])
        if len(encs) > 1:
            return 'the features are encoded by different encoders'
        if any(o[3] is not None for n in ('train_y', 'test_y') for o in self.origins[n]):
            return 'outputs are encoded'
        enc = next(iter(encs))
        meta = self.args['meta_data']
        encoded = meta[0] == 'call' and meta[1] == ('sym', 'encodedmeta')
        base = meta[2][0] if encoded else meta
        if base[0] != 'call' or base[1] != ('sym', 'meta'):
            raise Undecided('meta data %s' % show(meta)[:60])
        if encoded != (enc is not None):
            return 'the meta data does not describe the %s features' % ('encoded' if enc is not None else 'original')
        for n in PARAMS[2:]:
            for o in self.origins[n]:
                if o[4] is not None and o[4] != base:
                    return 'the data are loaded using the meta data of another data set'
                if o[4] is None and o[1] != (text(base[2][0]) or show(base[2][0])):
                    return 'the meta data of another data set is used'
        if enc is not None:
            src = origin(enc[2][0])
            if src[1] not in {o[1] for n in ('train_x', 'test_x') for o in self.origins[n]}:
                if src[1] != (text(base[2][0]) or show(base[2][0])):
                    return 'the features are encoded by the encoder of another data set'
        return None


def describe(x):
    return ', '.join('%s%s' % (f, '' if s is None else ' (%s)' % (s[-1] if isinstance(s[-1], int) else show(s[-1])[-40:]))
                     for f, s in x)


def run_splitter(rep, I, cls, data_set_args, kwargs):
    """-> [(state, [Split])] for all paths that do not raise an exception"""
    st = I.start()
    res = []
    for s, ds in I.call(st, I.cls(S, 'DataSet'), [], data_set_args, None):
        for s2, o in I.call(s, I.cls(S, cls), [], dict(kwargs, data_set=ds), None):
            n = len(s2.effects)
            for s3, r in I.call_method(s2, o, '_split_data', [CALLBACK]):
                if r[0] == 'raise':
                    continue
                calls = [e for e in s3.effects[n:] if e.kind == 'call' and e.target == ('attr', CALLBACK, 'train_and_evaluate')]
                if any(e.kind == 'noiter' for e in s3.effects[n:]) and not calls:
                    continue
                res.append((s3, calls))
    for a in I.analysed:
        rep.functions.add('.'.join(str(x) for x in a))
    return res


def method(I, st, o, name):
    rs = {r for _, r in I.call_method(st.fork(), o, name)}
    return next(iter(rs)) if len(rs) == 1 else None


def check_splits(rep):
    rep.file('python/subprojects/testbed/mlrl/testbed/data_splitting.py')
    seed = ('sym', 'seed')
    size = ('sym', 'size')
    for one_hot in (False, True):
        ds = {'data_dir': const('dir'), 'data_set_name': const('data'), 'use_one_hot_encoding': const(one_hot)}
        sfx = ', one-hot encoding' if one_hot else ''
        # no split
        one(rep, 'NoSplitter' + sfx, 'NoSplitter', ds, {}, no_split)
        for predefined in (False, True):
            what = 'TrainTestSplitter, %s split%s' % ('predefined' if predefined else 'random', sfx)
            one(rep, what, 'TrainTestSplitter', ds, {'test_size': size, 'random_state': seed},
                lambda sp, c, p=predefined: train_test(sp, c, p, size, seed), predefined)
        for folds in (2, 3, 10):
            for current in range(-1, folds):
                what = 'CrossValidationSplitter, predefined splits, %d folds%s%s' % (
                    folds, ', fold %d only' % (current + 1) if current >= 0 else '', sfx)
                one(rep, what, 'CrossValidationSplitter', ds,
                    {'num_folds': const(folds), 'current_fold': const(current), 'random_state': seed},
                    lambda sp, c, n=folds, k=current: predefined_folds(sp, c, n, k), True)
        for current in (-1, 0, 2):
            what = 'CrossValidationSplitter, random splits, %s%s' % ('fold %d only' % (current + 1) if current >= 0 else 'all folds', sfx)
            one(rep, what, 'CrossValidationSplitter', ds,
                {'num_folds': const(3), 'current_fold': const(current), 'random_state': seed},
                lambda sp, c, k=current: random_folds(sp, c, k, seed), False)


def one(rep, what, cls, ds, kw, rule, predefined=None):
    I = interpreter()
    if predefined is not None:
        I.overrides[('fn', S, 'check_if_files_exist')] = lambda self, st, a, k, n, e: [(st, const(predefined))]
    try:
        paths = run_splitter(rep, I, cls, ds, kw)
        if not paths:
            rep.violate(what, 'the data is never given to the experiment')
            return
        for st, calls in paths:
            splits = [Split(I, st, e) for e in calls]
            msg = None
            for s in splits:
                msg = msg or s.kind() or s.encoders()
            msg = msg or rule(splits, st)
            if msg:
                rep.violate(what, '%s: %s' % (what, msg))
                return
        rep.ok(what)
    except Failure as e:
        rep.violate(what, '%s: %s' % (what, e))
    except (Undecided, pyabs.Unsupported, KeyError) as e:
        rep.notes.append('%s: undecided (%s)' % (what, e))


def data_split(s, cls_separated, folds, fold):
    """the DataSplit given to the callback describes the split"""
    o = s.args['data_split']
    I, st = s.I, s.st
    if o[0] != 'ref':
        raise Undecided('data split %s' % show(o)[:60])
    want = {'is_train_test_separated': const(cls_separated), 'get_num_folds': const(folds), 'get_fold': fold,
            'is_cross_validation_used': const(folds > 1)}
    for n, v in want.items():
        got = method(I, st, o, n)
        if got is None:
            raise Undecided(n)
        if got != v:
            return '%s of the split is %s instead of %s' % (n, show(got)[:60], show(v)[:60])
    return None


def no_split(sp, st):
    if len(sp) != 1:
        return '%d instead of one model are trained' % len(sp)
    s = sp[0]
    for n in PARAMS[2:]:
        if [o[1:3] for o in s.origins[n]] != [('data.arff', None)]:
            return '%s is %s rather than the whole data set' % (n, describe([o[1:3] for o in s.origins[n]]))
    return data_split(s, False, 1, pyabs.NONE)


def train_test(sp, st, predefined, size, seed):
    if len(sp) != 1:
        return '%d instead of one model are trained' % len(sp)
    s = sp[0]
    for n in PARAMS[2:]:
        os_ = s.origins[n]
        if len(os_) != 1:
            return '%s consists of several parts' % n
        f, sel = os_[0][1:3]
        if predefined:
            want = 'data_training.arff' if n.startswith('train') else 'data_test.arff'
            if f != want:
                return '%s is loaded from %s instead of %s' % (n, f, want)
            if sel is not None:
                return 'a subset of the predefined split is used as %s' % n
        else:
            if f != 'data.arff':
                return '%s is loaded from %s' % (n, f)
            if sel is None:
                return 'the whole data set is used as %s' % n
            if sel[0] != 'part':
                raise Undecided('selection %s' % (sel,))
            if sel[2] != (0 if n.startswith('train') else 1):
                return 'the part of the data set reserved for %s is used as %s' % ('testing' if sel[2] else 'training', n)
            kw = dict(sel[1][1])
            if kw.get('test_size') != size and not ('train_size' in kw and kw['train_size'] == ('bin', '-', const(1), size)):
                return 'the size of the test set is %s rather than the specified one' % show(kw.get('test_size', pyabs.NONE))
            if kw.get('random_state') != seed:
                return 'the specified random state is not used for splitting the data'
    if not predefined and len({o[2][1] for n in PARAMS[2:] for o in s.origins[n]}) != 1:
        return 'the parts result from different splits'
    return data_split(s, True, 1, pyabs.NONE)


def predefined_folds(sp, st, n, current):
    want = list(range(n)) if current < 0 else [current]
    if len(sp) != len(want):
        return '%d instead of %d models are trained' % (len(sp), len(want))
    for s, fold in zip(sp, want):
        files = ['data_fold-%d.arff' % (i + 1) for i in range(n)]
        test = [o[1:3] for o in s.origins['test_x']]
        if test != [(files[fold], None)]:
            return 'fold %d is tested on %s' % (fold + 1, describe(test))
        train = [o[1:3] for o in s.origins['train_x']]
        if sorted(train, key=repr) != [(f, None) for f in sorted(files) if f != files[fold]]:
            return 'the training data of fold %d is %s' % (fold + 1, describe(train))
        msg = data_split(s, True, n, const(fold))
        if msg:
            return msg
        last = method(s.I, s.st, s.args['data_split'], 'is_last_fold')
        if last is None:
            raise Undecided('is_last_fold')
        if last != const(current < 0 and fold == n - 1):
            return 'is_last_fold of fold %d is %s' % (fold + 1, show(last))
    return None


def random_folds(sp, st, current, seed):
    if len(sp) > 1:
        raise Undecided('several models per iteration')
    for s in sp:
        o = s.origins
        sels = {n: [x[2] for x in o[n]] for n in PARAMS[2:]}
        if any(len(v) != 1 or v[0] is None for v in sels.values()):
            return 'the whole data set is used as %s' % next(n for n, v in sels.items() if len(v) != 1 or v[0] is None)
        idx = {n: v[0][1] for n, v in sels.items()}
        tr, te = idx['train_x'], idx['test_x']
        for k, i, n in ((tr, 0, 'training'), (te, 1, 'test')):
            if k[0] != 'idx' or k[2][0] != 'c' or k[1][0] != 'elem':
                raise Undecided('indices %s' % show(k)[:60])
            if k[2][2] % 2 != i:
                return 'the indices of %s examples are used to select the %s data' % (('test', 'training')[i], n)
        if tr[1] != te[1]:
            return 'training and test data belong to different folds'
        it = tr[1][1]
        if it[0] == 'call' and it[1] == ('builtin', 'enumerate'):
            it = it[2][0]
        if it[0] != 'call' or it[1][0] != 'attr' or it[1][2] != 'split':
            raise Undecided('folds %s' % show(it)[:60])
        k_fold = it[1][1]
        if k_fold[0] != 'call' or show(k_fold[1]).split('.')[-1] != 'KFold':
            raise Undecided('folds %s' % show(k_fold)[:60])
        kw = dict(k_fold[3])
        for name, v in zip(('n_splits', 'shuffle', 'random_state'), k_fold[2]):
            kw.setdefault(name, v)
        if kw.get('n_splits') != const(3):
            return 'the data is split into %s instead of %s folds' % (show(kw.get('n_splits', pyabs.NONE)), 3)
        if kw.get('shuffle') == pyabs.TRUE and kw.get('random_state') != seed:
            return 'the specified random state is not used for splitting the data'
        if origin(it[2][0])[1] != 'data.arff':
            raise Undecided('folds of %s' % show(it[2][0])[:60])
        fold = None
        for name in ('get_fold',):
            fold = method(s.I, s.st, s.args['data_split'], name)
        if fold is None or fold[0] not in ('index', 'c'):
            raise Undecided('fold %s' % show(fold or pyabs.NONE)[:60])
        if fold[0] == 'index' and fold[1] != it:
            raise Undecided('fold %s' % show(fold)[:60])
        if fold[0] == 'c' and (current < 0 or fold[2] != current):
            return 'the fold is always %s' % show(fold)
        msg = data_split(s, True, 3, fold)
        if msg:
            return msg
        # the fold that has been selected
        conds = [(k, v) for k, v in s.e.pc if any(x == fold or x == ('index', it, tr[1][2]) for x in pyabs.subterms(k))]
        if current < 0 and conds:
            return 'only some folds are used (%s)' % show(conds[0][0])[:80]
        if current >= 0:
            eq = [1 for k, v in conds if k[0] == 'cmp' and const(current) in k[2:] and
                  ((k[1] == '==' and v) or (k[1] == '!=' and not v))]
            if not eq and len(conds) == 0:
                return 'other folds than the specified one are used'
            if not eq:
                ks = [k for k, v in conds if k[0] == 'cmp' and k[1] in ('==', '!=')]
                if ks:
                    return 'another fold than the specified one is used (%s)' % show(ks[0])[-60:]
                raise Undecided('condition %s' % show(conds[0][0])[:80])
    return None


# ------------------------------------------------------------------ experiments

FIELDS = ('problem_type', 'base_learner', 'learner_name', 'data_splitter', 'pre_training_output_writers',
          'post_training_output_writers', 'pre_execution_hook', 'train_evaluation', 'test_evaluation', 'parameter_input',
          'persistence', 'fit_kwargs', 'predict_kwargs')
EVAL = ('problem_type', 'meta_data', 'data_split', 'data_type', 'train_time', 'learner', 'x', 'y')
V = {n: ('sym', n) for n in PARAMS}


def experiment(rep, what, separated, has, writers=False):
    I = make_interp()
    I.overrides[('fn', 'mlrl.common.arrays', 'is_sparse')] = lambda self, st, a, k, n, e: [
        (st, pyabs.FALSE if a[0] != strip(a[0]) else ('call', ('sym', 'is_sparse'), (a[0],), ()))]
    I.facts.append(lambda self, st, t: separated if t == ('call', ('attr', V['data_split'], 'is_train_test_separated'), (), ())
                   else None)
    st = I.start()
    kw = {}
    for f in FIELDS:
        kw[f] = ('sym', f)
    for f in ('train_evaluation', 'test_evaluation', 'parameter_input', 'persistence', 'pre_execution_hook'):
        if f not in has:
            kw[f] = pyabs.NONE
    I.facts.append(lambda self, st, t: (t[0] == 'cmp' and t[1] in ('is', '==') and pyabs.NONE in t[2:] and
                                        any(x[0] == 'sym' for x in t[2:])) and False if t[0] == 'cmp' and any(
        x in [('sym', f) for f in FIELDS] for x in t[2:]) and pyabs.NONE in t[2:] else None)
    pre, post = ('sym', 'pre-training output writer'), ('sym', 'post-training output writer')
    kw['pre_training_output_writers'] = st.new('list', items=[pre])
    kw['post_training_output_writers'] = st.new('list', items=[post])
    kw['fit_kwargs'] = st.new('dict', items=[(const('sparse_feature_value'), ('sym', 'fit value'))])
    kw['predict_kwargs'] = st.new('dict', items=[(const('sparse_feature_value'), ('sym', 'predict value'))])
    try:
        msgs = set()
        n_ok = 0
        for s, o in I.call(st, I.cls(EX, 'Experiment'), [], kw, None):
            for s2, r in I.call_method(s, o, 'train_and_evaluate', [V[n] for n in PARAMS]):
                if r[0] == 'raise':
                    continue
                n_ok += 1
                m = path_of_experiment(I, s2, separated, has, pre, post)
                if m:
                    msgs.add(m)
        for a in I.analysed:
            rep.functions.add('.'.join(str(x) for x in a))
        if not n_ok:
            rep.notes.append('%s: undecided (no path)' % what)
            return
        rep.check(not msgs, what, '%s: %s' % (what, sorted(msgs)[0] if msgs else ''))
    except (Undecided, pyabs.Unsupported) as e:
        rep.notes.append('%s: undecided (%s)' % (what, e))


def spread(I, st, e):
    """everything that is contained in the arguments of a call"""
    todo, seen = [e.args, e.kwargs], []
    while todo and len(seen) < 10000:
        t = todo.pop()
        if not isinstance(t, tuple):
            continue
        seen.append(t)
        if len(t) == 2 and t[0] == 'ref' and isinstance(t[1], int):
            todo += [x for x in st.heap[t[1]].get('items', ()) or ()]
        todo += list(t)
    return seen


def is_clone(t):
    return t[0] == 'call' and show(t[1]).split('.')[-1] == 'clone' and t[2][:1] == (('sym', 'base_learner'),)


def path_of_experiment(I, st, separated, has, pre, post):
    fits, evals, params, saves, loads, attrs = [], [], [], [], [], {}
    writes = []
    for i, e in enumerate(st.effects):
        if e.kind == 'call' and e.target[0] == 'attr':
            n, o = e.target[2], e.target[1]
            if n in ('fit', 'partial_fit'):
                fits.append((i, e))
            elif n == 'predict_and_evaluate':
                evals.append((i, e))
            elif n == 'set_params':
                params.append((i, e))
            elif n == 'save_model':
                saves.append((i, e))
            elif n == 'load_model':
                loads.append((i, e))
            elif n == 'write_output':
                writes.append((i, e))
        if e.kind in ('setattr', 'set') and e.target[0] == 'attr':
            attrs[e.target[2]] = e
    for _, e in fits:
        if is_clone(e.target[1]):
            pass
        elif e.target[1] == ('sym', 'base_learner'):
            return 'the original learner is fit instead of a clone'
        else:
            raise Undecided('learner %s' % show(e.target[1])[:60])
        a = bind(st, ('x', 'y'), e)
        for n in ('x', 'y'):
            if n not in a:
                raise Undecided('arguments of fit')
            if strip(a[n]) != V['train_' + n]:
                return 'the model is fit to %s' % show(strip(a[n]))[:60]
        if a.get('sparse_feature_value') != ('sym', 'fit value'):
            return 'the additional arguments are not passed to fit'
    for _, e in loads:
        a = bind(st, ('model_name', 'data_split'), e)
        if a.get('model_name') != ('sym', 'learner_name') or a.get('data_split') != V['data_split']:
            return 'the model of another split or learner is loaded'
    if loads and not (len(loads) == 1 and loads[0][1].target[1] == ('sym', 'persistence')):
        raise Undecided('several models are loaded')
    loaded = loads[0][1].result if loads else None
    if 'persistence' in has and not loads:
        return 'a stored model is not used'
    learners = set()
    for i, e in evals:
        a = bind(st, EVAL, e)
        which = 'train' if e.target[1] == ('sym', 'train_evaluation') else 'test' if e.target[1] == (
            'sym', 'test_evaluation') else None
        if which is None:
            raise Undecided('evaluation %s' % show(e.target[1])[:60])
        for n in ('x', 'y'):
            if strip(a[n]) != V[which + '_' + n]:
                return 'the %s evaluation is given %s as %s' % (which, show(strip(a[n]))[:60], n)
        want = 'TRAINING' if which == 'train' or not separated else 'TEST'
        if a['data_type'][0] != 'enum':
            raise Undecided('type of the data %s' % show(a['data_type'])[:60])
        if a['data_type'][2] != want:
            return 'the %s evaluation is told to deal with %s data' % (which, a['data_type'][2])
        for n in ('meta_data', 'data_split'):
            if a[n] != V[n]:
                return 'the %s evaluation is given another %s' % (which, n)
        if a.get('sparse_feature_value') != ('sym', 'predict value'):
            return 'the additional arguments are not passed to the %s evaluation' % which
        if which == 'train' and not separated:
            return 'predictions for the training data are evaluated twice'
        learners.add(a['learner'])
        if fits and i < fits[0][0]:
            return 'predictions are evaluated before the model is fit'
    for which in ('train', 'test'):
        if which + '_evaluation' in has and (which == 'test' or separated):
            if not any(e.target[1] == ('sym', which + '_evaluation') for _, e in evals):
                return 'the %s evaluation is omitted' % which
    if len(learners) > 1:
        return 'different models are evaluated'
    for l in learners:
        if l == loaded and loaded is not None:
            if fits:
                return 'a model is trained, but another one is evaluated'
        elif is_clone(l):
            if not fits:
                return 'a model that has not been trained is evaluated'
        elif l == ('sym', 'base_learner'):
            return 'the original learner is evaluated'
        else:
            raise Undecided('learner %s' % show(l)[:60])
    if fits and 'persistence' in has:
        if not any(i > fits[0][0] and e.target[1] == ('sym', 'persistence') for i, e in saves):
            return 'the model that has been trained is not stored'
    for i, e in saves:
        a = bind(st, ('model', 'model_name', 'data_split'), e)
        if not is_clone(a.get('model', pyabs.NONE)):
            return '%s is stored as the model' % show(a.get('model', pyabs.NONE))[:60]
        if a.get('model_name') != ('sym', 'learner_name') or a.get('data_split') != V['data_split']:
            return 'the model is stored for another split or learner'
        if not fits or i < fits[0][0]:
            return 'a model that has not been trained is stored'
    if 'parameter_input' in has:
        reads = [e for e in st.effects if e.kind == 'call' and e.target == ('attr', ('sym', 'parameter_input'), 'read_parameters')]
        if not reads:
            return 'the parameters for this split are not read'
        if any(bind(st, ('data_split',), e).get('data_split') != V['data_split'] for e in reads):
            return 'the parameters of another split are read'
    first = min([i for i, _ in fits + evals], default=len(st.effects))
    if 'parameter_input' in has and reads[0].result is not None and st.pc.get(reads[0].result) is not False:
        if not any(i < first and is_clone(e.target[1]) and reads[0].result in spread(I, st, e) for i, e in params):
            return 'the parameters for this split are not applied'
    if loaded is not None and loaded in learners:
        def current(t):
            return t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get_params' and is_clone(t[1][1])
        if not any(i < first and e.target[1] == loaded and any(current(t) for t in spread(I, st, e)) for i, e in params):
            return 'the parameters of the learner are not applied to the model that is loaded'
    for i, e in params:
        if is_clone(e.target[1]) and fits and i > fits[0][0]:
            return 'parameters are set after the model has been fit'
    for k, n in (('ORDINAL', 'ordinal_feature_indices'), ('NOMINAL', 'nominal_feature_indices')):
        v = st.symattrs.get((fits[0][1].target[1], n)) if fits else None
        if v is not None:
            s = repr(v)
            if "'%s'" % k not in s and v[0] != 'call':
                raise Undecided(n)
            if v[0] == 'call' and v[1] == ('attr', V['meta_data'], 'get_feature_indices'):
                its = [x for a in v[2] + tuple(b for _, b in v[3]) for x in (I.items(st, a) or ())]
                if [x[2] for x in its if x[0] == 'enum'] != [k]:
                    return '%s are the features of type %s' % (n, [x[2] for x in its if x[0] == 'enum'])
    for i, e in writes:
        a = bind(st, ('problem_type', 'meta_data', 'x', 'y', 'data_split', 'learner'), e)
        if strip(a['x']) != V['train_x'] or strip(a['y']) != V['train_y'] or a['data_split'] != V['data_split'] or \
                a['meta_data'] != V['meta_data']:
            return 'an output writer is given other data than the training data of this split'
        if e.target[1] == post and learners and a['learner'] not in learners:
            return 'an output writer is given another model than the one that is evaluated'
    return None


def check_experiment(rep):
    rep.file('python/subprojects/testbed/mlrl/testbed/experiments.py')
    for separated in (True, False):
        for has in (('test_evaluation',), ('train_evaluation',), ('train_evaluation', 'test_evaluation', 'persistence'),
                    ('train_evaluation', 'test_evaluation', 'parameter_input')):
            experiment(rep, 'Experiment.train_and_evaluate, %s, %s' % ('separate test data' if separated else 'no split',
                                                                    ', '.join(has)), separated, has)


def check_evaluation(rep):
    """the predictions given to the output writers belong to the given features, and are of the specified type"""
    wnames = ('problem_type', 'meta_data', 'x', 'y', 'data_split', 'learner', 'data_type', 'prediction_type', 'prediction_scope',
              'predictions', 'train_time', 'predict_time')
    for cls in ('GlobalEvaluation', 'IncrementalEvaluation'):
        for member in ('BINARY', 'SCORES', 'PROBABILITIES'):
            what = '%s, predictions of type %s' % (cls, member)
            I = make_interp()
            st = I.start()
            writer = ('sym', 'output writer')
            ptype = I.enum_member(I.cls('mlrl.testbed.prediction_scope', 'PredictionType'), member)
            kw = {'prediction_type': ptype, 'output_writers': st.new('list', items=[writer])}
            if cls == 'IncrementalEvaluation':
                kw.update({n: ('sym', n) for n in ('min_size', 'max_size', 'step_size')})
            learner = ('sym', 'learner')
            args = {n: ('sym', n) for n in EVAL}
            args['sparse_feature_value'] = ('sym', 'value')
            try:
                msgs, seen = set(), 0
                for s, o in I.call(st, I.cls(EX, cls), [], kw, None):
                    for s2, r in I.call_method(s, o, 'predict_and_evaluate', [], args):
                        if r[0] == 'raise':
                            continue
                        for e in s2.effects:
                            if e.kind == 'call' and e.target == ('attr', writer, 'write_output'):
                                a = bind(s2, wnames, e)
                                m = one_evaluation(I, s2, a, cls, member, ptype)
                                if m:
                                    msgs.add(m)
                                seen += 1
                for a in I.analysed:
                    rep.functions.add('.'.join(str(x) for x in a))
                if not seen:
                    rep.violate(what, '%s: predictions are never given to the output writers' % what)
                else:
                    rep.check(not msgs, what, '%s: %s' % (what, sorted(msgs)[0] if msgs else ''))
            except (Undecided, pyabs.Unsupported, KeyError) as e:
                rep.notes.append('%s: undecided (%s)' % (what, e))


class Predictor(pyabs.Interp):
    """Interpretation with a model of an incremental predictor that stores how many members have been used already"""
    total = 0
    counter = None

    def unknown_call(self, st, f, args, kwargs, node, env):
        if f[0] == 'attr' and f[1] == ('sym', 'learner') and 'incrementally' in f[2]:
            return [(st, ('sym', 'predictor'))]
        if f[0] == 'attr' and f[1] == ('sym', 'predictor'):
            used = st.heap[self.counter[1]]['items'][0][2]
            if f[2] == 'get_num_next':
                return [(st, const(self.total - used))]
            if f[2] == 'has_next':
                return [(st, const(used < self.total))]
            if f[2] == 'apply_next':
                k = args[0] if args else dict(kwargs).get('step_size')
                if k is None or k[0] != 'c':
                    raise Undecided('step size %s' % (k and show(k)[:60]))
                if used >= self.total or k[2] < 1:
                    return [(st, ('raise', ('sym', 'exception')))]
                used = min(used + k[2], self.total)
                st.heap[self.counter[1]]['items'] = [const(used)]
                return [(st, ('call', ('sym', 'prediction'), (const(used),), ()))]
        return super().unknown_call(st, f, args, kwargs, node, env)


def check_sizes(rep):
    """sizes of the models that are evaluated incrementally"""
    for lo, hi, step, total in ((0, 0, 1, 4), (0, 0, 2, 5), (0, 0, 2, 4), (3, 0, 2, 8), (2, 5, 2, 9), (2, 6, 2, 9), (0, 4, 3, 10),
                                (5, 7, 1, 10), (0, 0, 50, 5), (9, 0, 1, 5), (1, 0, 4, 10), (1, 100, 4, 10), (2, 3, 5, 10), (0, 4, 6, 10),
                                (0, 0, 1, 0)):
        what = 'IncrementalEvaluation, min_size=%d, max_size=%d, step_size=%d, %d members' % (lo, hi, step, total)
        I = Predictor()
        I.fork_exceptions = False
        I.overrides[('fn', 'mlrl.testbed.format', 'format_duration')] = lambda self, st, a, k, n, e: [(st, ('sym', 'duration'))]
        I.facts.append(lambda self, st, t: False if t[0] == 'cmp' and t[1] in ('is', '==') and pyabs.NONE in t[2:] else
                       True if t[0] == 'call' and t[1] in (('builtin', 'isinstance'), ('builtin', 'callable')) else None)
        st = I.start()
        I.total = total
        I.counter = st.new('list', items=[const(0)])
        writer = ('sym', 'output writer')
        try:
            ptype = I.enum_member(I.cls('mlrl.testbed.prediction_scope', 'PredictionType'), 'BINARY')
            kw = {'prediction_type': ptype, 'output_writers': st.new('list', items=[writer]),
                  'min_size': const(lo), 'max_size': const(hi), 'step_size': const(step)}
            res = set()
            raised = 0
            for s, o in I.call(st, I.cls(EX, 'IncrementalEvaluation'), [], kw, None):
                for s2, r in I.call_method(s, o, 'predict_and_evaluate', [], {n: ('sym', n) for n in EVAL}):
                    if r[0] == 'raise':
                        raised += r[1] == ('sym', 'exception')
                        continue
                    sizes = []
                    for e in s2.effects:
                        if e.kind == 'call' and e.target == ('attr', writer, 'write_output'):
                            a = bind(s2, WRITER, e)
                            for s3, k in I.call_method(s2.fork(), a['prediction_scope'], 'get_model_size'):
                                p = a['predictions']
                                if k[0] != 'c' or p[0] != 'call' or p[1] != ('sym', 'prediction'):
                                    raise Undecided('size %s of %s' % (show(k)[:40], show(p)[:40]))
                                sizes.append((k[2], p[2][0][2]))
                    res.add(tuple(sizes))
            for a in I.analysed:
                rep.functions.add('.'.join(str(x) for x in a))
            if not res and not raised:
                raise Undecided('no path')
            if len(res) > 1:
                raise Undecided('several paths')
            if raised:
                rep.violate(what, '%s: more predictions are requested than available' % what)
                continue
            sizes = next(iter(res))
            last = min(total, hi) if hi > 0 else total
            want = []
            size = min(lo if lo > 0 else step, last)
            while size > (want[-1] if want else 0):
                want.append(size)
                size = min(size + step, last)
            msg = None
            for k, p in sizes:
                if k != p:
                    msg = msg or 'predictions of a model of size %s are reported for size %s' % (p, k)
            if not msg and [k for k, _ in sizes] != want:
                msg = 'models of the sizes %s instead of %s are evaluated' % ([k for k, _ in sizes], want)
            rep.check(msg is None, what, '%s: %s' % (what, msg))
        except (Undecided, pyabs.Unsupported, KeyError) as e:
            rep.notes.append('%s: undecided (%s)' % (what, e))


WRITER = ('problem_type', 'meta_data', 'x', 'y', 'data_split', 'learner', 'data_type', 'prediction_type', 'prediction_scope',
          'predictions', 'train_time', 'predict_time')


def one_evaluation(I, st, a, cls, member, ptype):
    for n in ('x', 'y', 'meta_data', 'data_split', 'data_type', 'problem_type', 'train_time', 'learner'):
        if a.get(n) != ('sym', n):
            return '%s is given to the output writers as %s' % (show(a.get(n, pyabs.NONE))[:60], n)
    if a.get('prediction_type') != ptype:
        return 'the output writers are given another type of predictions'
    p = a['predictions']
    if cls == 'IncrementalEvaluation':
        if p[0] != 'call' or p[1][0] != 'attr' or p[1][2] != 'apply_next':
            raise Undecided('predictions %s' % show(p)[:60])
        p = p[1][1]
    if p[0] != 'call' or p[1][0] != 'attr':
        raise Undecided('predictions %s' % show(p)[:60])
    if p[1][1] != ('sym', 'learner'):
        return 'predictions are obtained from another learner'
    name = 'predict_proba' if member == 'PROBABILITIES' else 'predict'
    if cls == 'IncrementalEvaluation':
        name += '_incrementally'
    if p[1][2] != name:
        return 'predictions are obtained via %s' % p[1][2]
    if p[2][:1] != (('sym', 'x'),) and dict(p[3]).get('x') != ('sym', 'x'):
        return 'predictions are obtained for other examples'
    kw = dict(p[3])
    if kw.get('sparse_feature_value') != ('sym', 'value'):
        return 'additional arguments are not passed to %s' % name
    scores = kw.get('predict_scores', pyabs.FALSE)
    if member == 'BINARY' and scores != pyabs.FALSE:
        return 'scores are predicted'
    if member == 'SCORES' and scores != pyabs.TRUE:
        classifier = [v for k, v in st.pc.items() if "'ClassifierMixin'" in repr(k) and k[0] != 'not']
        if not classifier:
            raise Undecided('type of the learner')
        if classifier[0]:
            return 'a classifier is not asked for scores'
    return None


def check_files(rep):
    """Models and parameters of different splits are stored in different files, and are loaded from the same ones."""
    rep.file('python/subprojects/testbed/mlrl/testbed/persistence.py')
    rep.file('python/subprojects/testbed/mlrl/testbed/parameters.py')
    import itertools
    saved, loaded = {}, {}
    for name, fold in itertools.product(('learner', 'other'), (None, 0, 1, 8, 9, 10)):
        for m, table in (('save_model', saved), ('load_model', loaded)):
            I = pyabs.Interp()
            st = I.start()
            for s0, sp in I.call(st, I.cls(S, 'CrossValidationFold' if fold is not None else 'TrainingTestSplit'), [],
                                 {'num_folds': const(11), 'fold': const(fold), 'current_fold': const(-1)} if fold is not None
                                 else {}, None):
                for s, o in I.call(s0, I.cls('mlrl.testbed.persistence', 'ModelPersistence'), [const('dir')], {}, None):
                    args = [const(name), sp] if m == 'load_model' else [('sym', 'model'), const(name), sp]
                    for s2, r in I.call_method(s, o, m, args):
                        opens = [e for e in s2.effects if e.kind == 'call' and e.target in (('builtin', 'open'), ('ext', 'open'),
                                                                                          ('ext', 'io.open'))]
                        for e in opens:
                            table.setdefault((name, fold), set()).add(e.args[0] if e.args else dict(e.kwargs).get('file'))
                        if m == 'save_model' and opens:
                            for e in s2.effects:
                                if e.kind == 'call' and show(e.target).split('.')[-1] == 'dump':
                                    rep.check(e.args[0] == ('sym', 'model'), 'ModelPersistence.save_model stores the model',
                                              'ModelPersistence.save_model stores %s' % show(e.args[0])[:60])
            for a in I.analysed:
                rep.functions.add('.'.join(str(x) for x in a))
    for k in saved:
        if not saved.get(k) or not loaded.get(k) or any(x is None for x in saved[k] | loaded[k]):
            rep.notes.append('files of models: undecided')
            return
        rep.check(saved[k] == loaded[k], 'model %s is loaded from the file it is stored in' % (k,),
                  'the model of fold %s is loaded from another file than it is stored in: %s' % (
                      k[1], show(next(iter(loaded[k])))))
        others = [o for o in saved if o != k and saved[o] & saved[k]]
        rep.check(not others, 'model %s has a file of its own' % (k,), 'the models %s and %s are stored in the same file' % (
            k, others[0] if others else None))


def check_runnable(rep):
    """the argument --data-split selects the splitter, and its options are passed to it"""
    R = 'mlrl.testbed.runnables'
    rep.file('python/subprojects/testbed/mlrl/testbed/runnables.py')
    I = pyabs.Interp()
    found = []
    for n in I.module(R).tree.body:
        for f in n.body if isinstance(n, ast.ClassDef) else ():
            if isinstance(f, ast.FunctionDef) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                                                      x.func.id == 'CrossValidationSplitter' for x in ast.walk(f)):
                found.append((n.name, f))
    cases = {'none': ('NoSplitter', {}),
             'train-test': ('TrainTestSplitter', {'test_size': 0.33, 'random_state': 7}),
             'train-test{test_size=0.25}': ('TrainTestSplitter', {'test_size': 0.25, 'random_state': 7}),
             'cross-validation': ('CrossValidationSplitter', {'num_folds': 10, 'current_fold': -1, 'random_state': 7}),
             'cross-validation{num_folds=5}': ('CrossValidationSplitter', {'num_folds': 5, 'current_fold': -1}),
             'cross-validation{num_folds=5,current_fold=1}': ('CrossValidationSplitter', {'num_folds': 5, 'current_fold': 0}),
             'cross-validation{num_folds=5,current_fold=5}': ('CrossValidationSplitter', {'num_folds': 5, 'current_fold': 4}),
             'cross-validation{num_folds=5,current_fold=6}': None,
             'cross-validation{num_folds=1}': None,
             'train-test{test_size=1.0}': None,
             'train-test{test_size=0}': None}
    if not found:
        rep.notes.append('--data-split: undecided')
    for cname, f in found:
        for value, want in cases.items():
            what = '--data-split %s' % value
            I = pyabs.Interp()
            cls = I.cls(R, cname)
            st = I.start()
            o = st.new('obj', cls=cls, attrs={})
            args = ('sym', 'args')
            params = {'data_split': const(value), 'random_state': const('7'), 'data_dir': ('sym', 'dir'),
                      'dataset': ('sym', 'name'), 'one_hot_encoding': ('sym', 'one hot')}
            for k, v in params.items():
                st.symattrs[(args, k)] = v
            nparams = len(f.args.args) - (0 if any('static' in ast.dump(d) for d in f.decorator_list) else 1)
            if nparams != 1:
                rep.notes.append(what + ': undecided')
                continue
            I.fork_exceptions = False
            try:
                rs = I.call_method(st, o, f.name if not f.name.startswith('__') else '_%s%s' % (cname.lstrip('_'), f.name), [args])
            except pyabs.Unsupported as e:
                rep.notes.append('%s: undecided (%s)' % (what, e))
                continue
            for a in I.analysed:
                rep.functions.add('.'.join(str(x) for x in a))
            ok = [(s, r) for s, r in rs if r[0] != 'raise']
            if any(r[0] != 'ref' for _, r in ok):
                rep.notes.append('%s: undecided' % what)
                continue
            if want is None:
                rep.check(not ok, what, '%s is not rejected' % what)
                continue
            rep.check(bool(ok), what, '%s is rejected' % what)
            for s, r in ok:
                h = s.heap[r[1]]
                if h['cls'][2] != want[0]:
                    rep.violate(what, '%s selects %s' % (what, h['cls'][2]))
                    continue
                for k, v in want[1].items():
                    g = h['attrs'].get(k)
                    if g is not None and g[0] == 'c' and g[2] != v:
                        rep.violate(what, '%s: %s is set to %s' % (what, k, g[2]))
                    elif g is None or g[0] != 'c':
                        rep.notes.append('%s: undecided (%s)' % (what, k))
                d = h['attrs'].get('data_set')
                if d is not None and d[0] == 'ref':
                    da = s.heap[d[1]]['attrs']
                    for k, n in (('data_dir', 'data_dir'), ('data_set_name', 'dataset'), ('use_one_hot_encoding', 'one_hot_encoding')):
                        rep.check(da.get(k) == params[n], '%s: %s' % (what, k), '%s: %s is not the one that has been specified' % (what, k))


def analyse(rep, tier):
    rep.guard(check_splits)
    rep.guard(check_experiment)
    rep.guard(check_evaluation)
    rep.guard(check_sizes)
    rep.guard(check_files)
    rep.guard(check_runnable)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C16', RULE, 'other', {}, analyse, 12)
