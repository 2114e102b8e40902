"""C19: every prediction method returns what the predictor of the requested kind predicts for the fitted model."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import arrays
import est
import prog
import pyabs
import report
from est import X, Y, call_name, strip

RULE = ('For every estimator, the methods for prediction are interpreted abstractly (after an abstract interpretation of '
        'fit) through the Python and Cython layers down to the calls on the C++ learner. On every path that does not raise, '
        'the returned value must be the matrix that is predicted by a single predictor of the requested kind, which has '
        'been created for the query examples, the fitted model, the output space information, the marginal and the joint '
        'calibration model (in this order), and the number of outputs obtained from fit. Learners that are not able to '
        'provide predictions of the requested kind must raise. Incremental predictors must use the same predictor and '
        'consider as many rules as requested, up to the available ones.')

# attribute of the estimator -> (method of the training result, function that converts it)
RESULT = {'num_outputs_': ('getNumOutputs', None),
          'model_': ('getRuleModel', 'create_rule_model'),
          'output_space_info_': ('getOutputSpaceInfo', 'create_output_space_info'),
          'marginal_probability_calibration_model_': ('getMarginalProbabilityCalibrationModel',
                                                      'create_marginal_probability_calibration_model'),
          'joint_probability_calibration_model_': ('getJointProbabilityCalibrationModel',
                                                   'create_joint_probability_calibration_model')}

# kind -> (creation method, test method, kinds of arguments, element type)
FULL = ('X', 'getRuleModel', 'getOutputSpaceInfo', 'getMarginalProbabilityCalibrationModel',
        'getJointProbabilityCalibrationModel', 'getNumOutputs')
KINDS = {
    'binary': ('createBinaryPredictor', 'canPredictBinary', FULL, 'uint8'),
    'sparse': ('createSparseBinaryPredictor', 'canPredictBinary', FULL, 'uint8'),
    'scores': ('createScorePredictor', 'canPredictScores', ('X', 'getRuleModel', 'getOutputSpaceInfo', 'getNumOutputs'),
               'float64'),
    'proba': ('createProbabilityPredictor', 'canPredictProbabilities', FULL, 'float64'),
}

# (method, keyword arguments, kind, documented for classifiers only)
METHODS = [('predict', {}, 'binary'), ('predict', {'predict_scores': True}, 'scores'), ('predict_proba', {}, 'proba')]
REGRESSION = [('predict', {}, 'scores')]


def source(t):
    """What an argument of the creation of a predictor stands for."""
    t = strip(t)
    n = call_name(t)
    if n in ('createCContiguousFeatureMatrix', 'createCsrFeatureMatrix'):
        return 'X' if X in pyabs.subterms(t) else None
    if n and n.startswith('get_') and n.endswith('_ptr') and t[1][0] == 'attr':
        t = strip(t[1][1])
        n = call_name(t)
    if n and n.startswith('create_') and len(t[2]) == 1:
        a = strip(t[2][0])
        m = call_name(a)
        for getter, conv in RESULT.values():
            if m == getter:
                return getter if conv == n else '%s(%s)' % (n, m)
    if n in ('getNumOutputs',):
        return n
    return None


def calls(t, name):
    return {x for x in pyabs.subterms(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == 'call' and
            call_name(x) == name}


def unwrap(t):
    """Removes numpy wrappers that return the same matrix."""
    while t[0] == 'call' and arrays.ext(t[1]) in ('asarray', 'array', 'ascontiguousarray', 'asanyarray') and t[2]:
        t = t[2][0]
    return t


def nonempty(t, st):
    """Resolves conditions on whether there are any dense elements."""
    t = unwrap(t)
    while t[0] == 'cond':
        c, yes = t[1], True
        while c[0] == 'not':
            c, yes = c[1], not yes
        if c[0] == 'cmp' and c[1] == '<' and c[2] == pyabs.const(0) and call_name(c[3]) == 'getNumDenseElements':
            pass
        elif call_name(c) == 'getNumDenseElements':
            pass
        elif c[0] == 'cmp' and c[1] == '==' and call_name(c[2]) == 'getNumDenseElements' and c[3] == pyabs.const(0):
            yes = not yes
        else:
            raise Undecided('condition %s' % pyabs.show(c)[:60])
        t = unwrap(t[2] if yes else t[3])
    return t


def no_dense_elements(st, M):
    """Whether a path is restricted to matrices without any dense elements."""
    for c, v in st.pc.items():
        while c[0] == 'not':
            c, v = c[1], not v
        n = 'getNumDenseElements'
        if c[0] == 'cmp' and is_call(c[2], M, n) and c[1] in ('==', '<=') and c[3] == pyabs.const(0):
            return v
        if c[0] == 'cmp' and c[1] == '<' and c[2] == pyabs.const(0) and is_call(c[3], M, n) or is_call(c, M, n):
            return not v
    return False


class Failed(Exception):
    pass


class Undecided(Exception):
    pass


def matrix(t, kind, incremental, st):
    """-> the C++ prediction matrix the returned value consists of"""
    t = unwrap(t)
    n = call_name(t)
    if kind == 'sparse':
        if n not in ('csr_array', 'csr_matrix'):
            raise Failed('returns %s instead of a sparse matrix' % (n or t[0]))
        comp, kw = t[2][0], dict(t[3])
        if comp[0] != 'tuple' or len(comp[1]) != 3:
            raise Undecided('components of the sparse matrix: %s' % pyabs.show(t)[:80])
        data, ind, ptr = (unwrap(nonempty(c, st)) for c in comp[1])
        arr = []
        for c, getter in ((ptr, ('getIndptr', 'releaseIndptr')), (ind, ('getIndices', 'releaseIndices'))):
            if c is ind and c[0] in ('ref', 'tuple') and no_dense_elements(st, arr[0][0]):
                items = st.heap[c[1]]['items'] if c[0] == 'ref' else c[1]
                if items:
                    raise Failed('uses column indices, although there are no dense elements')
                arr.append(None)
                continue
            if c[0] != 'call' or len(c[2]) != 2:
                raise Undecided('components of the sparse matrix: %s' % pyabs.show(t)[:80])
            g = c[2][0]
            if call_name(g) not in getter:
                raise Failed('passes %s instead of %s to the sparse matrix' % (pyabs.show(g)[-30:], getter[0]))
            if call_name(g).startswith('release') == incremental:
                raise Failed('%s the memory of the predicted matrix' % ('takes' if incremental else 'does not take'))
            arr.append((strip(g[1][1]), c[2][1]))
        M = arr[0][0]
        if arr[1] is not None and arr[1][0] != M:
            raise Failed('uses the indices and the row pointers of different matrices')
        if arr[1] is not None and not is_call(arr[1][1], M, 'getNumDenseElements'):
            raise Failed('does not use the number of dense elements for the number of indices')
        p = arr[0][1]
        if not (p[0] == 'bin' and p[1] == '+' and (is_call(p[2], M, 'getNumRows') and p[3] == pyabs.const(1) or
                                                   is_call(p[3], M, 'getNumRows') and p[2] == pyabs.const(1))):
            raise Failed('does not use one row pointer per row and an additional one')
        sh = kw.get('shape')
        if sh is None or sh[0] != 'tuple' or len(sh[1]) != 2:
            raise Undecided('shape of the sparse matrix')
        if not (is_call(sh[1][0], M, 'getNumRows') and is_call(sh[1][1], M, 'getNumCols')):
            raise Failed('does not use the numbers of rows and columns as the shape of the matrix')
        if arrays.ext(data[1]) if data[0] == 'call' else False:
            if arrays.ext(data[1]) not in ('ones', 'ones_like', 'full'):
                raise Failed('uses %s for the values of the relevant labels' % arrays.ext(data[1]))
        return M
    ty = KINDS[kind][3]
    if n is None or not (n.startswith('c_matrix_') or n.startswith('c_view_')):
        if t[0] in ('bin', 'cmp', 'slice', 'idx', 'not', 'c'):
            raise Failed('returns %s' % pyabs.show(t)[:60])
        raise Undecided('returned value %s' % pyabs.show(t)[:60])
    if not n.endswith(ty):
        raise Failed('returns a matrix of type %s instead of %s' % (n.split('_')[-1], ty))
    if len(t[2]) != 3 or call_name(t[2][0]) not in ('get', 'release'):
        raise Undecided('arguments of the matrix')
    M = strip(t[2][0][1][1])
    if (call_name(t[2][0]) == 'release') == incremental:
        raise Failed('%s the memory of the predicted matrix' % ('takes' if incremental else 'does not take'))
    if not (is_call(t[2][1], M, 'getNumRows') and is_call(t[2][2], M, 'getNumCols')):
        raise Failed('does not use the numbers of rows and columns as the shape of the matrix')
    return M


def is_call(t, obj, name):
    return t[0] == 'call' and call_name(t) == name and t[1][0] == 'attr' and strip(t[1][1]) == obj


def created(t, kind):
    """Checks the creation of the predictor."""
    t = strip(t)
    create, _, args, _ = KINDS[kind]
    n = call_name(t)
    if n != create:
        if n and n.startswith('create') and n.endswith('Predictor'):
            raise Failed('uses %s() instead of %s()' % (n, create))
        raise Undecided('creation of the predictor: %s' % pyabs.show(t)[:60])
    if len(t[2]) != len(args):
        raise Failed('passes %d arguments to %s()' % (len(t[2]), create))
    for a, want in zip(t[2], args):
        got = source(a)
        if got != want:
            raise Failed('passes %s instead of %s to %s()' % (got or pyabs.show(a)[:60], 'the query examples'
                                                              if want == 'X' else 'the result of ' + want, create))


def value_of(t, env):
    """Value of an arithmetic term for given values of its symbols."""
    for k, v in env.items():
        if k(t):
            return v
    if t[0] == 'c':
        return t[2]
    if t[0] == 'bin':
        a, b = value_of(t[2], env), value_of(t[3], env)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[t[1]]()
    if t[0] == 'cmp':
        a, b = value_of(t[2], env), value_of(t[3], env)
        return {'==': a == b, '<': a < b, '<=': a <= b}[t[1]]
    if t[0] == 'not':
        return not value_of(t[1], env)
    if t[0] == 'cond':
        return value_of(t[2] if value_of(t[1], env) else t[3], env)
    if t[0] == 'call' and t[1][0] == 'builtin' and t[1][1] in ('min', 'max', 'int', 'abs'):
        return {'min': min, 'max': max, 'int': int, 'abs': abs}[t[1][1]](*[value_of(a, env) for a in t[2]])
    raise Undecided('number of rules %s' % pyabs.show(t)[:60])


def proba(t, pc, incremental, st):
    """Removes the conversion of probabilities of a single label into those of both classes. -> (matrix, converted)"""
    if t[0] == 'call' and arrays.ext(t[1]) in ('hstack', 'concatenate', 'column_stack') and t[2]:
        a = t[2][0]
        parts = a[1] if a[0] == 'tuple' else st.heap[a[1]].get('items') if a[0] == 'ref' else None
        if parts is None or len(parts) != 2:
            raise Undecided('conversion of probabilities')
        neg, pos = parts
        if neg == ('bin', '-', pyabs.const(1), pos):
            return pos, True
        raise Failed('returns %s as the probabilities of the negative and the positive class' % ', '.join(
            re_show(p) for p in parts))
    return t, False


def re_show(t):
    return '1 - P' if t[0] == 'bin' else 'P'


def single(pc, P):
    """Whether a path is restricted to a single label (None if it is not restricted)."""
    for k, v in pc.items():
        while k[0] == 'not':
            k, v = k[1], not v
        if k[0] == 'cmp' and k[1] == '==' and k[3] == pyabs.const(1):
            s = k[2]
            if s[0] == 'idx' and s[2] == pyabs.const(1) and s[1][0] == 'attr' and s[1][2] == 'shape' and s[1][1] == P:
                return v
            if call_name(s) == 'getNumCols' and s in pyabs.subterms(P):
                return v
    return None


def check_result(r, st, kind, incremental):
    """-> (C++ matrix)"""
    if kind == 'proba':
        r, conv = proba(r, st.pc, incremental, st)
        s = single(st.pc, r)
        if s is None:
            raise Failed('does not distinguish between a single label and several ones' + (
                ', but always returns the probabilities of two classes' if conv else ''))
        if s != conv:
            raise Failed('returns %s' % ('probabilities of a single class in the case of a single label' if s else
                                         'the probabilities of both classes in the case of several labels'))
    return matrix(r, kind, incremental, st)


def fitted(rep, E, key):
    """-> fitted estimators: (state, object)"""
    res = []
    for fmt in ('dense', 'sparse'):
        for s, o in E.new(prediction_format=fmt, feature_format='dense', output_format='dense'):
            states = E.fit(s, o)
            for s2 in states:
                bad = None
                attrs = s2.heap[o[1]]['attrs']
                fits = est.fit_calls(s2)
                if len(fits) != 1:
                    rep.violate(key + '.fit', '%s.fit() invokes the algorithm %d times' % (key, len(fits)))
                    continue
                F = fits[0].result
                for a, (getter, conv) in RESULT.items():
                    v = attrs.get(a)
                    if v is None:
                        rep.violate('%s.%s' % (key, a), '%s.fit() does not set the attribute %s' % (key, a))
                        continue
                    g = calls(v, getter)
                    ok = len(g) == 1 and source_of_result(v) == (getter, conv) and F in pyabs.subterms(v)
                    rep.check(ok, '%s.%s %s' % (key, a, fmt),
                              '%s.fit() sets the attribute %s to %s instead of the result of %s()' % (
                                  key, a, pyabs.show(v)[:60], getter))
                s2.effects = []
                res.append((s2, o, fmt))
    return res


def source_of_result(t):
    t = strip(t)
    n = call_name(t)
    if n and n.startswith('create_') and len(t[2]) == 1:
        return call_name(strip(t[2][0])), n
    return n, None


def kw_terms(kw):
    return {k: pyabs.const(v) if not isinstance(v, tuple) else v for k, v in kw.items()}


def attempt(rep, key, f):
    try:
        msg = f()
    except Failed as e:
        msg = str(e)
    except Undecided as e:
        rep.notes.append('%s: undecided (%s)' % (key, e))
        return False
    except pyabs.Unsupported as e:
        rep.notes.append('%s: undecided (%s)' % (key, e))
        return False
    rep.check(msg is None, key, '%s: %s' % (key, msg))
    return True


def supported(pc, test, kind):
    """Whether a path is one on which the learner is able to predict (None if it has not been asked)."""
    for k, v in pc.items():
        while k[0] == 'not':
            k, v = k[1], not v
        n = call_name(k) if k[0] == 'call' else None
        if n and n.startswith('canPredict') and n != 'canPredictIncrementally':
            if n != test:
                raise Failed('asks %s() before predicting %s' % (n, kind))
            a = k[2]
            if len(a) != 2 or source(a[0]) != 'X' or source(a[1]) != 'getNumOutputs':
                raise Failed('passes %s to %s()' % (', '.join(str(source(x)) for x in a), test))
            return v
    return None


def check_whole(rep, E, st, o, fmt, method, kw, kind):
    key = '%s.%s(%s) %s' % (E.name, method, ', '.join(kw), fmt)
    K = 'sparse' if kind == 'binary' and fmt == 'sparse' else kind
    M = ('sym', 'M')

    for limit in (True, False):
        k2 = dict(kw_terms(kw), **({'max_rules': M} if limit else {}))

        def run():
            done = unsupported = 0
            for s, r in E.I.call_method(st.fork(), o, method, [X], k2):
                if r[0] == 'raise':
                    if supported(s.pc, KINDS[K][1], K) is False:
                        unsupported += 1
                        if 'RuntimeError' not in str(r[1]):
                            return 'does not raise a RuntimeError if predictions are not supported'
                    continue
                sup = supported(s.pc, KINDS[K][1], K)
                if sup is False:
                    return 'returns %s although the learner is not able to provide such predictions' % pyabs.show(r)[:60]
                m = check_result(r, s, K, False)
                if call_name(m) != 'predict' or m[1][0] != 'attr':
                    raise Undecided('prediction %s' % pyabs.show(m)[:60])
                a = m[2][0] if m[2] else None
                want = (M, ('call', ('builtin', 'int'), (M,), ())) if limit else (pyabs.const(0),)
                if a not in want:
                    return 'uses %s as the maximum number of rules instead of %s' % (
                        pyabs.show(a) if a else 'nothing', pyabs.show(want[0]))
                created(m[1][1], K)
                done += 1
            if not done:
                return 'never returns any predictions'
            if not unsupported:
                return 'does not raise if predictions are not supported'
            return None
        attempt(rep, key + (' max_rules' if limit else ''), run)


def check_incremental(rep, E, st, o, fmt, method, kw, kind):
    K = 'sparse' if kind == 'binary' and fmt == 'sparse' else kind
    name = method + '_incrementally'
    for limit in (None, 0, 4):
        key = '%s.%s(%s) %s max_rules=%s' % (E.name, name, ', '.join(kw), fmt, limit)
        k2 = dict(kw_terms(kw), **({} if limit is None else {'max_rules': pyabs.const(limit)}))

        def run():
            kinds = set()
            unsupported = 0
            for s, r in E.I.call_method(st.fork(), o, name, [X], k2):
                sup = supported(s.pc, KINDS[K][1], K)
                if r[0] == 'raise':
                    if sup is False:
                        unsupported += 1
                        if 'RuntimeError' not in str(r[1]):
                            return 'does not raise a RuntimeError if predictions are not supported'
                    continue
                if sup is False:
                    return 'returns a predictor although the learner is not able to provide such predictions'
                native = None
                for c, v in s.pc.items():
                    while c[0] == 'not':
                        c, v = c[1], not v
                    if c[0] == 'call' and call_name(c) == 'canPredictIncrementally':
                        native = v
                msg = check_steps(E, s, r, K, limit or 0, native)
                if msg:
                    return msg
                kinds.add(native)
            if not kinds:
                return 'never returns any predictor'
            if not unsupported:
                return 'does not raise if predictions are not supported'
            return None
        attempt(rep, key, run)


def check_steps(E, st, obj, kind, limit, native):
    if native:
        # a single step is handed over to the incremental predictor
        S = ('sym', 'S')
        n = 0
        for s, r in E.I.call_method(st.fork(), obj, 'apply_next', [S]):
            if r[0] == 'raise':
                continue
            m = check_result(r, s, kind, True)
            if call_name(m) != 'applyNext' or m[2] != (S,):
                raise Failed('uses %s(%s) to consider additional rules' % (
                    call_name(m), ', '.join(pyabs.show(a) for a in m[2]) if m[0] == 'call' else ''))
            inc = strip(m[1][1])
            if call_name(inc) != 'createIncrementalPredictor':
                raise Undecided('creation of the incremental predictor: %s' % pyabs.show(inc)[:60])
            if inc[2] not in ((pyabs.const(limit),),):
                raise Failed('uses %s as the maximum number of rules instead of %s' % (
                    ', '.join(pyabs.show(a) for a in inc[2]), limit))
            created(inc[1][1], kind)
            n += 1
        for s, r in E.I.call_method(st.fork(), obj, 'get_num_next'):
            if r[0] != 'raise' and call_name(r) != 'getNumNext':
                raise Failed('returns %s as the number of remaining rules' % pyabs.show(r)[:60])
        return None if n else 'never returns any predictions'

    def is_total(t):
        return t[0] == 'call' and call_name(t) in ('getNumUsedRules', 'get_num_used_rules')
    steps = (2, 1, 3)
    cur = [(st.fork(), ())]
    for d in steps:
        nxt = []
        for s, rs in cur:
            for s2, r in E.I.call_method(s, obj, 'apply_next', [pyabs.const(d)]):
                if r[0] == 'raise':
                    continue
                nxt.append((s2, rs + ((r, E.I.call_method(s2.fork(), obj, 'get_num_next'),
                                       E.I.call_method(s2.fork(), obj, 'has_next')),)))
        cur = nxt
    if not cur:
        return 'never returns any predictions'
    for s, rs in cur:
        for total in (1, 2, 3, 4, 5, 6, 7, 100):
            env = {is_total: total}
            try:
                if any(value_of(k, env) != v for k, v in s.pc.items() if any(is_total(x) for x in pyabs.subterms(k)
                                                                           if isinstance(x, tuple) and x)):
                    continue
            except Undecided:
                pass
            avail = min(total, limit) if limit else total
            done = 0
            for d, (r, rest, more) in zip(steps, rs):
                m = check_result(r, s, kind, False)
                if call_name(m) != 'predict':
                    raise Undecided('prediction %s' % pyabs.show(m)[:60])
                created(m[1][1], kind)
                done = min(avail, done + d)
                got = value_of(m[2][0], env)
                if got != done:
                    return 'considers %s instead of %s rules, if %s rules are available, at most %s should be used, and ' \
                           'steps %s have been made' % (got, done, total, limit or 'all', steps)
                for _, t in rest:
                    if t[0] != 'raise' and value_of(t, env) != avail - done:
                        return 'reports %s instead of %s remaining rules' % (value_of(t, env), avail - done)
    return None


def analyse(rep, tier):
    for name in est.options_spec.ESTIMATORS:
        I = est.interpreter({X: arrays.Arr('X'), Y: arrays.Arr('Y')})
        E = est.Estimator(I, name)
        fit = fitted(rep, E, name)
        if not fit:
            raise prog.AnalysisError('%s: no path through fit' % name)
        regression = I.class_attr(E.cls, 'predict_proba')[0] is None
        for s, o, fmt in fit:
            if regression and fmt == 'sparse':
                continue
            for method, kw, kind in (REGRESSION if regression else METHODS):
                check_whole(rep, E, s, o, fmt, method, kw, kind)
                check_incremental(rep, E, s, o, fmt, method, kw, kind)
        for a in I.analysed:
            rep.functions.add('.'.join(str(x) for x in a))
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C19', RULE, 'other', {'assumptions': [
        'Validation functions only raise or return (the accepted ranges are decided by C02).',
        'The C++ learner does what the methods that are called on it promise.']}, analyse, 60)
