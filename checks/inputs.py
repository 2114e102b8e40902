"""C22: the algorithm is given exactly the feature values, labels, scores and feature types that have been specified."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import arrays
import est
import prog
import pyabs
import report
from est import X, Y, call_name, strip

RULE = ('For every estimator, every kind of matrix (dense, or sparse in one of five formats, with or without a value for '
        'sparse elements), and every documented format, fit and predict are interpreted abstractly down to the creation of '
        'the C++ views. An abstract domain tracks, for absent, explicitly stored zero, and other elements, which values '
        'they have after all conversions, as well as formats, types, memory layouts and the order of indices. The C++ '
        'views must be given the values, indices, pointers and dimensions of a matrix that contains exactly the specified '
        'values in a suitable type, and the feature types that have been specified.')

FLOAT = {'float32', 'float64', 'Float32'}
INT = {'uint8', 'bool', 'bool_', 'uint32', 'int32', 'Uint8'}
KINDS = ('dense', 'csr', 'csc', 'coo', 'lil', 'dok')

# C++ view -> (format, memory layout)
FEATURES = {'createFortranContiguousFeatureMatrix': (None, 'F'), 'createCscFeatureMatrix': ('csc', None),
            'createCContiguousFeatureMatrix': (None, 'C'), 'createCsrFeatureMatrix': ('csr', None)}
LABELS = {'createCContiguousLabelMatrix': (None, 'C'), 'createCsrLabelMatrix': ('csr', None)}
SCORES = {'createCContiguousRegressionMatrix': (None, 'C'), 'createCsrRegressionMatrix': ('csr', None)}


class Failed(Exception):
    pass


class Undecided(Exception):
    pass


def unfloat(t):
    while t is not None and t[0] == 'call' and t[1] in (('builtin', 'float'), ('ext', 'numpy.float32')) and t[2]:
        t = t[2][0]
    return t


def same(a, b):
    a, b = unfloat(a), unfloat(b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if a[0] == 'c' and b[0] == 'c':
        return a[2] == b[2]
    return a == b


def first(t):
    """-> the array a pointer to the first element of which is given"""
    while t[0] == 'call' and pyabs.show(t[1]) in ('__addr__', 'address') and t[2]:
        t = t[2][0]
    zero = pyabs.const(0)
    if t[0] != 'idx':
        raise Undecided('pointer %s' % pyabs.show(t)[:60])
    k = t[2]
    if k != zero and not (k[0] == 'tuple' and all(x == zero for x in k[1])):
        raise Failed('does not start at the first element, but at %s' % pyabs.show(k))
    a = t[1]
    if a[0] == 'idx' and a[2] == zero and k == zero:
        a = a[1]
    return a


class Matrix:
    def __init__(self, I, st, root, sparse_value, source):
        self.I, self.st, self.root, self.sparse_value, self.source = I, st, root, sparse_value, source

    def arr(self, t):
        v = self.I.arrays.get(self.I, self.st, t)
        if v is None:
            raise Undecided('array %s' % pyabs.show(t)[:80])
        return v

    def equal(self, a, b):
        """Whether a path is restricted to values that are the same."""
        for k, v in self.st.pc.items():
            while k[0] == 'not':
                k, v = k[1], not v
            if k[0] == 'cmp' and k[1] == '==' and v and (same(k[2], a) and same(k[3], b) or
                                                         same(k[2], b) and same(k[3], a)):
                return True
        return False

    def dims(self, ts):
        for i, t in enumerate(ts):
            if t[0] != 'idx' or t[1][0] != 'attr' or t[1][2] != 'shape' or t[2][0] != 'c':
                raise Undecided('dimension %s' % pyabs.show(t)[-60:])
            v = self.arr(t[1][1])
            if v.root != self.root:
                raise Failed('uses a dimension of %s' % v.root)
            if v.ndim != 2 and i == 1:
                raise Failed('uses the second dimension of an array with a single one')
            if (t[2][2] % 2 if v.ndim == 2 else t[2][2]) != (1 - i if v.flipped else i):
                raise Failed('uses dimension %s of the array as the number of %s' % (t[2][2], ('rows', 'columns')[i]))

    def values(self, v, types, features, labels=False):
        if v.root != self.root:
            raise Failed('uses the values of %s' % v.root)
        if v.flipped:
            raise Failed('uses the transposed matrix')
        if v.ndim != 2:
            raise Failed('uses an array with %s dimensions' % v.ndim)
        bad = [d for d in v.dtypes if d not in types and d is not None]
        if bad:
            raise Failed('converts the values into the type %s' % bad[0])
        src = self.source
        if src.fmt is not None and v.fmt is None:
            want = self.sparse_value if features else pyabs.const(0)
            if not same(v.absent, want) and not self.equal(v.absent, want):
                raise Failed('elements that are absent from a sparse matrix become %s instead of %s' % (
                    pyabs.show(v.absent), pyabs.show(want)))
            if not same(v.zero, pyabs.const(0)):
                raise Failed('zeros explicitly stored in a sparse matrix become %s' % pyabs.show(v.zero))
        if v.other != ('x',):
            if labels and v.other[0] == 'call' and pyabs.show(v.other[1]).split('.')[-1] in ('abs', 'absolute', 'sign', 'ceil'):
                return      # zero and non-zero values remain distinguishable
            raise Failed('values become %s' % (pyabs.show(v.other)))

    def check(self, t, table, types, features):
        n = call_name(t)
        if n not in table:
            raise Undecided('matrix %s' % pyabs.show(t)[:60])
        fmt, order = table[n]
        a = t[2]
        if fmt is None:
            base = first(a[0])
            v = self.arr(base)
            if v.fmt is not None:
                raise Failed('uses a sparse matrix as a dense one')
            self.values(v, types, features, table is LABELS)
            if v.order != order:
                raise Failed('does not enforce the memory layout %s' % order)
            self.dims(a[1:3])
            return
        labels = table is LABELS
        names = ('indices', 'indptr') if labels else ('data', 'indices', 'indptr')
        mats = []
        for x, name in zip(a, names):
            c = self.I.arrays.component(self.I, self.st, first(x))
            if c is None:
                raise Undecided('array %s' % pyabs.show(x)[:80])
            v, got, dts = c
            if got != name:
                raise Failed('uses the array %s instead of %s' % (got, name))
            allowed = types if name == 'data' else INT - {'uint8', 'bool', 'bool_', 'Uint8'} | {'Uint32', 'int64', 'uint64'}
            bad = [d for d in dts if d not in allowed]
            if bad:
                raise Failed('converts the array %s into the type %s' % (name, bad[0]))
            mats.append(v)
        for v in mats:
            if v.fmt != fmt:
                raise Failed('uses the arrays of a matrix in the format %s instead of %s' % (v.fmt, fmt))
            self.values(v, types, features, labels)
            if labels and v.zero != 'gone':
                raise Failed('zeros explicitly stored in a sparse matrix are considered relevant labels')
            if not features and not (v.sorted and not v.dups):
                raise Failed('the indices of a sparse matrix are not sorted')
            if features and v.zero == 'gone' and not same(self.sparse_value, pyabs.const(0)):
                raise Failed('zeros explicitly stored in a sparse matrix become %s' % pyabs.show(self.sparse_value))
        k = len(names)
        self.dims(a[k:k + 2])
        if features:
            sv = a[k + 2] if len(a) > k + 2 else pyabs.const(0)
            if not same(sv, self.sparse_value) and not self.equal(sv, self.sparse_value):
                raise Failed('uses %s instead of %s as the value of sparse elements' % (
                    pyabs.show(sv), pyabs.show(self.sparse_value)))


def array(name, kind):
    if kind == 'dense':
        return arrays.Arr(name)
    if kind == 'dense1d':
        return arrays.Arr(name, ndim=1)
    return arrays.Arr(name, fmt=kind, sorted=False, dups=True)


def attempt(rep, key, f):
    try:
        f()
    except Failed as e:
        rep.violate(key, '%s: %s' % (key, e))
    except (Undecided, pyabs.Unsupported) as e:
        rep.notes.append('%s: undecided (%s)' % (key, e))
    else:
        rep.ok(key)


def check_features(rep, name, tier):
    for kind in KINDS:
        for fmt in (None, 'auto', 'dense', 'sparse'):
            for sv in (None, ('sym', 'V')):
                if kind == 'dense' and sv is not None:
                    continue
                I = est.interpreter({X: array('X', kind), Y: array('Y', 'dense')})
                E = est.Estimator(I, name)
                kw = {} if sv is None else {'sparse_feature_value': sv}
                cfg = {} if fmt is None else {'feature_format': fmt}
                key = '%s, %s features%s%s' % (name, kind, '' if fmt is None else ', feature_format=' + fmt,
                                               '' if sv is None else ', sparse_feature_value')

                def fit():
                    n = 0
                    for s, o in E.new(output_format='dense', prediction_format='dense', **cfg):
                        for s2 in E.fit(s, o, **kw):
                            for e in est.fit_calls(s2):
                                m = Matrix(I, s2, 'X', sv or pyabs.const(0), I.arrays.inputs[X])
                                m.check(strip(e.args[1]), {k: v for k, v in FEATURES.items() if 'Row' not in k and (
                                    'Fortran' in k or 'Csc' in k)}, FLOAT, True)
                                n += 1
                    if not n:
                        raise Failed('the algorithm is never invoked')
                attempt(rep, key + ', fit', fit)

                def predict(method):
                    n = 0
                    for s, o in E.new(output_format='dense', prediction_format='dense', **cfg):
                        s2 = None
                        for s2 in E.fit(s, o, **kw)[:1]:
                            attrs = s2.heap[o[1]]['attrs']
                            for a in list(attrs):
                                if a.endswith('_') and a != 'sparse_predictions_':
                                    attrs[a] = ('sym', a)
                            s2.effects = []
                            s2.pc = {}
                            for s3, r in I.call_method(s2, o, method, [X], kw):
                                if r[0] == 'raise':
                                    continue
                                for e in s3.effects:
                                    if e.kind == 'call' and e.target[0] == 'attr' and e.target[2].startswith('create') and \
                                            e.target[2].endswith('Predictor') and len(e.args) >= 3:
                                        m = Matrix(I, s3, 'X', sv or pyabs.const(0), I.arrays.inputs[X])
                                        m.check(strip(e.args[0]), {k: v for k, v in FEATURES.items()
                                                                   if 'CContiguous' in k or 'Csr' in k}, FLOAT, True)
                                        n += 1
                    if not n:
                        raise Failed('no predictor is ever created')
                methods = ['predict']
                if tier == 'thorough':
                    methods += ['predict_incrementally', 'predict_proba', 'predict_proba_incrementally']
                for method in methods:
                    if I.class_attr(E.cls, method)[0] is not None:
                        attempt(rep, '%s, %s' % (key, method), lambda: predict(method))
                for a in I.analysed:
                    rep.functions.add('.'.join(str(x) for x in a))


def check_outputs(rep, name):
    for kind in ('dense', 'dense1d') + KINDS[1:]:
        for fmt in (None, 'auto', 'dense', 'sparse'):
            I = est.interpreter({X: array('X', 'dense'), Y: array('Y', kind)})
            E = est.Estimator(I, name)
            cfg = {} if fmt is None else {'output_format': fmt}
            key = '%s, %s ground truth%s' % (name, kind, '' if fmt is None else ', output_format=' + fmt)

            def fit():
                n = 0
                for s, o in E.new(feature_format='dense', prediction_format='dense', **cfg):
                    for s2 in E.fit(s, o):
                        for e in est.fit_calls(s2):
                            m = Matrix(I, s2, 'Y', pyabs.const(0), I.arrays.inputs[Y])
                            t = strip(e.args[2])
                            if 'Regress' in name:
                                m.check(t, SCORES, FLOAT, False)
                            else:
                                m.check(t, LABELS, INT | FLOAT, False)
                            n += 1
                if not n:
                    raise Failed('the algorithm is never invoked')
            attempt(rep, key, fit)


def feature_info(I, st, t):
    """-> description of the feature types: ('ordinal'|'nominal'|'numerical') or (ordinal, nominal)"""
    t = strip(t)
    n = call_name(t)
    kinds = {'createOrdinalFeatureInfo': 'ordinal', 'createNominalFeatureInfo': 'nominal',
             'createNumericalFeatureInfo': 'numerical'}
    if n in kinds:
        return kinds[n]
    if n != 'createMixedFeatureInfo':
        raise Undecided('feature information %s' % pyabs.show(t)[:60])
    if call_name(t[2][0]) != 'getNumFeatures' and not (t[2][0][0] == 'idx' and t[2][0][2] == pyabs.const(1)):
        raise Failed('uses %s as the number of features' % pyabs.show(t[2][0])[:60])
    types = {}
    for e in st.effects:
        if e.kind == 'call' and e.target[0] == 'attr' and e.target[2] in ('setOrdinal', 'setNominal', 'setNumerical') and \
                strip(e.target[1]) == t:
            if e.args[0][0] != 'c' or e.loops:
                raise Undecided('index %s' % pyabs.show(e.args[0]))
            types[e.args[0][2]] = e.target[2][3:].lower()
    return types


def check_types(rep, name):
    cases = [(None, None), ([0, 3], None), (None, [1, 4]), ([0, 3], [1]), ([2], [0, 1]), ([], [5]), ([5], []), ([0, 1], None),
             (None, [0, 1]), ([0, 2], [1]), ([1], [0]), ([0], [1, 2]), ([1, 2, 3], [0])]
    for ordinal, nominal in cases:
        I = est.interpreter({X: array('X', 'dense'), Y: array('Y', 'dense')})
        E = est.Estimator(I, name)
        key = '%s, ordinal features %s, nominal features %s' % (name, ordinal, nominal)

        def fit():
            n = 0
            for s, o in E.new(feature_format='dense', output_format='dense', prediction_format='dense'):
                cur = [s]
                for m, idx in (('set_ordinal_feature_indices', ordinal), ('set_nominal_feature_indices', nominal)):
                    if idx is None:
                        continue
                    nxt = []
                    for s2 in cur:
                        lst = s2.new('list', items=[pyabs.const(i) for i in idx])
                        nxt += [s3 for s3, r in I.call_method(s2, o, m, [lst]) if r[0] != 'raise']
                    cur = nxt
                for s2 in cur:
                    for s3, r in I.call_method(s2, o, 'fit', [X, Y]):
                        if r[0] == 'raise':
                            if not any(k[0] == 'exc' for k in s3.pc):
                                raise Failed('an error is raised')
                            continue
                        for e in est.fit_calls(s3):
                            got = feature_info(I, s3, e.args[0])
                            want = dict([(i, 'ordinal') for i in ordinal or ()] + [(i, 'nominal') for i in nominal or ()])
                            n += 1
                            total = total_features(s3)
                            if total is not None and total <= max(want, default=0):
                                continue     # there are no such features
                            if isinstance(got, str):
                                # all features are of the same type
                                if not want and got == 'numerical':
                                    continue
                                if len(set(want.values())) == 1 and got in want.values() and len(want) == total:
                                    continue
                                raise Failed('all features are considered %s' % got)
                            if got != want:
                                raise Failed('the types of features become %s' % got)
            if not n:
                raise Failed('the algorithm is never invoked')
        attempt(rep, key, fit)


def total_features(st):
    """The number of features a path is restricted to."""
    for k, v in st.pc.items():
        while k[0] == 'not':
            k, v = k[1], not v
        if k[0] == 'cmp' and k[1] == '==' and v and k[3][0] == 'c' and (
                call_name(k[2]) == 'getNumFeatures' or k[2][0] == 'idx'):
            return k[3][2]
    return None


def analyse(rep, tier):
    for name in est.options_spec.ESTIMATORS:
        rep.guard(check_features, name, tier)
        rep.guard(check_outputs, name)
        rep.guard(check_types, name)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C22', RULE, 'other', {'assumptions': [
        'numpy, scipy and scikit-learn behave as documented.',
        'Sparse feature matrices do not contain several elements with the same position.']}, analyse, 100)
