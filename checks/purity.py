"""C11: matrices, lists, and hyper-parameters that are provided by the user are never modified."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import arrays
import est
import prog
import pyabs
import report
from est import X, Y, call_name

RULE = ('For every estimator, format of the given matrices, and configured format, the constructor, fit, and all methods for '
        'prediction are interpreted abstractly down to the C++ views. An alias analysis for arrays tracks whether an array '
        'may share its memory with a matrix given by the user: no path may contain an in-place modification of such an '
        'array. No path may change a list given by the user or an attribute that holds a hyper-parameter, and the '
        'constructor must store the given values. C++ functions that are given a view of user memory must not obtain '
        'access for writing: no call of a non-const accessor of a non-owning view, no assignment via a const_cast.')

KINDS = ('dense', 'dense1d', 'csr', 'csc', 'coo', 'lil', 'dok')
MUTATING = {'sort', 'fill', 'resize', 'partition', 'put', 'itemset', 'setdiag', 'sort_indices', 'sum_duplicates',
            'eliminate_zeros', 'prune', 'byteswap', 'setfield', '__setitem__', '__iadd__', '__imul__'}
# functions that modify their first argument
MUTATORS = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'shuffle', 'put_along_axis'}
LIST_MUTATING = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update'}


class Failed(Exception):
    pass


class Undecided(Exception):
    pass


def array(name, kind):
    if kind == 'dense':
        return arrays.Arr(name)
    if kind == 'dense1d':
        return arrays.Arr(name, ndim=1)
    return arrays.Arr(name, fmt=kind, sorted=False, dups=True)


class Shared:
    """Decides whether a term refers to memory that is shared with an input."""

    def __init__(self, I, st):
        self.I, self.st = I, st

    def root(self, t, i):
        effects = self.st.effects[:i]
        v = self.I.arrays.get(self.I, self.st, t, effects)
        if v is not None:
            return v.root if v.shared else None
        c = self.I.arrays.component(self.I, self.st, t, effects)
        if c is not None:
            return c[0].root if c[0].shared and not self.copied(t) else None
        if t[0] == 'idx':      # parts of an array
            return self.root(t[1], i)
        if t[0] == 'attr' and t[2] in ('T', 'data', 'flat', 'real', 'indices', 'indptr', 'row', 'col', 'rows', 'base', 'A'):
            return self.root(t[1], i)
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('ravel', 'reshape', 'view', 'transpose', 'squeeze', 'values'):
            return self.root(t[1][1], i)
        if call_name(t) in ('asarray', 'asanyarray', 'require', 'ascontiguousarray', 'asfortranarray', 'atleast_2d', 'ravel',
                            'reshape', 'squeeze', 'transpose', 'expand_dims') and t[2]:
            return self.root(t[2][0], i)
        return None

    @staticmethod
    def copied(t):
        """Whether a component of a matrix has explicitly been copied."""
        while t[0] == 'call':
            n = call_name(t)
            if n in ('copy', 'array', 'astype'):
                return True
            if not t[2]:
                return False
            t = t[2][0]
        return False


def modifications(I, st, start=0):
    """-> [(root, description, location)]"""
    S = Shared(I, st)
    res = []
    for i, e in enumerate(st.effects):
        if i < start:
            continue
        t = e.target
        targets = []
        if e.kind in ('setitem', 'aug', 'delitem'):
            targets.append((t, 'elements are assigned'))
        elif e.kind in ('setattr', 'delattr'):
            targets.append((t, 'the attribute %s is assigned' % (e.args[0][2] if e.args and e.args[0][0] == 'c' else '')))
        elif e.kind == 'call':
            if t[0] == 'attr' and t[2] in MUTATING:
                targets.append((t[1], '%s() is called' % t[2]))
            n = arrays.ext(t)
            if n in MUTATORS and e.args:
                targets.append((e.args[0], '%s() is called' % n))
            for k, v in e.kwargs:
                if k == 'out':
                    targets.append((v, 'it is used as an output of %s' % pyabs.show(t)))
        for x, what in targets:
            r = S.root(x, i)
            if r is not None:
                res.append((r, what, e.where))
    return res


def check_inputs(rep, name, tier):
    configs = [{}] + [{'feature_format': f, 'output_format': f, 'prediction_format': f} for f in ('dense', 'sparse')]
    for kx, ky in [(k, 'dense') for k in KINDS if k != 'dense1d'] + [('dense', k) for k in KINDS if k != 'dense']:
        for cfg in configs:
            for sv in (None, ('sym', 'V')) if kx not in ('dense', 'dense1d') else (None,):
                I = est.interpreter({X: array('the feature matrix', kx), Y: array('the ground truth', ky)})
                E = est.Estimator(I, name)
                kw = {} if sv is None else {'sparse_feature_value': sv}
                key = '%s, %s features, %s ground truth%s%s' % (
                    name, kx, ky, ', format=' + cfg['feature_format'] if cfg else '', ', sparse_feature_value' if sv else '')
                methods = ['fit', 'predict']
                if tier == 'thorough':
                    methods += ['predict_incrementally', 'predict_proba', 'predict_proba_incrementally']
                try:
                    fitted = None
                    paths = {m: 0 for m in methods}
                    bad = None
                    for s, o in E.new(**cfg):
                        for s2, r in I.call_method(s, o, 'fit', [X, Y], kw):
                            paths['fit'] += 1
                            bad = bad or first_modification(I, s2, 'fit')
                            if r[0] != 'raise' and fitted is None:
                                fitted = (s2, o)
                    if bad:
                        rep.violate(key + ', fit', '%s: %s' % (key, bad))
                    elif fitted:
                        rep.ok(key + ', fit')
                    if not fitted or ky != 'dense':
                        continue
                    s, o = fitted
                    attrs = s.heap[o[1]]['attrs']
                    for a in list(attrs):
                        if a.endswith('_') and a != 'sparse_predictions_':
                            attrs[a] = ('sym', a)
                    s.effects, s.pc = [], {}
                    for m in methods[1:]:
                        if I.class_attr(E.cls, m)[0] is None:
                            continue
                        bad = None
                        for s2, r in I.call_method(s, o, m, [X], kw):
                            paths[m] += 1
                            bad = bad or first_modification(I, s2, m)
                        if bad:
                            rep.violate('%s, %s' % (key, m), '%s: %s' % (key, bad))
                        elif paths[m]:
                            rep.ok('%s, %s' % (key, m))
                except (Undecided, pyabs.Unsupported) as e:
                    rep.notes.append('%s: undecided (%s)' % (key, e))
                for a in I.analysed:
                    rep.functions.add('.'.join(str(x) for x in a))


def first_modification(I, st, method):
    for root, what, where in modifications(I, st):
        return '%s modifies %s in-place: %s%s' % (method, root, what, ' (%s)' % where if where else '')
    return None


def check_parameters(rep, name):
    """Hyper-parameters are stored by the constructor, and neither they nor lists of indices are changed afterwards."""
    I = est.interpreter({X: array('X', 'dense'), Y: array('Y', 'dense')})
    E = est.Estimator(I, name)
    init = I.class_attr(E.cls, '__init__')[1]
    params = parameters(I, E.cls)
    if not params:
        rep.notes.append('%s: parameters of the constructor are unknown' % name)
        return
    for p in params:
        key = '%s.__init__, %s' % (name, p)
        bad, n = None, 0
        for val in (('sym', 'value of ' + p), pyabs.NONE):
            for s, o in I.call(I.start(), E.cls, [], {p: val}, None):
                if o[0] == 'raise':
                    continue
                attrs = s.heap[o[1]]['attrs']
                n += 1
                if attrs.get(p) != val:
                    bad = bad or '%s.__init__ does not store the parameter %s, but %s' % (
                        name, p, pyabs.show(attrs[p]) if p in attrs else 'nothing')
        if bad:
            rep.violate(key, bad)
        elif n:
            rep.ok(key)
    # fit and predict
    done = False
    for s, o in E.new():
        cur = [s]
        lists = []
        for m, idx in (('set_ordinal_feature_indices', (3, 0)), ('set_nominal_feature_indices', (2, 1))):
            nxt = []
            for s2 in cur:
                lst = s2.new('list', items=[pyabs.const(i) for i in idx])
                lists.append((lst, [pyabs.const(i) for i in idx]))
                nxt += [s3 for s3, r in I.call_method(s2, o, m, [lst]) if r[0] != 'raise']
            cur = nxt
        for s2 in cur:
            before = {p: s2.heap[o[1]]['attrs'].get(p) for p in params}
            runs = [('fit', I.call_method(s2, o, 'fit', [X, Y]))]
            fitted = [s3 for s3, r in runs[0][1] if r[0] != 'raise']
            for m in ('predict', 'predict_incrementally', 'predict_proba', 'predict_proba_incrementally'):
                if fitted and I.class_attr(E.cls, m)[0] is not None:
                    s3 = fitted[0]
                    runs.append((m, I.call_method(s3, o, m, [X])))
            for m, res in runs:
                bad = None
                for s4, r in res:
                    attrs = s4.heap[o[1]]['attrs']
                    for p in params:
                        if attrs.get(p) != before[p]:
                            bad = bad or 'changes the parameter %s from %s to %s' % (p, term(before[p]), term(attrs.get(p)))
                    for lst, items in lists:
                        if s4.heap[lst[1]].get('items') != items or any(
                                e.kind == 'call' and e.target[0] == 'attr' and e.target[1] == lst and
                                e.target[2] in LIST_MUTATING or e.kind in ('setitem', 'delitem') and e.target == lst
                                for e in s4.effects):
                            bad = bad or 'changes a list of feature indices'
                if bad:
                    rep.violate('%s.%s, parameters' % (name, m), '%s.%s %s' % (name, m, bad))
                elif res:
                    rep.ok('%s.%s, parameters' % (name, m))
                    done = True
            break
        if done:
            break


def term(t):
    return 'nothing' if t is None else pyabs.show(t)


def parameters(I, cls):
    owner, f = I.class_attr(cls, '__init__')
    node = None
    for n in I.functions(f) if hasattr(I, 'functions') else []:
        node = n
    if node is None:
        node = fn_node(I, f)
    return [a.arg for a in node.args.args + node.args.kwonlyargs if a.arg != 'self'] if node is not None else []


def fn_node(I, f):
    """The syntax tree of a function value ('fn', module, name, ...)."""
    import ast
    if f is None or f[0] != 'fn':
        return None
    parts = f[2].split('.')
    body = I.module(f[1]).tree.body
    node = None
    for p in parts:
        node = next((n for n in body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == p), None)
        if node is None:
            return None
        body = node.body
    return node


# ---------------------------------------------------------------------- C++

VIEWS = ('CsrView', 'CscView', 'BinaryCsrView', 'BinaryCscView', 'CContiguousView', 'FortranContiguousView')
FACTORIES = ('createFortranContiguousFeatureMatrix', 'createCContiguousFeatureMatrix', 'createCscFeatureMatrix',
             'createCsrFeatureMatrix', 'createCContiguousLabelMatrix', 'createCsrLabelMatrix',
             'createCContiguousRegressionMatrix', 'createCsrRegressionMatrix')


def check_cpp(rep):
    P = prog.load()
    n = 0
    views = set()
    for f in P.fns.values():
        if f['pn'] in FACTORIES:
            rep.functions.add(f['pn'])
            rep.files.add(f['f'])
            for p in f.get('params', ()):
                t = p.get('t', '')
                if '*' in t:
                    n += 1
                    # data that is not const-qualified requires that the sparse views are never accessed for writing
                    if not t.startswith('const'):
                        views.add(t)
    if not n:
        rep.notes.append('C++ factories of matrices have not been found')
        return
    # accesses for writing by means of const casts
    for f in P.fns.values():
        for x in prog.fn_nodes(f):
            if x.get('k') == 'cast' and x.get('ck') in ('const', 'c') and drops_const(x.get('ft'), x.get('t')):
                key = '%s, cast from %s' % (f['pn'], x.get('ft'))
                if base_type(x.get('t')) == 'char':
                    rep.ok(key)
                else:
                    rep.violate(key, '%s removes the const qualifier of %s' % (prog.loc(f, x), x.get('ft')))
    # non-const accessors of views of user memory
    for f in P.fns.values():
        own = f['pn'].split('::')[0]
        for c in prog.calls(f):
            fn = c.get('fn') or ''
            m = fn.split('::')[-1]
            if m not in ('values_begin', 'values_end', 'indices_begin', 'indices_end', 'operator[]'):
                continue
            cls = '::'.join(fn.split('::')[:-1])
            obj = c.get('o') or c.get('obj')
            t = (obj or {}).get('t', '') if isinstance(obj, dict) else ''
            if cls in ('CsrView', 'BinaryCsrView') and not own.endswith(cls):
                if t.startswith('const ') or c.get('const'):
                    continue
                key = '%s calls %s' % (f['pn'], fn)
                if user_memory(P, f, t):
                    rep.violate(key, '%s obtains write access to a sparse matrix given by the user via %s' % (
                        prog.loc(f, c), fn))
                else:
                    rep.ok(key)
    rep.ok('C++ factories of matrices')


def drops_const(ft, t):
    ft, t = ft or '', t or ''
    return ('*' in ft or '&' in ft or '*' in t or '&' in t) and 'const' in ft.split('*')[0] and 'const' not in t.split('*')[0]


def base_type(t):
    return (t or '').replace('const', '').replace('*', '').replace('&', '').strip()


def user_memory(P, f, t):
    return 'Allocated' not in t


def analyse(rep, tier):
    for name in est.options_spec.ESTIMATORS:
        check_inputs(rep, name, tier)
        check_parameters(rep, name)
    check_cpp(rep)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C11', RULE, 'other', {'assumptions': [
        'numpy, scipy and scikit-learn do not modify their arguments, unless documented.']}, analyse, 100)
