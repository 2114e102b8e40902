"""Abstract interpretation of the estimators: construction, fit and prediction, down to the calls on the C++ objects."""
import ast

import arrays
import options_spec
import pyabs

VALIDATION = 'mlrl.common.cython.validation'
X, Y = ('sym', 'X'), ('sym', 'Y')


def interpreter(inputs=None):
    """-> Interp; `inputs` maps the symbols X and Y to the arrays they are assumed to be"""
    I = pyabs.Interp()
    for n in I.module(VALIDATION).tree.body:
        if isinstance(n, ast.FunctionDef):
            # the ranges of the values are decided by C02
            I.overrides[('fn', VALIDATION, n.name)] = lambda self, st, args, kwargs, node, env: [(st, pyabs.NONE)]
    I.arrays = arrays.Arrays(inputs or {})
    I.facts.append(I.arrays.hook)
    return I


class Estimator:
    def __init__(self, I, name):
        self.I, self.name = I, name
        self.cls = I.cls(options_spec.ESTIMATORS[name][0], name)
        self.fix_learner()

    def fix_learner(self):
        """The parameters of the algorithm are decided by C03: use the learner that is created by default."""
        I = self.I
        for s, o in I.call(I.start(), self.cls, [], {}, None):
            if o[0] == 'raise':
                continue
            f = I.class_attr(self.cls, '_create_learner')[1]
            if f is None:
                return
            for s2, r in I.call_method(s, o, '_create_learner'):
                if r[0] == 'ref' and s2.heap[r[1]]['kind'] == 'obj':
                    h = s2.heap[r[1]]
                    attrs = {k: ('sym', 'learner') if v[0] == 'call' else v for k, v in h['attrs'].items()}
                    I.overrides[f] = lambda self, st, args, kwargs, node, env: [
                        (st, st.new('obj', cls=h['cls'], attrs=dict(attrs)))]
                    return

    def new(self, **kw):
        return [(s, o) for s, o in self.I.call(self.I.start(), self.cls, [], {k: pyabs.const(v) for k, v in kw.items()},
                                               None) if o[0] != 'raise']

    def fit(self, st, obj, **kw):
        """-> paths that do not raise: (state, effects of fit)"""
        res = []
        for s, r in self.I.call_method(st, obj, 'fit', [X, Y], kw):
            if r[0] != 'raise':
                res.append(s)
        return res


def strip(t):
    """Removes wrappers that do not change the referred object."""
    while t[0] == 'call':
        n = pyabs.show(t[1])
        if n in ('move', 'dereference', 'address', '__addr__') and t[2]:
            t = t[2][0]
        elif n == '__cast__':
            t = t[2][-1]
        elif t[1][0] == 'attr' and t[1][2] == 'get' and not t[2]:
            t = t[1][1]
        else:
            break
    return t


def call_name(t):
    """Last component of the name of the called function."""
    if t[0] != 'call':
        return None
    f = t[1]
    if f[0] == 'attr':
        return f[2]
    if f[0] in ('ext', 'builtin'):
        return f[1].split('.')[-1]
    if f[0] in ('fn', 'cls'):
        return f[2].split('.')[-1]
    return pyabs.show(f)


def fit_calls(st):
    """Calls of the method `fit` of the C++ learner."""
    res = []
    for e in st.effects:
        if e.kind == 'call' and e.target[0] == 'attr' and e.target[2] == 'fit' and len(e.args) == 3:
            res.append(e)
    return res
