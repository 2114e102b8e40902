"""C23: the outcome of fit and predict does not depend on what the estimator has been used for before."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import arrays
import est
import prog
import pyabs
import report
from est import X, Y

RULE = ('For every estimator, fit is interpreted abstractly in two states: in the initial one, and in one where each '
        'attribute that is assigned by fit holds an unknown value. The sets of reachable outcomes (attributes, the value '
        'returned, and arguments given to the C++ learner) must be equal. The same applies to each method for prediction in '
        'a state that results from fit, and the state after some other prediction. The learner must be created anew '
        'by each call. Neither Python functions nor C++ functions may assign variables that outlive a call (globals, '
        'attributes of classes and modules, static variables).')

METHODS = ('predict', 'predict_incrementally', 'predict_proba', 'predict_proba_incrementally')
OLD = 'previous value of '
Z = ('sym', 'Z')


def array(name, kind):
    return arrays.Arr(name) if kind == 'dense' else arrays.Arr(name, fmt=kind, sorted=False, dups=True)


def norm(st, t, skip=None, depth=0):
    """A representation of a term that does not depend on the numbering of objects."""
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == 'ref' and isinstance(t[1], int):
            if depth > 6 or t == skip:
                return '<self>' if t == skip else '...'
            h = st.heap[t[1]]
            if h['kind'] == 'obj':
                return ('obj', repr(h.get('cls'))) + tuple((k, norm(st, v, skip, depth + 1))
                                                            for k, v in sorted(h['attrs'].items()))
            return (h['kind'],) + tuple(norm(st, v, skip, depth + 1) for v in h.get('items') or ()) \
                if isinstance(h.get('items'), (list, tuple)) else (h['kind'], norm(st, h.get('items'), skip, depth + 1))
        return tuple(norm(st, x, skip, depth) for x in t)
    if isinstance(t, list):
        return tuple(norm(st, x, skip, depth) for x in t)
    if isinstance(t, dict):
        return tuple((norm(st, k, skip, depth), norm(st, v, skip, depth)) for k, v in t.items())
    return t


def outcome(st, o, r, start, with_attrs=True):
    """What can be observed after a method has been called."""
    ret = '<error>' if r[0] == 'raise' else norm(st, r, o)
    attrs = tuple((k, norm(st, v, o)) for k, v in sorted(st.heap[o[1]]['attrs'].items())) if with_attrs else ()
    calls = []
    for e in st.effects[start:]:
        if e.kind == 'call' and e.target[0] == 'attr' and (
                e.target[2] == 'fit' or e.target[2].startswith('create') or e.target[2] in ('predict', 'applyNext')):
            calls.append((norm(st, e.target, o), norm(st, e.args, o), norm(st, e.kwargs, o)))
    return ret, attrs if r[0] != 'raise' else (), tuple(calls) if r[0] != 'raise' else ()


def describe(a, b):
    """First difference between two sets of outcomes."""
    only = sorted(b - a, key=repr) or sorted(a - b, key=repr)
    s = repr(only[0])
    i = s.find(OLD)
    if i >= 0:
        return 'depends on the %s' % s[i:].split("'")[0]
    other = sorted(a, key=repr)[0] if a else None
    for x, y in zip(only[0], other or ()):
        if x != y:
            return 'has another outcome (e.g., %s)' % short(x, y)
    return 'has another outcome'


def short(x, y):
    a, b = repr(x), repr(y)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '%s instead of %s' % (a[max(0, i - 30):i + 40], b[max(0, i - 30):i + 40])


def reset(st):
    st.effects, st.pc = [], {}
    return st


def check_fit(rep, name, kx, ky):
    I = est.interpreter({X: array('X', kx), Y: array('Y', ky)})
    E = est.Estimator(I, name)
    key = '%s.fit, %s features, %s ground truth' % (name, kx, ky)
    for s, o in E.new():
        reset(s)
        before = dict(s.heap[o[1]]['attrs'])
        first = I.call_method(s, o, 'fit', [X, Y])
        fresh = {outcome(s2, o, r, 0) for s2, r in first}
        assigned = {}
        for s2, r in first:
            for k, v in s2.heap[o[1]]['attrs'].items():
                if before.get(k) != v:
                    assigned[k] = ('sym', OLD + k)
        done = [s2 for s2, r in first if r[0] != 'raise']
        if not done or not assigned:
            rep.notes.append('%s: undecided (fit never succeeds)' % key)
            return
        s2 = reset(done[0])
        s2.heap[o[1]]['attrs'].update(assigned)
        again = {outcome(s3, o, r, 0) for s3, r in I.call_method(s2, o, 'fit', [X, Y])}
        rep.check(fresh == again, key, '' if fresh == again else 'the second call of %s.fit %s' % (name, describe(fresh, again)))
        for a in I.analysed:
            rep.functions.add('.'.join(str(x) for x in a))
        return


def check_predict(rep, name, method, kx):
    I = est.interpreter({X: array('X', kx), Z: array('Z', 'dense'), Y: array('Y', 'dense')})
    E = est.Estimator(I, name)
    if I.class_attr(E.cls, method)[0] is None:
        return
    key = '%s.%s, %s features' % (name, method, kx)
    for s, o in E.new():
        fitted = [s2 for s2, r in I.call_method(s, o, 'fit', [X, Y]) if r[0] != 'raise']
        if not fitted:
            continue
        s2 = fitted[0]
        attrs = s2.heap[o[1]]['attrs']
        for a in list(attrs):
            if a.endswith('_'):
                attrs[a] = ('sym', a)
        reset(s2)
        s1 = s2.fork() if hasattr(s2, 'fork') else __import__('copy').deepcopy(s2)
        fresh = {outcome(s3, o, r, 0, False) for s3, r in I.call_method(s1, o, method, [X])}
        ok, n = True, 0
        msg = ''
        for other in METHODS:
            if I.class_attr(E.cls, other)[0] is None:
                continue
            base = __import__('copy').deepcopy(s2)
            kw = {k: ('sym', OLD + k) for k in ('max_rules', 'sparse_feature_value')}
            prev = [s3 for s3, r in I.call_method(base, o, other, [Z], kw) if r[0] != 'raise']
            kinds = {}
            for s3 in prev:
                kinds.setdefault(repr(sorted(s3.heap[o[1]]['attrs'].items())), s3)
            for s3 in kinds.values():
                reset(s3)
                again = {outcome(s4, o, r, 0, False) for s4, r in I.call_method(s3, o, method, [X])}
                n += 1
                if again != fresh:
                    ok = False
                    msg = msg or 'a call of %s.%s after a call of %s %s' % (name, method, other, describe(fresh, again))
        if n:
            rep.check(ok, key, msg)
        return


def check_learner(rep, name):
    """The C++ learner is created anew, whenever it is needed."""
    I = pyabs.Interp()
    for n in I.module(est.VALIDATION).tree.body:
        if n.__class__.__name__ == 'FunctionDef':
            I.overrides[('fn', est.VALIDATION, n.name)] = lambda self, st, args, kwargs, node, env: [(st, pyabs.NONE)]
    cls = I.cls(est.options_spec.ESTIMATORS[name][0], name)
    key = '%s._create_learner' % name
    n = 0
    for s, o in I.call(I.start(), cls, [], {}, None):
        if o[0] == 'raise' or I.class_attr(cls, '_create_learner')[0] is None:
            continue
        for s2, r in I.call_method(s, o, '_create_learner'):
            if r[0] == 'raise':
                continue
            known = set(s2.heap)
            for s3, r3 in I.call_method(reset(s2), o, '_create_learner'):
                if r3[0] == 'raise':
                    continue
                n += 1
                if r3 == r or r3[0] == 'ref' and r3[1] in known:
                    rep.violate(key, '%s returns a learner that has been created before' % key)
                    return
            break
        break
    if n:
        rep.ok(key)
    else:
        rep.notes.append('%s: undecided' % key)


def check_globals(rep):
    """Python: assignments of variables of modules or attributes of classes."""
    import ast
    import glob
    n = 0
    for path in sorted(glob.glob(os.path.join(prog.facts.REPO if hasattr(prog, 'facts') else REPO,
                                              'python/subprojects/*/mlrl/*/*.py'))):
        if '/testbed/' in path:
            continue
        tree = ast.parse(open(path).read())
        classes = {c.name for c in ast.walk(tree) if isinstance(c, ast.ClassDef)}
        rel = path.split('/python/subprojects/')[1]
        rep.file('python/subprojects/' + rel)
        mutable = {}
        for s in tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        mutable[t.id] = s
        for f in ast.walk(tree):
            if not isinstance(f, (ast.FunctionDef, ast.Lambda)):
                continue
            n += 1
            fname = getattr(f, 'name', 'lambda')
            local = {a.arg for a in f.args.args} | {t.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                                                    isinstance(x.ctx, ast.Store) for t in [x]}
            glob_names = {g for x in ast.walk(f) if isinstance(x, ast.Global) for g in x.names}
            bad = None
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in glob_names:
                    bad = (x, 'assigns the global variable %s' % x.id)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    b = x.value
                    if isinstance(b, ast.Name) and (b.id in classes or b.id == 'cls') or \
                            isinstance(b, ast.Attribute) and b.attr == '__class__' or \
                            isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'type':
                        bad = (x, 'assigns the attribute %s of a class' % x.attr)
                tgt = None
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                    tgt = x.value
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                        'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'add', 'setdefault'):
                    tgt = x.func.value
                if isinstance(tgt, ast.Name) and tgt.id in mutable and tgt.id not in local - glob_names:
                    bad = (x, 'modifies the global variable %s' % tgt.id)
            if bad:
                rep.violate('%s, %s' % (rel, fname), 'python/subprojects/%s:%d: %s %s' % (rel, bad[0].lineno, fname, bad[1]))
        rep.ok(rel)
    return n


def check_statics(rep):
    """C++: variables that outlive a function call."""
    P = prog.load()
    for (pn, f), v in sorted(P.gvars.items()):
        key = 'variable %s' % pn
        if v.get('const') or v.get('constexpr') or (v.get('t') or '').startswith('const '):
            rep.ok(key)
        elif written(P, pn):
            rep.violate(key, 'cpp/subprojects/%s:%s: the variable %s outlives function calls and is modified' % (
                f, v.get('l'), pn))
        else:
            rep.ok(key)
    for f in P.fns.values():
        for x in prog.fn_nodes(f):
            if x.get('dk') == 'staticlocal' and not (x.get('t') or '').startswith('const '):
                rep.violate('%s, static variable %s' % (f['pn'], x.get('n')),
                            '%s: the static variable %s of %s outlives function calls' % (prog.loc(f, x), x.get('n'), f['pn']))
        rep.functions.add(f['pn'])
    rep.ok('static variables of C++ functions')


def written(P, pn):
    """Whether a variable that is not constant is used other than by value in an expression (conservatively: at all)."""
    short = pn.split('::')[-1]
    for f in P.fns.values():
        for x in prog.fn_nodes(f):
            if x.get('k') == 'ref' and x.get('n') == short and x.get('dk') not in ('param', 'local', 'var2'):
                return True
    return False


REPO = os.environ.get('VERIF_REPO', '/repo')


def analyse(rep, tier):
    for name in est.options_spec.ESTIMATORS:
        combos = [('dense', 'dense'), ('csr', 'csr')]
        if tier == 'thorough':
            combos += [('csc', 'dense'), ('dense', 'coo'), ('lil', 'lil')]
        for kx, ky in combos:
            try:
                rep.guard(check_fit, name, kx, ky)
            except pyabs.Unsupported as e:
                rep.notes.append('%s.fit: undecided (%s)' % (name, e))
        for m in METHODS:
            for kx in ('dense', 'csr'):
                try:
                    rep.guard(check_predict, name, m, kx)
                except pyabs.Unsupported as e:
                    rep.notes.append('%s.%s: undecided (%s)' % (name, m, e))
        try:
            rep.guard(check_learner, name)
        except pyabs.Unsupported as e:
            rep.notes.append('%s._create_learner: undecided (%s)' % (name, e))
    rep.guard(check_globals)
    rep.guard(check_statics)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C23', RULE, 'other', {'assumptions': [
        'numpy, scipy and scikit-learn do not keep state that affects results.']}, analyse, 30)
