"""C08: rules are applied as they are written."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import ast
import cxx
import effects
import facts
import norm
import prog
import pyabs
import report
import roundtrip
from effects import shown
from norm import canon, place
from pyabs import NONE, const, is_const

RULE = ('The functions that decide whether a rule covers an example, that create the body of a rule from a list of '
        'conditions, that iterate the rules of a model, and that add the scores in the head of a rule to a prediction are '
        'reduced to normalised effects (stores, returned values, the conditions they depend on, induction variables), with '
        'helpers, iterators and lambdas inlined. They must agree with the semantics of conjunctive rules: a condition '
        'compares the value of its own feature to its own threshold by the comparator of the array it is stored in; a '
        'body covers an example iff all conditions do; features without an explicit value have the value of sparse '
        'elements; only heads of covering rules are applied, to the row of the example, at the outputs of the head, once '
        'per rule from the first to the last used rule. The Python API and the textual representation are interpreted '
        'abstractly; they must associate each feature index and threshold with the comparator of the array they stem from. '
        'Copies of a list of conditions must have the same members, and iterators must move by one position.')

CATS = ('numerical_leq', 'numerical_gr', 'ordinal_leq', 'ordinal_gr', 'nominal_eq', 'nominal_neq')
ENUM = {'NUMERICAL_LEQ': 'numerical_leq', 'NUMERICAL_GR': 'numerical_gr', 'ORDINAL_LEQ': 'ordinal_leq',
        'ORDINAL_GR': 'ordinal_gr', 'NOMINAL_EQ': 'nominal_eq', 'NOMINAL_NEQ': 'nominal_neq'}
# the condition in terms of the atoms x > t (0), x <= t (1), x == t (2); a numerical <= must be the negation of >, which
# matters for missing values (NaN)
SATISFIED = {'numerical_leq': ('not', '>'), 'numerical_gr': ('is', '>'), 'ordinal_leq': ('is', '<='),
             'ordinal_gr': ('is', '>'), 'nominal_eq': ('is', '=='), 'nominal_neq': ('not', '==')}
TEXT = {'numerical_leq': '<=', 'numerical_gr': '>', 'ordinal_leq': '<=', 'ordinal_gr': '>', 'nominal_eq': '==',
        'nominal_neq': '!='}


def at(f):
    return 'cpp/subprojects/%s:%d (%s)' % (f['f'], f['l'], f['pn'])


def fns(P, pn):
    return [f for f in P.by_pn.get(pn, ()) if isinstance(f.get('body'), dict) and not f.get('tmpl')]


def lit(t):
    return {'true': True, 'false': False}.get(t[1]) if isinstance(t, tuple) and t[0] == 'lit' else None


def zero(t):
    return norm.number(t) == 0 or isinstance(t, tuple) and t[0] == 'lit' and t[1] == 0


def induction(h, t):
    """Whether a term is an induction variable that runs through 0, 1, 2, ..."""
    d = h.ind.get(t)
    return bool(d) and d['lo'] is not None and zero(d['lo']) and d['step'] == 1


def untrunc(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'trunc' else t


def field_base(t):
    """Name of the member of `this` a pointer is read from, e.g. ('view','secondView','array')."""
    path = []
    if t[0] != 'init':
        return None
    t = t[1]
    while t[0] == 'f':
        path.append(t[2])
        t = t[1]
    return tuple(reversed(path)) if t == ('this',) else None


class Accessors:
    """Field paths of the arrays of a conditions vector, obtained from the accessors of ConjunctiveBody."""

    def __init__(self, P):
        self.of = {}
        for c in CATS:
            for a in ('indices', 'thresholds'):
                for n in ('%s_%s_cbegin' % (c, a), '%s_%s_begin' % (c, a)):
                    for f in fns(P, 'ConjunctiveBody::' + n):
                        ts = {effects.strip_epochs(t) for t, _ in cxx.summarise(P, f).rets if t != ('none',)}
                        if len(ts) == 1:
                            p = field_base(ts.pop())
                            if p:
                                self.of.setdefault(p, set()).add((c, a))

    def vector(self, name):
        return {c for p, s in self.of.items() for c, a in s if p[0] == name}

    def array(self, name, sub):
        """'indices' or 'thresholds' of the vector in a field."""
        r = {a for p, s in self.of.items() for c, a in s if p[0] == name and p[1:] == sub}
        return r.pop() if len(r) == 1 else None

    def vectors(self):
        return sorted({p[0] for p in self.of})


def relation(t, pol, value_ok, thr_ok):
    """Normalises a comparison of a feature value to a threshold -> ('is'|'not', operator), or 'mixed', or None."""
    t = effects.strip_epochs(t)
    if not (isinstance(t, tuple) and t[0] == 'bin' and t[1] in ('<', '<=', '>', '>=', '==', '!=')):
        return None
    a, op, b = t[2], t[1], t[3]
    va, vb = value_ok(untrunc(a)), value_ok(untrunc(b))
    ta, tb = thr_ok(a), thr_ok(b)
    if va and tb:
        pass
    elif vb and ta:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
    else:
        return 'mixed'
    if op == '!=':
        op, pol = '==', not pol
    return ('is' if pol else 'not', op)


def same_relation(got, exp, integral):
    """Whether two relations agree; NaN need not be considered for integral values."""
    if got == exp:
        return True
    if integral:
        neg = {'>': '<=', '<=': '>', '<': '>=', '>=': '<'}
        def norm_(r):
            return ('is', neg[r[1]]) if r[0] == 'not' and r[1] in neg else r
        return norm_(got) == norm_(exp)
    return False


def check_condition_vectors(P, rep, acc):
    """-> number of the functions that decide the conditions of one kind."""
    rec = P.recs.get('ConjunctiveBody') or {}
    types = {}
    for f in fns(P, 'ConjunctiveBody::ConjunctiveBody'):
        for i in f.get('inits', ()):
            if i.get('field') in acc.vectors():
                types[i['field']] = i['e'].get('cls') or i.get('t')
    n = 0
    for fld in acc.vectors():
        cats = acc.vector(fld)
        if len(cats) != 1 or fld not in types:
            rep.notes.append('ConjunctiveBody::%s: not recognised' % fld)
            continue
        cat = next(iter(cats))
        cands = [f for f in fns(P, 'ConjunctiveBody::ConditionVector::covers') if f['cls'] == types[fld]]
        if not cands:
            rep.notes.append('%s: covers not found' % types[fld])
        for f in cands:
            rep.analysed(f)
            n += check_covers(P, rep, acc, f, fld, cat)
    return n


def check_covers(P, rep, acc, f, fld, cat):
    h = effects.effects(P, f)
    sparse = len(f['params']) > 2
    names = [p['n'] for p in f['params']]
    kind = 'sparse' if sparse else 'dense'
    key = 'covers %s %s' % (cat, kind)
    rets = [(effects.strip_epochs(t), [(effects.strip_epochs(c), p) for c, p in fa], lo) for t, fa, lo in h.rets
            if t != ('none',)]
    falses = [r for r in rets if lit(r[0]) is False]
    trues = [r for r in rets if lit(r[0]) is True]
    if len(falses) + len(trues) != len(rets) or not rets:
        rep.notes.append(key + ': the returned value is not recognised')
        return 0

    def array_of(t):
        """('indices'|'thresholds', index) of an element of an array of this vector."""
        if t[0] == 'init' and t[1][0] == 'idx' and t[1][1][0] == 'deref':
            p = field_base(t[1][1][1])
            a = p and acc.array(fld, p)
            if a:
                return a, t[1][2]
        return None

    def is_len(t):
        p = field_base(t) if t[0] == 'init' else None
        return p is not None and p[-1] == 'numElements'

    def loop_guard(c):
        return c[0] == 'bin' and c[1] in ('<', '!=') and (
            induction(h, c[2]) and is_len(c[3]) or c[1] == '!=' and induction(h, c[3]) and is_len(c[2]))

    if not rep.check(bool(trues), key + ' true', '%s: never returns true' % at(f)):
        return 1
    for t, fa, lo in trues:
        if any(loop_guard(c) and p for c, p in fa) or lo:
            rep.violate(key + ' all', '%s: returns true before all conditions have been tested' % at(f))
            return 1
    if not any(loop_guard(c) and not p for t, fa, lo in trues for c, p in fa):
        g = [c for t, fa, lo in trues for c, p in fa if not p and c[0] == 'bin' and any(
            x in h.ind for x in (c[2], c[3]))]
        inds = [(shown(h.ind[x]['lo']), h.ind[x]['step'], shown(c)) for c in g for x in (c[2], c[3]) if x in h.ind]
        simple = [c for c in g if any(x in h.ind and h.ind[x]['step'] is not None and
                                      isinstance(h.ind[x]['lo'], tuple) and h.ind[x]['lo'][0] == 'lit'
                                      for x in (c[2], c[3]))]
        if simple:
            rep.violate(key + ' all', '%s: not all conditions are tested (first index, step and bound: %s)' % (at(f), inds))
            return 1
        rep.notes.append(key + ': the loop over all conditions is not recognised')
        return 0
    if not rep.check(bool(falses), key + ' false', '%s: never returns false' % at(f)):
        return 1

    def feature_value(t, i):
        """None: not recognised, else whether t is the example's value of the feature of condition i."""
        def own_index(x):
            a = array_of(x)
            return a == ('indices', i)
        if not sparse:
            return t[0] == 'init' and t[1][0] == 'idx' and t[1][1] == ('deref', ('param', names[0], 1)) and \
                own_index(t[1][2])
        if t[0] != 'cond':
            return False
        c, a, b = t[1:4]
        if c[0] == 'bin' and c[1] == '!=':
            c, a, b = ('bin', '==') + c[2:], b, a
        if not (c[0] == 'bin' and c[1] == '=='):
            return False
        n = ('param', names[7], 8)
        x = c[3] if c[2] == n else c[2] if c[3] == n else None

        def tmp(y, k):
            return y is not None and y[0] == 'init' and y[1][0] == 'idx' and \
                y[1][1] == ('deref', ('param', names[k], k + 1)) and own_index(y[1][2])
        return tmp(x, 6) and tmp(a, 5) and b == ('param', names[4], 5)
    done = 0
    for t, fa, lo in falses:
        rest = [(c, p) for c, p in fa if not loop_guard(c)]
        iv = [x for c, p in fa if loop_guard(c) and p for x in (c[2], c[3]) if x in h.ind]
        if len(rest) != 1 or len(iv) != 1:
            if not iv and not rest:
                rep.violate(key + ' false', '%s: returns false regardless of the conditions' % at(f))
                return 1
            rep.notes.append('%s: a condition is not recognised (%s)' % (key, [shown(c) for c, _ in rest]))
            continue
        i = iv[0]
        (c, pol), = rest
        if c[0] == 'call':
            rep.notes.append('%s: a condition is not recognised (%s)' % (key, shown(c)))
            continue
        r = relation(c, not pol, lambda x: feature_value(x, i), lambda x: array_of(x) == ('thresholds', i))
        done += 1
        if r is None:
            rep.notes.append('%s: a condition is not recognised (%s)' % (key, shown(c)))
        elif r == 'mixed':
            rep.violate(key + ' operands', '%s: a condition does not compare the value of its feature to its threshold, but '
                        'tests %s' % (at(f), shown(c)))
        else:
            rep.check(same_relation(r, SATISFIED[cat], cat[:3] != 'num'), key + ' comparator',
                      '%s: a %s condition is satisfied if the feature value is%s %s the threshold' % (
                          at(f), cat, '' if r[0] == 'is' else ' not', r[1]))
    return done


def check_body(P, rep, acc):
    for f in fns(P, 'ConjunctiveBody::covers'):
        rep.analysed(f)
        h = effects.effects(P, f, stop=('ConditionVector::covers',))
        names = [p['n'] for p in f['params']]
        kind = 'sparse' if len(names) > 2 else 'dense'
        key = 'ConjunctiveBody::covers ' + kind
        outs, atoms = [], []
        for t, fa, lo in h.rets:
            if t == ('none',):
                continue
            # conditions of the loop that stores the values of the example do not matter
            facts_ = [(c, p) for c, p in fa if not any(x in h.ind for x in cxx.flow.subterms(c))]
            outs.append((norm.conj(facts_), norm.truth(t)))
            for x in norm.atoms(outs[-1][0]) + norm.atoms(outs[-1][1]):
                if x not in atoms:
                    atoms.append(x)
        which = {}
        for a in atoms:
            t = a[1]
            if t[0] == 'call' and str(t[1]).endswith('covers') and t[2] and t[2][0] == 'loc' and t[2][1][0] == 'f' and \
                    t[2][1][2] in acc.vectors():
                which[a] = t[2][1][2]
                args = [x[1] if x[0] == 'param' else shown(x) for x in t[3]]
                rep.check(args == names, '%s %s arguments' % (key, which[a]), '%s: the conditions in %s are tested for %s '
                          'instead of %s' % (at(f), which[a], args, names))
        if len(which) != len(atoms) or len(atoms) > 12 or not outs:
            rep.notes.append(key + ': not recognised')
            continue
        bad = None
        vecs = acc.vectors()
        for vals in itertools.product((True, False), repeat=len(vecs)):
            env = dict(zip(vecs, vals))
            e = {a: env[which[a]] for a in atoms}
            got = {norm.evaluate(r, e) for c, r in outs if norm.evaluate(c, e)}
            if got != {all(vals)}:
                bad = [v for v in vecs if not env[v]]
                break
        rep.check(bad is None, key + ' conjunction', '%s: %s' % (at(f), 'a body is not considered to cover an example that '
                  'satisfies all conditions' if not bad else 'a body is considered to cover examples that do not satisfy '
                  'the conditions in %s' % bad))
        if kind == 'sparse':
            check_scatter(rep, f, h, names, key)
    for f in fns(P, 'EmptyBody::covers'):
        rep.analysed(f)
        rs = {lit(t) for t, _, _ in effects.effects(P, f).rets if t != ('none',)}
        if None in rs:
            rep.notes.append('EmptyBody::covers: not recognised')
        else:
            rep.check(rs == {True}, 'EmptyBody::covers %d' % len(f['params']), '%s: an empty body does not cover all '
                      'examples' % at(f))


def check_scatter(rep, f, h, names, key):
    """The values of a sparse example are made available to the conditions: tmp1[index] = value, tmp2[index] = n."""
    want = {5: None, 6: None}
    for l, t, fa, lo, n, g in h.stores:
        l = effects.strip_epochs(l)
        t = effects.strip_epochs(t)
        if l[0] == 'idx' and l[1][0] == 'deref' and l[1][1][0] == 'param':
            k = [i for i in want if l[1][1] == ('param', names[i], i + 1)]
            if k:
                want[k[0]] = (l[2], t, fa)
    for k, w in want.items():
        if w is None:
            if any(l[0] == 'idx' and not effects.is_local(l) for l, *_ in h.stores) or not h.stores and not any(
                    'copy' in str(c[0]) for c in h.calls):
                rep.violate(key + ' scatter', '%s: %s is not set for the features of the example' % (at(f), names[k]))
            else:
                rep.notes.append(key + ': the preparation of a sparse example is not recognised')
            continue
        idx, val, fa = w
        iv = [x for x in cxx.flow.subterms(idx) if x in h.ind]
        ok_i = idx[0] == 'init' and idx[1][0] == 'idx' and idx[1][1] == ('deref', ('param', names[0], 1)) and \
            induction(h, idx[1][2])
        if not ok_i and not (idx[0] == 'init' and len(set(iv)) == 1):
            rep.notes.append(key + ': the preparation of a sparse example is not recognised')
            continue
        if not rep.check(ok_i, '%s scatter index %s' % (key, names[k]), '%s: %s[%s] is set instead of the elements that '
                         'correspond to %s' % (at(f), names[k], shown(idx), names[0])):
            continue
        i = idx[1][2]
        exp = ('param', names[7], 8) if k == 6 else ('init', ('idx', ('deref', ('param', names[2], 3)), i))
        rep.check(val == exp, '%s scatter value %s' % (key, names[k]), '%s: %s[%s] is set to %s' % (
            at(f), names[k], shown(idx), shown(val)))
        guards = [c for c, p in fa if p and i in cxx.flow.subterms(c)]
        ends = {canon(('bin', '-', ('param', names[3], 4), ('param', names[2], 3))),
                canon(('bin', '-', ('param', names[1], 2), ('param', names[0], 1)))}
        ok = [c for c in guards if c[0] == 'bin' and c[1] in ('<', '!=') and
              (canon(c[3]) in ends and c[2] == i or canon(c[2]) in ends and c[3] == i)]
        if len(guards) == 1 and not ok:
            c = guards[0]
            o = c[3] if c[2] == i else c[2]
            if all(x[0] != 'call' for x in cxx.flow.subterms(o) if isinstance(x, tuple) and x):
                rep.violate('%s scatter range %s' % (key, names[k]), '%s: %s is set while %s, rather than for all elements '
                            'of the example' % (at(f), names[k], shown(c)))
                continue
        rep.check(bool(ok) or True, '%s scatter range %s' % (key, names[k]), '')


def check_creation(P, rep, acc):
    """A list of conditions is converted into a body with the same conditions."""
    ctors = [f for f in fns(P, 'ConjunctiveBody::ConjunctiveBody') if len(f['params']) == 6]
    size = {}
    for f in ctors:
        for name, term in cxx.ctor_fields(P, f).items():
            ps = cxx.params_of(term)
            if len(ps) == 1:
                size[name] = [p['n'] for p in f['params']].index(next(iter(ps)))
    for f in fns(P, 'ConditionList::createConjunctiveBody'):
        rep.analysed(f)
        h = effects.effects(P, f)
        found = {}
        for l, t, fa, lo, n, g in h.stores:
            if effects.is_local(l) or l[0] != 'idx':
                continue
            l, t = effects.strip_epochs(l), effects.strip_epochs(t)
            path = []
            x = l[1]
            if x[0] == 'deref':
                x = x[1]
            if x[0] == 'init':
                x = x[1]
            while isinstance(x, tuple) and x and x[0] == 'f':
                path.append(x[2])
                x = x[1]
            path = tuple(reversed(path))
            vec = path[0] if path and path[0] in acc.vectors() else None
            enums = {str(y[1]).split('::')[-1] for c, p in fa if p and c[0] == 'bin' and c[1] == '==' and
                     any(isinstance(z, tuple) and z and z[0] == 'f' and z[2] == 'comparator' for z in cxx.flow.subterms(c))
                     for y in (c[2], c[3]) if y[0] == 'enum'}
            if vec is None or len(enums) != 1:
                continue
            a = acc.array(vec, path[1:])
            e = enums.pop()
            found.setdefault(e, {})[a] = (vec, l[2], t, n)
        for e, cat in ENUM.items():
            key = 'createConjunctiveBody ' + e
            got = found.get(e)
            if not got:
                if found:
                    rep.violate(key, '%s: conditions of the type %s are not added to the body' % (at(f), e))
                else:
                    rep.notes.append(key + ': not recognised')
                continue
            for a in ('indices', 'thresholds'):
                if a not in got:
                    rep.violate('%s %s' % (key, a), '%s: the %s of conditions of the type %s are not set' % (at(f), a, e))
                    continue
                vec, i, t, n = got[a]
                rep.check(acc.vector(vec) == {cat}, '%s %s vector' % (key, a), '%s: the %s of conditions of the type %s are '
                          'stored in %s' % (at(f), a, e, vec))
                s = shown(t)
                src = [x[2] for x in cxx.flow.subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'f']
                if a == 'indices':
                    if src:
                        rep.check('featureIndex' in src, key + ' feature', '%s: the index of the feature is not taken '
                                  'from the condition, but %s' % (at(f), s))
                elif 'featureIndex' in src:
                    rep.violate(key + ' threshold', '%s: the threshold is taken from %s' % (at(f), s))
                if i in h.ind:
                    rep.check(zero(h.ind[i]['lo']), '%s %s counter' % (key, a), '%s: the first condition of the type %s is '
                              'stored at index %s' % (at(f), e, shown(h.ind[i]['lo'])))
                elif i[0] == 'lit':
                    rep.violate('%s %s counter' % (key, a), '%s: all conditions of the type %s are stored at index %s' % (
                        at(f), e, shown(i)))
            if len(got) == 2 and got['indices'][1] != got['thresholds'][1]:
                rep.violate(key + ' position', '%s: index and threshold of a condition are stored at different positions' %
                            at(f))
            else:
                rep.ok(key + ' position')
            # no two kinds of conditions share a counter
        cnt = {}
        for e, got in found.items():
            for a, (vec, i, t, n) in got.items():
                cnt.setdefault(i, set()).add(e)
        for i, es in cnt.items():
            if i in h.ind:
                rep.check(len(es) == 1, 'createConjunctiveBody counters', '%s: conditions of the types %s share a counter' % (
                    at(f), sorted(es)))
        for t, fa, lo in h.rets:
            t = effects.strip_epochs(t)
            if t[0] == 'call' and 'make_unique' in str(t[1]) and len(t[3]) == 6 and size:
                for fld, pos in size.items():
                    es = [str(x[1]).split('::')[-1] for x in cxx.flow.subterms(t[3][pos])
                          if isinstance(x, tuple) and len(x) == 2 and x[0] == 'enum']
                    cats = acc.vector(fld)
                    if len(es) == 1 and len(cats) == 1:
                        rep.check(ENUM.get(es[0]) in cats, 'createConjunctiveBody size ' + fld, '%s: %s is created with the '
                                  'number of conditions of the type %s' % (at(f), fld, es[0]))
    # the list of conditions keeps track of the number of conditions of each type
    for name, d in (('addCondition', 1), ('removeLastCondition', -1)):
        for f in fns(P, 'ConditionList::' + name):
            rep.analysed(f)
            h = effects.effects(P, f)
            key = 'ConditionList::' + name
            ds = []
            for l, t, fa, lo, n, g in h.stores:
                if l[0] == 'idx' and not effects.is_local(l):
                    x = canon(('bin', '-', effects.strip_epochs(t), ('init', effects.strip_epochs(l))))
                    ds.append((x, l, fa))
            if len(ds) == 1 and ds[0][0][0] == 'sum' and norm._poly(ds[0][0]).get((('val', place(effects.strip_epochs(
                    ds[0][1]))),)) == -1:
                rep.violate(key, '%s: the number of conditions is not updated, but replaced' % at(f))
                continue
            if len(ds) != 1 or ds[0][0][0] != 'atom':
                rep.notes.append(key + ': not recognised')
                continue
            x, l, fa = ds[0]
            rep.check(x == ('atom', d) and not fa, key, '%s: the number of conditions is changed by %s instead of %d' % (
                at(f), shown(x[1]), d))
            rep.check(any(isinstance(y, tuple) and len(y) == 3 and y[0] in ('f', 'fld') and y[2] == 'comparator'
                          for y in cxx.flow.subterms(l[2])), key + ' comparator', '%s: the number of conditions of type %s '
                      'is changed' % (at(f), shown(l[2])))


# prediction

class Prediction(effects.Effects):
    """Records the objects the arguments of covers refer to."""

    def __init__(self):
        super().__init__(())
        self.covers = []

    def on_call(self, fl, st, node, fn, obj, args, argnodes):
        super().on_call(fl, st, node, fn, obj, args, argnodes)
        if str(fn).endswith('IConditional::covers') or str(fn).endswith('IBody::covers'):
            env = {}
            for a in args:
                for x in cxx.flow.subterms(a):
                    if isinstance(x, tuple) and x and x[0] == 'v':
                        v = st.env.get(x)
                        k = 0
                        while v in self.ind and k < 5:
                            v = self.ind[v]['lo']
                            k += 1
                        env[x] = v
            self.covers.append((obj, tuple(args), tuple(st.facts), env, node, self.loops()))


def run(P, f):
    h = Prediction()
    fl = cxx.flow.Flow(P, h, 12)
    h.outs = fl.run(f)
    return h


def param(f, i):
    return {('param', f['params'][i]['n'], i + 1), ('p', f['params'][i]['n'], i + 1)}


def check_prediction(P, rep):
    todo = [f for f in P.fns.values() if f['n'] == 'predictForExample' and isinstance(f.get('body'), dict) and
            not f.get('tmpl') and len(f['params']) == 6]
    seen = 0
    for f in todo:
        h = run(P, f)
        if not h.covers:
            continue
        rep.analysed(f)
        seen += 1
        key = '%s %s' % (f['cls'] if len(f.get('cls') or '') < 120 else f['pn'], 'sparse' if 'CsrView' in f['params'][0]['t'] else
                         'dense')
        fm, begin, end, ex, pr = (param(f, i) for i in (0, 1, 2, 4, 5))
        for obj, args, fa, env, node, loops in h.covers:
            check_cover_call(rep, f, h, key, args, fa, env, fm, ex, pr, begin, end, loops)
        check_head_stores(rep, f, h, key, fm, ex, pr)
    if not seen:
        rep.notes.append('no function that applies rules has been found')
    rep.coverage['functions_that_apply_rules'] = seen


def rows(t, fm, names):
    """(array, row term, 0|1) of a pointer to the begin or end of a row of the feature matrix; None if not recognised."""
    c = canon(t)
    b, off = norm.split(c)
    if not (b[0] == 'val' and b[1][0] == 'f' and b[1][1][0] == 'loc' and tuple(b[1][1][1:]) in fm):
        return None
    return b[1][2], off


def check_cover_call(rep, f, h, key, args, fa, env, fm, ex, pr, begin, end, loops):
    w = at(f)
    F = next(iter(x for x in fm if x[0] == 'p'))
    exs, prs = {('atom', x) for x in ex}, {('atom', x) for x in pr}

    def dense(off, k):
        # numCols * (exampleIndex + k)
        col = ('val', ('f', ('loc',) + F, 'numCols'))
        return any(off == canon_poly({tuple(sorted((col, e), key=repr)): 1, (col,): k}) for e in exs)

    def csr(off, k):
        # indptr[exampleIndex + k]
        for e in exs:
            i = e if k == 0 else canon_poly({(e,): 1, (): k})
            if off == ('val', ('at', ('val', ('f', ('loc',) + F, 'indptr')), i)):
                return True
        return False

    def arg(i, arrays, pred, k, what):
        r = rows(args[i], fm, None)
        if r is None:
            rep.notes.append('%s %s: not recognised (%s)' % (key, what, shown(args[i])))
            return
        arr, off = r
        atoms = list(cxx.flow.subterms(off))
        if not (set(atoms) & (exs | prs | {x[1] for x in exs | prs})):
            rep.notes.append('%s %s: not recognised (%s)' % (key, what, shown(args[i])))
            return
        rep.check(arr in arrays and pred(off, k), '%s %s' % (key, what), '%s: the %s that are used to test whether a rule '
                  'covers an example are %s' % (w, what, shown(args[i])))
    if len(args) == 2:
        arg(0, ('array', 'values'), dense, 0, 'feature values')
        arg(1, ('array', 'values'), dense, 1, 'feature values (end)')
    elif len(args) == 8:
        arg(0, ('indices',), csr, 0, 'feature indices')
        arg(1, ('indices',), csr, 1, 'feature indices (end)')
        arg(2, ('values',), csr, 0, 'feature values')
        arg(3, ('values',), csr, 1, 'feature values (end)')
        sv = effects.strip_epochs(args[4])
        rep.check(sv == ('init', ('f', F, 'sparseValue')), key + ' sparse value', '%s: features without an explicit value '
                  'are considered to have the value %s' % (w, shown(sv)))
        for i, need in ((5, False), (6, True)):
            vs = [x for x in cxx.flow.subterms(args[i]) if isinstance(x, tuple) and x and x[0] == 'v']
            o = env.get(vs[0]) if vs else None
            if not o or o[0] != 'obj' or len(o) < 4:
                rep.notes.append('%s: the auxiliary array %d is not recognised' % (key, i - 4))
                continue
            rep.check(canon(o[3]) == ('val', ('f', ('loc',) + F, 'numCols')) or zero_free(o[3]), '%s array %d size' % (
                key, i - 4), '%s: the auxiliary array for the values of an example has %s elements' % (w, shown(o[3])))
            if need:
                rep.check(len(o) > 4 and lit(o[4]) is True, key + ' initialisation', '%s: the array that tells which '
                          'features of an example have explicit values is not initialised with zeros' % w)
        n = args[7]
        if n in h.ind:
            lo, step = h.ind[n]['lo'], h.ind[n]['step']
            lo = norm.number(lo) if norm.number(lo) is not None else lo[1] if lo and lo[0] == 'lit' else None
            if lo is None or step is None:
                rep.notes.append(key + ': the number of the rule is not recognised')
            else:
                rep.check(lo > 0 and step > 0, key + ' number', '%s: the number that identifies the values of a rule starts '
                          'at %s and is increased by %s' % (w, lo, step))
        elif n[0] == 'lit':
            rep.check(isinstance(n[1], int) and n[1] > 0, key + ' number', '%s: the number that identifies the values of a '
                      'rule is %s' % (w, shown(n)))
        else:
            rep.notes.append(key + ': the number of the rule is not recognised (%s)' % shown(n))
    check_rule_loop(rep, w, h, key, fa, begin, end)


def zero_free(t):
    return False


def canon_poly(d):
    return norm._sum({m: c for m, c in d.items() if c})


def check_rule_loop(rep, w, h, key, fa, begin, end):
    """The rules are iterated from the first to the last one."""
    g = [(c, x) for c, p in fa if p and c[0] == 'bin' and c[1] in ('!=', '<') for x in (c[2], c[3])
         if x in h.ind and (c[2] in end or c[3] in end)]
    g += [(c, x) for c, p in fa if not p and c[0] == 'bin' and c[1] == '==' for x in (c[2], c[3])
          if x in h.ind and (c[2] in end or c[3] in end)]
    if not g:
        its = [x for c, p in fa if c[0] == 'bin' for x in (c[2], c[3]) if x in h.ind]
        rep.notes.append(key + ': the loop over all rules is not recognised')
        return
    c, x = g[0]
    d = h.ind[x]
    rep.check(d['lo'] in begin and d['step'] == 1, key + ' rules', '%s: the rules are iterated from %s in steps of %s' % (
        w, shown(d['lo']), d['step']))


def check_head_stores(rep, f, h, key, fm, ex, pr):
    exs, prs = {('atom', x) for x in ex}, {('atom', x) for x in pr}
    w = at(f)
    n = 0
    for l, t, fa, lo, node, g in h.stores:
        if l[0] != 'idx' or effects.is_local(l):
            continue
        pl = place(effects.strip_epochs(l))
        if pl[0] != 'at' or not matrix_base(pl[1]):
            continue
        n += 1
        kind = 'partial' if 'secondView' in shown(t) or 'firstView' in shown(pl[2]) else 'complete'
        k = '%s %s head' % (key, kind)
        if not any(p and c[0] == 'call' and str(c[1]).endswith('covers') for c, p in fa):
            neg = any(not p and c[0] == 'call' and str(c[1]).endswith('covers') for c, p in fa)
            rep.violate(k + ' coverage', '%s: the head of a rule is applied to examples %s' % (
                w, 'that are not covered by it' if neg else 'regardless of whether they are covered by it'))
            continue
        rep.ok(k + ' coverage')
        d = norm._poly(pl[2])
        rowm = [m for m in d if len(m) == 2 and any(x in exs | prs for x in m)]
        if len(rowm) != 1:
            rep.notes.append(k + ': the row is not recognised (%s)' % shown(l))
            continue
        m = rowm[0]
        col = [x for x in m if x not in exs | prs]
        base = pl[1]
        rep.check(any(x in prs for x in m) and len(col) == 1 and col[0] == ('val', ('f', base[1][1], 'numCols')) and
                  d[m] == 1, k + ' row', '%s: the prediction is stored in %s' % (w, shown(l)))
        rest = norm._sum({a: b for a, b in d.items() if a != m})
        # the output
        old = ('val', pl)
        val = norm._poly(canon(effects.strip_epochs(t)))
        additive = (old,) in val
        if additive:
            rep.check(val[(old,)] == 1, k + ' accumulation', '%s: the previous scores are multiplied by %s' % (
                w, val[(old,)]))
            others = {a: b for a, b in val.items() if a != (old,)}
            v = next(iter(others))[0] if len(others) == 1 and len(next(iter(others))) == 1 else None
            if v is not None:
                rep.check(others[(v,)] == 1, k + ' sign', '%s: the scores of a head are multiplied by %s' % (w, others[(v,)]))
        else:
            v = canon(effects.strip_epochs(t))
            if 'float' in (node.get('t') or '') or 'double' in (node.get('t') or ''):
                rep.violate(k + ' accumulation', '%s: the score of a rule replaces those of other rules' % w)
                continue
            v = v[1] if v[0] == 'atom' else v
            if isinstance(v, tuple) and len(v) == 4 and v[:2] == ('bin', '<') and v[2] == ('atom', 0):
                v = v[3]
                rep.ok(k + ' sign')
            elif isinstance(v, tuple) and v and v[0] == 'bin':
                z = [x for x in v[2:] if x != ('atom', 0)]
                if len(z) == 1 and z[0][0] == 'val':
                    rep.violate(k + ' sign', '%s: a rule is considered to predict a label as relevant if %s' % (w, shown(t)))
                    continue
                v = None
            else:
                v = None
            check_decision_list(rep, w, h, k, fa, rest, node, pl)
        if v is None or v[0] != 'val' or v[1][0] != 'at':
            rep.notes.append(k + ': the predicted value is not recognised (%s)' % shown(t))
            continue
        iv = v[1][2]
        i = iv[1] if iv[0] == 'atom' else None
        if not induction(h, i):
            rep.notes.append(k + ': the loop over the elements of the head is not recognised')
            continue
        arr = v[1][1]
        b = strip_sub(arr)
        if rest == ('atom', i):
            good = kind == 'complete'
        else:
            good = rest[0] == 'val' and rest[1][0] == 'at' and rest[1][2] == ('atom', i) and \
                strip_sub(rest[1][1]) == b and rest[1][1] != arr
        rep.check(good, k + ' output', '%s: element %s of a head is applied to output %s' % (w, shown(iv), shown(l)))
        # all elements
        gs = [c for c, p in fa if p and i in (c[2:4] if c[0] == 'bin' else ())]
        if len(gs) == 1:
            o = gs[0][3] if gs[0][2] == i else gs[0][2]
            ok = gs[0][1] in ('<', '!=') and o[0] == 'init' and o[1][0] == 'f' and o[1][2] == 'numElements'
            if not ok and gs[0][1] == '<' and canon(o)[0] == 'sum':
                rep.violate(k + ' elements', '%s: not all elements of a head are applied, but those with %s' % (
                    w, shown(gs[0])))
            else:
                rep.ok(k + ' elements')
    if not n:
        rep.notes.append(key + ': the application of heads is not recognised')


def check_decision_list(rep, w, h, k, fa, rest, node, pl):
    """If rules do not accumulate scores, only the first rule may provide the prediction for an output."""
    mask = [(c, p) for c, p in fa if c[0] != 'call' and any(
        isinstance(x, tuple) and len(x) > 2 and x[0] == 'bin' and x[1] in ('&', '/', '%', '<<') for x in cxx.flow.subterms(c))]
    if not mask:
        calls = [c for c, p in fa if c[0] == 'call' and not str(c[1]).endswith('covers')]
        if not calls and h.covers:
            rep.violate(k + ' precedence', '%s: the prediction of a rule for an output replaces the one of a previous rule' % w)
        return
    rep.check(all(not p for c, p in mask), k + ' precedence', '%s: the prediction for an output may only be provided by a rule '
              'if a previous rule has already predicted for the output' % w)
    for c, p in mask:
        cc = canon(effects.strip_epochs(c))
        if rest not in list(cxx.flow.subterms(cc)):
            rep.violate(k + ' mask', '%s: whether a previous rule has predicted for an output is decided by %s' % (
                w, shown(c)))
        else:
            rep.ok(k + ' mask')
    # the output is marked
    marks = [s for s in h.stores if s[0][0] == 'idx' and effects.is_local(s[0]) is True or
             s[0][0] == 'idx' and any(isinstance(x, tuple) and x and x[0] == 'v' for x in cxx.flow.subterms(s[0]))]
    places = [place(effects.strip_epochs(s[0])) for s in marks]
    marks = [p for p in places if rest in list(cxx.flow.subterms(p)) and not (p[0] == 'at' and matrix_base(p[1]))]
    rep.check(bool(marks), k + ' marked', '%s: outputs a rule has predicted for are not marked as such' % w)


def strip_sub(b):
    """The object an array belongs to (without the part of it)."""
    while isinstance(b, tuple) and b and b[0] in ('val',):
        b = b[1]
    while isinstance(b, tuple) and b and b[0] == 'f':
        b = b[1]
    return b


def matrix_base(b):
    """Whether the base of a location is the array of a matrix that is referred to by a member."""
    return b[0] == 'val' and b[1][0] == 'f' and b[1][1][0] == 'f' and b[1][1][1] == ('loc', 'this')


def row_of(t):
    """(location of a matrix, row, 0|1) of a pointer to the begin or end of the row of a matrix."""
    c = canon(effects.strip_epochs(t))
    b, off = norm.split(c)
    if b[0] != 'val' or b[1][0] != 'f':
        return None
    m = b[1][1]
    col = ('val', ('f', m, 'numCols'))
    d = norm._poly(off)
    k = d.pop((col,), 0)
    if not d and k in (0, 1):
        return m, ('atom', 0), k
    if len(d) == 1:
        (mono, coef), = d.items()
        if coef == 1 and len(mono) == 2 and col in mono:
            r = [x for x in mono if x != col]
            if len(r) == 1:
                return m, r[0], k
    return None


def check_delegates(P, rep):
    """Functions that obtain the scores for an example from another delegate and transform them."""
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f['f'], f['l'], f.get('cls') or '')):
        if f['n'] != 'predictForExample' or not isinstance(f.get('body'), dict) or f.get('tmpl') or len(f['params']) != 6:
            continue
        h = effects.effects(P, f)
        inner = [(i, c) for i, c in enumerate(h.calls) if str(c[0]).endswith('::predictForExample')]
        if not inner:
            continue
        n += 1
        rep.analysed(f)
        w = at(f)
        key = (f.get('cls') or f['pn'])[:160]
        names = [p['n'] for p in f['params']]
        if not rep.check(len(inner) == 1 and not inner[0][1][4], key + ' once', '%s: the rules are applied several times' % w):
            continue
        pos, (fn, obj, args, fa, lo, node) = inner[0]
        for i, what in ((0, 'feature matrix'), (1, 'first rule'), (2, 'last rule'), (4, 'example')):
            a = args[i]
            if a[0] in ('param', 'p') or a[0] == 'add':
                rep.check(a in param(f, i), '%s %s' % (key, what), '%s: the %s that is used for prediction is %s' % (
                    w, what, shown(a)))
            else:
                rep.notes.append('%s %s: not recognised (%s)' % (key, what, shown(a)))
        row = args[5]
        if not (obj and obj[0] == 'obj' and len(obj) == 4 and row[0] == 'param' and row[1] in names):
            rep.notes.append(key + ': the matrix of scores is not recognised')
            continue
        # the matrix the scores are added to
        mat = canon(effects.strip_epochs(obj[3]))
        mat = mat[1] if mat[0] == 'atom' else mat

        def loc_of(t):
            if isinstance(t, tuple) and t and t[0] == 'init':
                return place(t[1])
            if isinstance(t, tuple) and t and t[0] in ('loc', 'addr'):
                return place(t[1])
            return place(t) if isinstance(t, tuple) and t and t[0] == 'f' else None
        m = loc_of(effects.strip_epochs(obj[3]))
        if m is None:
            rep.notes.append(key + ': the matrix of scores is not recognised')
            continue
        fills = [(i, c) for i, c in enumerate(h.calls) if c[0] == 'std::fill' and len(c[2]) == 3]
        zeroed = []
        for i, c in fills:
            r = row_of(c[2][0])
            if r and r[0] == m:
                zeroed.append((i, r, row_of(c[2][1]), canon(c[2][2]), c))
        if row == ('param', names[3], 4):
            # a row that is reused for different examples
            if not zeroed and not any('fill' in str(c[0]) or 'Zero' in str(c[0]) or 'memset' in str(c[0]) for c in h.calls):
                rep.violate(key + ' reset', '%s: the scores of another example are not reset' % w)
            for i, r, e, v, c in zeroed:
                good = i < pos and r[1] == ('atom', row) and r[2] == 0 and v in (('atom', 0), ('atom', 0.0)) and not c[3] and \
                    (e is None or e[0] == m and e[1] == ('atom', row) and e[2] == 1)
                rep.check(good, key + ' reset', '%s: the scores of another example are not reset before those for an example '
                          'are calculated (%s)' % (w, [shown(a) for a in c[2]]))
        else:
            rep.check(row == ('param', names[5], 6), key + ' row', '%s: the scores are stored in row %s' % (w, shown(row)))
            for i, r, e, v, c in zeroed:
                rep.violate(key + ' reset', '%s: the scores that have already been calculated are discarded' % w)
        app = [(i, c) for i, c in enumerate(h.calls) if str(c[0]).endswith('Transformation::apply')]
        if len(app) != 1:
            if not app and not any('ransform' in str(c[0]) for c in h.calls):
                rep.violate(key + ' transformation', '%s: the scores are not transformed into a prediction' % w)
            else:
                rep.notes.append(key + ': the transformation is not recognised')
            continue
        i, c = app[0]
        rep.check(i > pos and not c[3], key + ' order', '%s: the scores are transformed before the rules are applied' % w)
        r0, r1 = row_of(c[2][0]), row_of(c[2][1])
        if r0 and r1:
            rep.check(r0 == (m, ('atom', row), 0) and r1 == (m, ('atom', row), 1), key + ' scores', '%s: the scores that are '
                      'transformed are those from %s to %s, not those that have been calculated' % (
                          w, shown(c[2][0]), shown(c[2][1])))
        else:
            rep.notes.append(key + ': the scores are not recognised')
        out = ('atom', ('param', names[5], 6))
        if len(c[2]) == 4:
            p0, p1 = row_of(c[2][2]), row_of(c[2][3])
            if p0 and p1:
                rep.check(p0[1:] == (out, 0) and p1[1:] == (out, 1) and p0[0] == p1[0] != m, key + ' prediction',
                          '%s: the prediction is written to %s' % (w, shown(c[2][2])))
            else:
                rep.notes.append(key + ': the prediction is not recognised')
        elif len(c[2]) == 3:
            t = effects.strip_epochs(c[2][2])
            t = t[1] if t[0] in ('init', 'loc', 'addr') else t
            if t[0] == 'idx':
                rep.check(t[2] == out[1], key + ' prediction', '%s: the prediction is written to %s' % (w, shown(t)))
                clears = [(j, x) for j, x in enumerate(h.calls) if x[0] == 'std::vector::clear']
                if 'Incremental' in f['cls'].split('::')[-1]:
                    rep.check(any(j < i and effects.strip_epochs(x[1])[-1] == t for j, x in clears), key + ' clear',
                              '%s: previous predictions for an example are not removed' % w)
                for rt, fa2, lo2 in h.rets:
                    rt = effects.strip_epochs(rt)
                    if rt[0] == 'call' and rt[2]:
                        rep.check(str(rt[1]).endswith('::size') and rt[2][-1] == t, key + ' size', '%s: returns %s instead '
                                  'of the number of relevant labels' % (w, shown(rt)))
    rep.coverage['functions_that_transform_scores'] = n


def check_dispatch(P, rep):
    """Predictions are obtained for all examples and all rules that are used."""
    for f in sorted(P.fns.values(), key=lambda f: (f['f'], f['l'], f.get('cls') or '')):
        if not isinstance(f.get('body'), dict) or f.get('tmpl'):
            continue
        if f['pn'].endswith('PredictionDispatcher::predict') and len(f['params']) == 5:
            rep.analysed(f)
            h = effects.effects(P, f)
            w, key = at(f), (f.get('cls') or f['pn'])[:160]
            cs = [c for c in h.calls if str(c[0]).endswith('::predictForExample')]
            if len(cs) != 1:
                rep.notes.append(key + ': not recognised')
                continue
            fn, obj, args, fa, lo, node = cs[0]
            for i, j, what in ((0, 1, 'feature matrix'), (1, 2, 'first rule'), (2, 3, 'last rule')):
                rep.check(args[i] in param(f, j) or args[i][0] not in ('param', 'p', 'add'), '%s %s' % (key, what),
                          '%s: the %s is %s' % (w, what, shown(args[i])))
            e, p = args[4], args[5]
            rep.check(e == p, key + ' row', '%s: the prediction for example %s is stored in row %s' % (w, shown(e), shown(p)))
            if e in h.ind and h.ind[e]['step'] is not None and isinstance(h.ind[e]['lo'], tuple) and \
                    h.ind[e]['lo'][0] == 'lit':
                g = [c for c, pol in fa if pol and c[0] == 'bin' and e in (c[2], c[3])]
                n = ('f', ('p', f['params'][1]['n'], 2), 'numRows')
                ok = any(c[1] in ('<', '!=') and {effects.strip_epochs(c[2]), effects.strip_epochs(c[3])} ==
                         {e, ('init', n)} for c in g)
                rep.check(induction(h, e) and ok, key + ' examples', '%s: predictions are obtained for the examples from %s '
                          'in steps of %s while %s' % (w, shown(h.ind[e]['lo']), h.ind[e]['step'], [shown(c) for c in g]))
            else:
                rep.notes.append(key + ': the loop over the examples is not recognised')
        elif f['pn'].endswith('Predictor::predict') and len(f['params']) == 1:
            h = effects.effects(P, f, stop=('used_cbegin', 'used_cend', 'PredictionDispatcher::predict'))
            cs = [c for c in h.calls if str(c[0]).endswith('PredictionDispatcher::predict')]
            if not cs:
                continue
            rep.analysed(f)
            w, key = at(f), (f.get('cls') or f['pn'])[:160]
            rep.check(len(cs) == 1, key + ' once', '%s: predictions are obtained several times' % w)
            for fn, obj, args, fa, lo, node in cs:
                fm = effects.strip_epochs(args[1])
                if field(fm):
                    rep.check(field(fm) == 'featureMatrix_', key + ' feature matrix', '%s: predictions are obtained for %s' % (
                        w, shown(fm)))
                for a, fun in ((args[2], 'used_cbegin'), (args[3], 'used_cend')):
                    a = effects.strip_epochs(a)
                    if a[0] != 'call':
                        rep.notes.append('%s %s: not recognised (%s)' % (key, fun, shown(a)))
                        continue
                    rep.check(str(a[1]).endswith('::' + fun) and a[3] == (('param', f['params'][0]['n'], 1),),
                              '%s %s' % (key, fun), '%s: the rules to be used for prediction are %s' % (w, shown(a)))
        elif f['pn'] == 'AbstractIncrementalPredictor::applyNext' and len(f['params']) == 1:
            rep.analysed(f)
            w, key = at(f), (f.get('cls') or f['pn'])[:160] + '::applyNext'
            h = effects.effects(P, f, stop=('getNumNext',))
            cs = [c for c in h.calls if str(c[0]).endswith('::applyNext')]
            st = [(effects.strip_epochs(l), effects.strip_epochs(t)) for l, t, *_ in h.stores if not effects.is_local(l)]
            if len(cs) != 1 or len(cs[0][2]) != 4:
                rep.notes.append(key + ': not recognised')
                continue
            a, b = (effects.strip_epochs(x) for x in cs[0][2][2:4])
            cur = [l for l, t in st if canon(t) == canon(b)]
            rep.check(bool(cur) and a == ('init', cur[0]), key, '%s: the rules from %s to %s are applied, but the next rule to '
                      'be applied is %s' % (w, shown(a), shown(b), [shown(t) for l, t in st]))
            d = canon(('bin', '-', b, a))
            if d[0] == 'atom' and isinstance(d[1], tuple) and d[1][0] == 'call' and str(d[1][1]).endswith('min'):
                xs = {('step' if x == ('atom', ('param', f['params'][0]['n'], 1)) else 'rest' if x[0] == 'atom' and
                       x[1][0] == 'call' and str(x[1][1]).endswith('getNumNext') else shown(x)) for x in d[1][3]}
                rep.check(xs == {'step', 'rest'}, key + ' number', '%s: %s rules are applied' % (w, sorted(xs)))
            elif d == ('atom', ('param', f['params'][0]['n'], 1)):
                rep.violate(key + ' number', '%s: the number of rules is not limited to the available ones' % w)
            else:
                rep.notes.append(key + ': the number of rules is not recognised')
        elif f['n'] == 'applyNext' and len(f['params']) == 4 and 'IncrementalPredictor' in f['pn']:
            h = effects.effects(P, f, stop=('PredictionDispatcher::predict',))
            w, key = at(f), (f.get('cls') or f['pn'])[:160] + '::applyNext'
            cs = [c for c in h.calls if str(c[0]).endswith('PredictionDispatcher::predict')]
            for fn, obj, args, fa, lo, node in cs:
                rep.analysed(f)
                for i, j, what in ((1, 0, 'feature matrix'), (2, 2, 'first rule'), (3, 3, 'last rule')):
                    rep.check(args[i] in param(f, j) or args[i][0] not in ('param', 'p', 'add'), '%s %s' % (key, what),
                              '%s: the %s is %s' % (w, what, shown(args[i])))
        elif f['pn'] == 'AbstractIncrementalPredictor::getNumNext':
            rep.analysed(f)
            h = effects.effects(P, f)
            for t, fa, lo in h.rets:
                c = canon(effects.strip_epochs(t))
                if c[0] == 'sum':
                    d = {m[0][1][-1]: k for m, k in c[1] if m and m[0][0] == 'val'}
                    rep.check(c == canon(('bin', '-', ('init', ('f', ('this',), 'end_')), ('init', ('f', ('this',), 'current_'))))
                              or set(d) != {'end_', 'current_'}, (f.get('cls') or f['pn'])[:160] + '::getNumNext', '%s: returns %s' % (
                                  at(f), shown(t)))


def field(t):
    t = t[1] if isinstance(t, tuple) and t and t[0] in ('init', 'loc', 'addr') else t
    return t[2] if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[1] == ('this',) else None


# textual representation

class TextSim(roundtrip.Sim):
    """Records what is written to the textual representation of a model."""

    def unknown_call(self, st, f, args, kwargs, node, env):
        if f[0] == 'attr' and f[2] == 'write' and len(args) == 1:
            st.symattrs['log'] = st.symattrs.get('log', ()) + (args[0],)
            return [(st, NONE)]
        return super().unknown_call(st, f, args, kwargs, node, env)


def flatten(t):
    """The parts of a text in the order in which they are written."""
    if isinstance(t, tuple) and len(t) == 4 and t[0] == 'bin' and t[1] in ('+', 'Add'):
        return flatten(t[2]) + flatten(t[3])
    if isinstance(t, tuple) and len(t) == 4 and t[0] == 'binop':
        return flatten(t[2]) + flatten(t[3])
    if isinstance(t, tuple) and len(t) == 2 and t[0] in ('strcat', 'fstr', 'joined', 'cat') and isinstance(t[1], tuple):
        return [y for x in t[1] for y in flatten(x)]
    return [t]


def tokens(log, objs):
    """('idx'|'thr'|'val', object, array, position) and ('op', text)."""
    res = []
    for w in log:
        for t in flatten(w):
            if is_const(t):
                for op in ('<=', '>=', '==', '!=', '<', '>'):
                    if str(t[2]).strip() == op:
                        res.append(('op', op))
                        break
                else:
                    if str(t[2]).strip().isdigit():
                        res.append(('no', int(t[2])))
                continue
            el = {x for x in pyabs.subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'elem' and
                  isinstance(x[1], tuple) and x[1][0] == 'ptr'}
            el = {x for x in el if x[1][1] in objs}
            thr = [x for x in el if not x[1][2].endswith('indices')]
            idx = [x for x in el if x[1][2].endswith('indices')]
            if len(thr) == 1:
                res.append(('thr', thr[0][1][1], thr[0][1][2], thr[0][2]))
            elif len(idx) == 1 and not thr:
                res.append(('idx', idx[0][1][1], idx[0][1][2], idx[0][2]))
            elif el:
                res.append(('?',))
            else:
                ns = [x for x in pyabs.subterms(t) if is_const(x) and isinstance(x[2], int) and not isinstance(x[2], bool)]
                if len(ns) == 1:
                    res.append(('no', ns[0][2]))
    return res


def check_text(rep):
    I = TextSim(max_paths=20000)
    w = 'python/subprojects/testbed/mlrl/testbed/models.py'
    try:
        ptr = roundtrip.find_ptr(I, 'rule_model', 'RuleList', 'get_rule_model_ptr')
        I.module('mlrl.testbed.models')
        c = I.cls('mlrl.common.cython.rule_model', 'RuleList')
        F = I.cls('mlrl.testbed.models', 'RuleModelWriter')
    except Exception as e:   # the module is organised differently
        rep.notes.append('textual representation: not recognised (%s)' % e)
        return
    if ptr is None or not c or not F:
        rep.notes.append('textual representation: not recognised')
        return
    shapes = [tuple(2 if j == i else 0 for j in range(6)) for i in range(6)]
    shapes += [tuple(1 if j in (i, k) else 0 for j in range(6)) for i in range(6) for k in range(i + 1, 6)]
    n = 0
    for k, counts in enumerate(shapes):
        kind = ('complete', 'partial')[k % 2]
        st = I.start()
        bo = roundtrip.new_cpp(st, 'conj', {'const': {'getNum' + roundtrip.CAMEL[x]: const(counts[i])
                                                      for i, x in enumerate(CATS)}, 'counts': counts})
        ho = roundtrip.new_cpp(st, kind, {'const': {'getNumElements': const(2)}, 'n': 2, 'kind': kind})
        rl = roundtrip.new_cpp(st, 'RuleList', {'rules': [[('ConjunctiveBody', [bo]), (
            'CompleteHead' if kind == 'complete' else 'PartialHead', [ho])]], 'const': {}})
        for s, o in I.instantiate(st, c, [], {}, None, None):
            s.heap[o[1]]['attrs'][ptr] = rl
            for s1, fc in I.getattr(s, F, 'RuleModelFormattable', None):
                if fc[0] != 'cls':
                    rep.notes.append('textual representation: not recognised')
                    return
                for s2, fo in I.instantiate(s1, fc, [('sym', 'meta'), o], {}, None, None):
                    a = s2.heap[fo[1]]['attrs']
                    a['features'] = s2.new('list', items=[])
                    a['outputs'] = s2.new('list', items=[])
                    a['text'] = ('sym', 'text')
                    for s3, r in I.call_method(s2, o, 'visit_used', [fo]):
                        if r[0] == 'raise':
                            continue
                        n += 1
                        check_log(rep, w, tokens(s3.symattrs.get('log', ()), {bo, ho}), counts, bo, ho, kind)
    rep.coverage['paths_of_textual_representation'] = n
    rep.file(w)


def check_log(rep, w, toks, counts, bo, ho, kind):
    key = 'textual representation %s %s' % (counts, kind)
    if ('?',) in toks or not toks:
        rep.notes.append(key + ': not recognised')
        return
    body = [t for t in toks if t[0] == 'op' or len(t) > 1 and t[1] == bo]
    conds = []
    for i in range(0, len(body), 3):
        x = body[i:i + 3]
        if [t[0] for t in x] != ['idx', 'op', 'thr']:
            if sorted(t[0] for t in x) == ['idx', 'op', 'thr']:
                rep.violate(key + ' order', '%s: the parts of a condition are written in the order %s' % (
                    w, [t[0] for t in x]))
            else:
                rep.notes.append(key + ': not recognised')
            return
        conds.append(x)
    want = sorted((c, i) for c, k in zip(CATS, counts) for i in range(k))
    got = []
    for (_, _, ia, ip), (_, op), (_, _, ta, tp) in conds:
        ic, tc = ia.rsplit('_', 1)[0], ta.rsplit('_', 1)[0]
        if not rep.check(ic == tc and ip == tp and ta.endswith('thresholds'), key + ' condition', '%s: the feature index %s[%s] '
                         'is written together with the threshold %s[%s]' % (w, ia, ip[2], ta, tp[2])):
            return
        rep.check(TEXT.get(ic) == op, key + ' comparator', '%s: %s conditions are written with the operator %s' % (w, ic, op))
        got.append((ic, ip[2]))
    rep.check(sorted(got) == want, key + ' conditions', '%s: the conditions %s are written instead of %s' % (
        w, sorted(got), want))
    head = [t for t in toks if t[0] == 'no' or len(t) > 1 and t[1] == ho]
    if kind == 'partial':
        seq = [(t[2], t[3][2]) for t in head if t[0] != 'no']
        exp = [x for i in range(2) for x in (('indices', i), ('values', i))]
    else:
        seq = [(t[2], t[3][2]) if t[0] != 'no' else ('no', t[1]) for t in head]
        exp = [x for i in range(2) for x in (('no', i), ('values', i))]
        if [x for x in seq if x[0] != 'no'] == [x for x in exp if x[0] != 'no'] and len(seq) != len(exp):
            rep.notes.append(key + ': the names of the outputs are not recognised')
            return
    rep.check(seq == exp, key + ' head', '%s: the head of a rule is written as %s' % (w, seq))


def check_copies(P, rep):
    """A copy of a list of conditions must have the same conditions, and the same number of them per comparator."""
    for f in P.fns.values():
        if f.get('pn') != 'ConditionList::ConditionList' or len(f['params']) != 1 or 'ConditionList' not in f['params'][0]['t']:
            continue
        rep.analysed(f)
        pid = f['params'][0]['id']

        def field(e):
            """The member of the other object that is read by an expression, and the index of an element, if any."""
            while isinstance(e, dict) and e.get('k') in ('cast', 'ctor', 'paren'):
                sub = e.get('e') or (e.get('args') or [None])[0]
                if e['k'] == 'ctor' and len(e.get('args') or ()) != 1:
                    return None
                e = sub
            if not isinstance(e, dict):
                return None
            if e.get('k') == 'mem' and (e.get('b') or {}).get('id') == pid:
                return e['n'], None
            if e.get('k') == 'call' and e.get('op') == '[]' and len(e.get('args') or ()) == 1:
                b, i = field(e.get('obj')), e['args'][0]
                while isinstance(i, dict) and i.get('k') == 'cast':
                    i = i['e']
                if b and b[1] is None and isinstance(i, dict) and i.get('k') == 'lit':
                    return b[0], int(i['v'])
            if e.get('k') == 'idx':
                b, i = field(e.get('b')), e.get('i')
                while isinstance(i, dict) and i.get('k') == 'cast':
                    i = i['e']
                if b and b[1] is None and isinstance(i, dict) and i.get('k') == 'lit':
                    return b[0], int(i['v'])
            return None

        def lists(e):
            while isinstance(e, dict) and e.get('k') in ('cast', 'ctor', 'init') and len(e.get('args') or ()) <= 1:
                e = e.get('e') or (e.get('args') or [None])[0]
            return e.get('args') if isinstance(e, dict) and e.get('k') == 'init' else None

        for i in f.get('inits') or ():
            if not i.get('w') or not i.get('field'):
                continue
            key = 'copy of ConditionList: ' + i['field']
            r = field(i['e'])
            if r is not None:
                rep.check(r == (i['field'], None), key, 'the copy constructor of ConditionList initialises %s with %s of the '
                          'other object' % (i['field'], r[0] if r[1] is None else '%s[%d]' % r))
                continue
            es = lists(i['e'])
            if es:
                got = [field(e) for e in es]
                if all(g is not None for g in got):
                    rep.check(got == [(i['field'], n) for n in range(len(es))], key, 'the copy constructor of ConditionList '
                              'initialises %s with the elements %s of the other object' % (
                                  i['field'], ', '.join(g[0] if g[1] is None else '%s[%d]' % g for g in got)))
                    continue
            rep.notes.append(key + ' is not recognised')


def check_iterators(P, rep):
    """Iterators over rules and outputs must advance by one if they are incremented, and go back if they are decremented."""
    for f in P.fns.values():
        op = f.get('n')
        if op not in ('operator++', 'operator--') or f.get('tmpl') or f.get('body') is None:
            continue
        if not any(x in f['pn'] for x in ('RuleList', 'IndexIterator')):
            continue
        h = effects.effects(P, f)
        deltas = []
        for l, t, fa, lo, n, g in h.stores:
            l, t = effects.strip_epochs(l), effects.strip_epochs(t)
            c = dict(norm._poly(canon(t)))
            me = (('val', place(l)),)
            if place(l)[0] == 'f' and c.pop(me, 0) == 1 and not [m for m in c if m]:
                deltas.append(c.get((), 0))
        rep.analysed(f)
        if not deltas:
            rep.notes.append('%s: the effect is not recognised' % f['pn'])
            continue
        rep.check(deltas == [1 if op == 'operator++' else -1], 'iterator %s/%d' % (f['pn'], len(f['params'])),
                  '%s moves the iterator by %s' % (f['pn'], deltas))


def analyse(rep, tier):
    P = prog.load()
    check_copies(P, rep)
    check_iterators(P, rep)
    acc = Accessors(P)
    if len(acc.of) < 12:
        rep.notes.append('ConjunctiveBody: only %d arrays have been recognised' % len(acc.of))
    roundtrip.check_conjunctive_body(P, rep)
    check_condition_vectors(P, rep, acc)
    check_body(P, rep, acc)
    check_creation(P, rep, acc)
    roundtrip.check_rule_list_cpp(P, rep)
    check_prediction(P, rep)
    check_delegates(P, rep)
    check_dispatch(P, rep)
    check_text(rep)


if __name__ == '__main__':
    report.run('C08', RULE, 'other', {}, analyse, 12)
