"""C06: saving and restoring a model yields an equivalent model (Cython state <-> C++ model)."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ast

import cxx
import facts
import flow
import prog
import pyabs
import report
from pyabs import NONE, const, is_const

RULE = ('The methods that produce and consume the pickled state of a model are interpreted abstractly over symbolic '
        'models of every shape (which kinds of conditions occur, complete or partial heads, default rule absent, first '
        'or last; label vectors and bin lists of several lengths; all values symbolic). Starting from the state, the '
        'sequence of operations that rebuilds the C++ object must reproduce each count, each element and each flag of '
        'the original, in the same order and without a narrowing conversion. The accessors and constructors of the '
        'C++ classes are resolved to the fields they refer to and must be mutually consistent.')

RANK = {'float64': 4, 'double': 4, 'float32': 3, 'float': 3, 'uint64': 4, 'int64': 4, 'uint32': 3, 'int32': 3, 'int': 3,
        'uint16': 2, 'int16': 2, 'short': 2, 'uint8': 1, 'int8': 1, 'char': 1, 'bint': 0, 'bool': 0}
CATS = ['numerical_leq', 'numerical_gr', 'ordinal_leq', 'ordinal_gr', 'nominal_eq', 'nominal_neq']
CAMEL = {c: ''.join(p.capitalize() for p in c.split('_')) for c in CATS}


def last(t):
    return t[1].split('.')[-1] if t[0] in ('ext', 'sym', 'builtin') else t[2] if t[0] in ('attr', 'fn', 'cls') else None


def tname(t):
    """The declared C type of a variable -> scalar type name or None."""
    t = re.sub(r'\bconst\b|\bnot None\b|&', '', t or '').strip()
    return t if t in RANK else None


def native(t):
    """Scalar type of a symbolic element of the model."""
    if t[0] == 'elem' and t[1][0] == 'ptr':
        n = t[1][2]
        if 'indices' in n:
            return 'uint32'
        if 'thresholds' in n:
            return 'float32' if n.startswith('numerical') else 'int32'
        if n == 'values':
            return 'float64'
        return 'uint32'
    if t[0] == 'sym':
        if t[1].startswith(('threshold', 'probability')):
            return 'float64'
        if t[1] == 'precedence':
            return 'bint'
        return 'uint32'
    return None


def narrow(v, typ):
    n = native(v)
    if n is None or typ is None or n == typ:
        return v
    fl = ('float64', 'float32', 'double', 'float')
    if n in fl and typ in fl:
        return v if RANK[typ] >= RANK[n] else ('narrow', typ, v)
    if n in fl or (typ in fl and RANK[typ] <= RANK[n]):
        return ('narrow', typ, v)
    if n == 'bint':
        return v
    if RANK[typ] > RANK[n]:
        return v
    if RANK[typ] == RANK[n] and n.startswith('u') == typ.startswith('u'):
        return v
    return ('narrow', typ, v)


class Sim(pyabs.Interp):
    """Interprets the Cython classes; C++ objects are simulated by heap objects of the kind 'cpp'."""

    def cpp(self, st, o):
        return st.heap[o[1]] if o[0] == 'ref' and st.heap[o[1]]['kind'] == 'cpp' else None

    def bind(self, st, node, args, kwargs, defenv):
        v = super().bind(st, node, args, kwargs, defenv)
        for a in node.args.args:
            if isinstance(a.annotation, ast.Constant):
                t = tname(a.annotation.value)
                if t and a.arg in v:
                    v[a.arg] = narrow(v[a.arg], t)
                v['#' + a.arg] = a.annotation.value
        return v

    def s_AnnAssign(self, n, st, env):
        if isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
            env.vars['#' + n.target.id] = n.annotation.value
            if n.value is None and str(n.annotation.value).startswith('unique_ptr'):
                env.vars[n.target.id] = NONE
        return super().s_AnnAssign(n, st, env)

    def assign(self, target, v, st, env):
        if isinstance(target, ast.Name):
            v = narrow(v, tname(env.vars.get('#' + target.id)))
        elif isinstance(target, ast.Subscript):
            pass
        return super().assign(target, v, st, env)

    def x_Name(self, n, st, env):
        if n.id == 'NULL' and n.id not in env.vars:
            return [(st, NONE)]
        return super().x_Name(n, st, env)

    def getattr(self, st, o, name, env, node=None):
        if o[0] == 'array' and name in ('shape', 'size'):
            return [(st, o[2][0] if name == 'size' else ('tuple', o[2]))]
        return super().getattr(st, o, name, env, node)

    def items(self, st, t):
        if t[0] == 'array' and len(t[2]) == 1 and is_const(t[2][0]):
            return [('elem', t[1], const(i)) for i in range(t[2][0][2])]
        return super().items(st, t)

    def getitem(self, st, o, k, node, env):
        if o[0] == 'array':
            o = o[1]
        if o[0] == 'ptr':
            if (o, k) in st.symattrs:
                return [(st, st.symattrs[(o, k)])]
            return [(st, ('elem', o, k))]
        if o[0] in ('ext', 'sym', 'builtin') and last(o) == 'make_unique':
            return [(st, ('mk', last(k) or '?'))]
        return super().getitem(st, o, k, node, env)

    def builtin(self, st, name, args, kwargs, node, env):
        if name == 'len' and args and args[0][0] == 'array':
            return [(st, args[0][2][0])]
        return super().builtin(st, name, args, kwargs, node, env)

    def unknown_call(self, st, f, args, kwargs, node, env):
        n = last(f) if f[0] != 'mk' else None
        if f[0] == 'mk':
            return [(st, st.new('cpp', type=f[1], args=list(args), ops=[]))]
        if f[0] in ('ext', 'sym', 'builtin'):
            if n == 'move' and len(args) == 1:
                return [(st, args[0])]
            if n in ('asarray', 'array', 'ascontiguousarray') and len(args) == 1 and not kwargs:
                return [(st, args[0])]
            if n.startswith('create'):
                return [(st, st.new('cpp', type=n, args=list(args), ops=[]))]
            if n.startswith('wrap'):
                return [(st, ('wrap', n, tuple(args)))]
        if f[0] == 'attr':
            o = f[1]
            if n == 'get' and not args and (self.cpp(st, o) is not None or o == NONE):
                return [(st, o)]
            if n == 'tolist' and o[0] == 'array' and self.items(st, o) is not None:
                return [(st, st.new('list', items=self.items(st, o)))]
            if n == 'copy' and o[0] == 'array':
                return [(st, o)]
            h = self.cpp(st, o)
            if h is not None:
                return self.cpp_call(st, o, h, n, list(args), kwargs, node, env)
        for a in list(args) + list(kwargs.values()):
            for x in pyabs.subterms(a):
                if isinstance(x, tuple) and x and x[0] == 'ptr' and self.cpp(st, x[1]) is not None:
                    st.heap[x[1][1]]['escaped'] = True
        return super().unknown_call(st, f, args, kwargs, node, env)

    def cpp_call(self, st, o, h, n, args, kwargs, node, env):
        m = re.match(r'(?:(\w+)_)?c?begin$', n)
        if m and not args:
            return [(st, ('ptr', o, m.group(1) or 'elements'))]
        d = h.get('model')
        if d is not None:
            if n in d.get('const', {}):
                return [(st, d['const'][n])]
            if n in ('visit', 'visitUsed') and 'rules' in d:
                cbs = {a[1]: a for a in args if a[0] == 'wrap'}
                return self.run_callbacks(st, [(('wrap%sVisitor' % k), vs) for r in d['rules'] for k, vs in r], cbs, node)
        else:
            h['ops'].append((n, tuple(args)))
        return [(st, ('call', ('attr', o, n), tuple(args), ()))]

    def run_callbacks(self, st, seq, cbs, node):
        states = [st]
        for name, vs in seq:
            nxt = []
            if name not in cbs:
                return [(st, ('raise', ('ext', 'no callback ' + name)))]
            cb = cbs[name][2]
            fn = [a for a in cb if a[0] in ('bm', 'fn')]
            if not fn:
                return [(st, ('raise', ('ext', 'no callback ' + name)))]
            f = fn[-1]
            selfargs = [cb[0]] if f[0] == 'fn' else []
            for s in states:
                for s2, r in self.call(s, f, selfargs + list(vs), {}, node):
                    if r[0] == 'raise':
                        return [(s2, r)]
                    nxt.append(s2)
            states = nxt
        return [(s, NONE) for s in states]


MODULE = 'mlrl.common.cython.'


def new_cpp(st, typ, model):
    return st.new('cpp', type=typ, args=[], ops=[], model=model)


def sequence(st, o, name, n):
    """Values stored in the array `name` of a restored C++ object."""
    return [st.symattrs.get((('ptr', o, name), const(i))) for i in range(n)]


def expected(o, name, n):
    return [('elem', ('ptr', o, name), const(i)) for i in range(n)]


def count(t):
    return t[2] if t is not None and is_const(t) else None


def restore(I, modname, cname, ptr, model, rep, key):
    """Pickles and unpickles a symbolic instance -> list of (state, original, restored C++ object)."""
    I.module(MODULE + modname)
    st = I.start()
    c = I.cls(MODULE + modname, cname)
    orig = model(st)
    res = []
    rs = I.instantiate(st, c, [], {}, None, None)
    todo = []
    for s, o in rs:
        s.heap[o[1]]['attrs'][ptr] = orig
        todo += I.call_method(s, o, '__reduce__')
    for s, r in todo:
        if r[0] == 'raise':
            rep.violate(key, '%s: %s.__reduce__ fails (%s)' % (modname, cname, pyabs.show(r[1])))
            continue
        if r[0] != 'tuple' or len(r[1]) < 3:
            rep.violate(key, '%s: %s.__reduce__ does not return a class, its arguments and a state' % (modname, cname))
            continue
        cls2, args, state = r[1][:3]
        if cls2 != c:
            rep.violate(key, '%s: an instance of %s is restored as %s' % (modname, cname, pyabs.show(cls2)))
            continue
        for s2, o2 in I.instantiate(s, cls2, list(I.items(s, args) or []), {}, None, None):
            for s3, r3 in I.call_method(s2, o2, '__setstate__', [state]):
                if r3[0] == 'raise':
                    rep.violate(key, '%s: %s.__setstate__ rejects the state produced by __reduce__ (%s)' % (
                        modname, cname, pyabs.show(r3[1])))
                    continue
                new = s3.heap[o2[1]]['attrs'].get(ptr)
                res.append((s3, orig, new, o2))
    return res


def find_ptr(I, modname, cname, getter):
    """Name of the attribute that holds the C++ object: the one returned by the accessor of the pointer."""
    st = I.start()
    I.module(MODULE + modname)
    c = I.cls(MODULE + modname, cname)
    for s, o in I.instantiate(st, c, [], {}, None, None):
        for s2, r in I.call_method(s, o, getter):
            for x in pyabs.subterms(r):
                if x[0] == 'attr' and x[1] == o:
                    return x[2]
    return None


def check_rule_lists(I, rep):
    ptr = find_ptr(I, 'rule_model', 'RuleList', 'get_rule_model_ptr')
    if ptr is None:
        raise facts.AnalysisError('RuleList.get_rule_model_ptr not recognised')
    shapes = []
    for bits in itertools.product((0, 1), repeat=6):
        if any(bits):
            shapes.append([('conj', tuple((i + 1) * b for i, b in enumerate(bits))), ])
    heads = [('partial', 2), ('complete', 3), ('partial', 1), ('complete', 1)]
    models = []
    for i, s in enumerate(shapes):
        models.append(([(s[0], heads[i % 4])], None))
    full = ('conj', (1, 2, 3, 1, 2, 3))
    two = [(full, heads[0]), (('conj', (0, 1, 0, 0, 1, 0)), heads[1])]
    for d in (None, 'first', 'last'):
        for rules in ([], [(full, heads[0])], two, two + [(full, heads[3])]):
            for h in heads[:2]:
                models.append((rules, d and (d, h)))
    n = 0
    for rules, default in models:
        n += 1
        info = {}

        def build(st):
            seq = []

            def head(h):
                kind, k = h
                o = new_cpp(st, kind, {'const': {'getNumElements': const(k)}, 'n': k, 'kind': kind})
                return ('CompleteHead' if kind == 'complete' else 'PartialHead', [o]), o
            objs = []
            for b, h in rules:
                consts = {'getNum' + CAMEL[c]: const(b[1][i]) for i, c in enumerate(CATS)}
                bo = new_cpp(st, 'conj', {'const': consts, 'counts': b[1]})
                hv, ho = head(h)
                objs.append((bo, ho))
                seq.append([('ConjunctiveBody', [bo]), hv])
            if default:
                hv, ho = head(default[1])
                info['default'] = ho
                r = [('EmptyBody', [new_cpp(st, 'empty', {})]), hv]
                seq.insert(0 if default[0] == 'first' else len(seq), r)
            info['objs'] = objs
            return new_cpp(st, 'RuleList', {'rules': seq, 'const': {
                'isDefaultRuleTakingPrecedence': ('sym', 'precedence'), 'getNumUsedRules': ('sym', 'num_used'),
                'getNumRules': const(len(seq)), 'containsDefaultRule': const(bool(default))}})
        key = 'rule_model RuleList %s default=%s' % (
            [(b[1], h) for b, h in rules], default)
        for st, orig, new, o2 in restore(I, 'rule_model', 'RuleList', ptr, build, rep, key):
            compare_rule_list(st, new, info, key, rep)
    rep.coverage['rule_list_shapes'] = n


def where():
    return 'python/subprojects/common/mlrl/common/cython/rule_model.pyx'


def compare_head(st, new, orig, key, rep, what):
    h, m = st.heap[new[1]] if new and new[0] == 'ref' else None, st.heap[orig[1]]['model']
    exp = 'CompleteHeadImpl' if m['kind'] == 'complete' else 'PartialHeadImpl'
    if h is None or h.get('type') != exp:
        rep.violate(key + ' head', '%s: the %s head of %s is restored as %s' % (
            where(), m['kind'], what, h and h.get('type')))
        return
    rep.check(len(h['args']) == 1 and count(h['args'][0]) == m['n'], key + ' head size',
              '%s: the head of %s is restored with a different number of predictions' % (where(), what))
    for name in ('values',) + (('indices',) if m['kind'] == 'partial' else ()):
        compare_elements(st, new, orig, name, m['n'], key, rep, 'head of ' + what)


def compare_elements(st, new, orig, name, n, key, rep, what):
    got, exp = sequence(st, new, name, n), expected(orig, name, n)
    for i, (g, e) in enumerate(zip(got, exp)):
        if g is None and st.heap[new[1]].get('escaped'):
            rep.notes.append('%s %s: not decided (handed to an unknown function)' % (key, name))
            return
        if g != e:
            rep.violate(key + ' ' + name, '%s: element %d of %s (%s) is restored from %s' % (
                where(), i, name, what, pyabs.show(g) if g else 'nothing'))
            return
    rep.ok(key + ' ' + name)


def compare_rule_list(st, new, info, key, rep):
    h = st.heap[new[1]] if new and new[0] == 'ref' else None
    if not rep.check(h is not None and h.get('type') == 'createRuleList', key + ' list',
                     '%s: RuleList.__setstate__ does not install a new rule list' % where()):
        return
    rep.check(len(h['args']) == 1 and h['args'][0] == ('sym', 'precedence'), key + ' precedence',
              '%s: the precedence of the default rule is not restored' % where())
    adds = [op for op in h['ops'] if op[0] == 'addRule']
    defs = [op for op in h['ops'] if op[0] == 'addDefaultRule']
    used = [op for op in h['ops'] if op[0] == 'setNumUsedRules']
    rep.check(bool(used) and used[-1][1] == (('sym', 'num_used'),), key + ' used rules',
              '%s: the number of used rules is not restored' % where())
    if rep.check(len(defs) == (1 if 'default' in info else 0), key + ' default rule',
                 '%s: %d default rules are restored instead of %d' % (where(), len(defs), 1 if 'default' in info else 0)):
        if defs:
            compare_head(st, defs[0][1][0], info['default'], key, rep, 'the default rule')
    if not rep.check(len(adds) == len(info['objs']), key + ' rules', '%s: %d rules are restored instead of %d' % (
            where(), len(adds), len(info['objs']))):
        return
    for i, (op, (bo, ho)) in enumerate(zip(adds, info['objs'])):
        what = 'rule %d' % i
        b = op[1][0]
        bh = st.heap[b[1]] if b[0] == 'ref' else None
        counts = st.heap[bo[1]]['model']['counts']
        if rep.check(bh is not None and bh.get('type') == 'ConjunctiveBodyImpl', key + ' body',
                     '%s: the body of %s is not restored as a conjunction' % (where(), what)):
            got = tuple(count(a) for a in bh['args'])
            rep.check(got == counts, key + ' counts', '%s: the body of %s is restored with %s instead of %s conditions '
                      '(%s)' % (where(), what, got, counts, ', '.join(CATS)))
            for c, k in zip(CATS, counts):
                for a in ('thresholds', 'indices'):
                    compare_elements(st, b, bo, c + '_' + a, k, key, rep, 'body of ' + what)
        compare_head(st, op[1][1], ho, key, rep, what)


def check_label_vectors(I, rep):
    ptr = find_ptr(I, 'output_space_info', 'LabelVectorSet', 'get_output_space_info_ptr')
    for lens in ((), (0,), (1,), (3, 0, 1), (2, 2)):
        info = []

        def build(st):
            del info[:]
            rules = []
            for i, n in enumerate(lens):
                o = new_cpp(st, 'LabelVector', {'const': {'getNumElements': const(n)}})
                info.append(o)
                rules.append([('LabelVector', [o, ('sym', 'frequency%d' % i)])])
            return new_cpp(st, 'LabelVectorSet', {'rules': rules, 'const': {'getNumLabelVectors': const(len(lens))}})
        key = 'output_space_info LabelVectorSet %s' % (lens,)
        w = 'python/subprojects/common/mlrl/common/cython/output_space_info.pyx'
        for st, orig, new, o2 in restore(I, 'output_space_info', 'LabelVectorSet', ptr, build, rep, key):
            h = st.heap[new[1]] if new and new[0] == 'ref' else {}
            adds = [op for op in h.get('ops', ()) if op[0] == 'addLabelVector']
            if not rep.check(h.get('type') == 'createLabelVectorSet' and len(adds) == len(lens), key,
                             '%s: %d label vectors are restored instead of %d' % (w, len(adds), len(lens))):
                continue
            for i, (op, o) in enumerate(zip(adds, info)):
                lv, fr = op[1]
                ok = fr == ('sym', 'frequency%d' % i)
                rep.check(ok, key + ' frequency', '%s: the frequency of label vector %d is restored from %s' % (
                    w, i, pyabs.show(fr)))
                lh = st.heap[lv[1]] if lv[0] == 'ref' else {}
                ok = lh.get('type') == 'LabelVector' and [count(a) for a in lh['args']] == [lens[i]] and \
                    sequence(st, lv, 'elements', lens[i]) == expected(o, 'elements', lens[i])
                rep.check(ok, key + ' labels', '%s: the labels of label vector %d are not restored' % (w, i))


def check_calibration(I, rep):
    w = 'python/subprojects/common/mlrl/common/cython/probability_calibration.pyx'
    for kind in ('Marginal', 'Joint'):
        cname = 'Isotonic%sProbabilityCalibrationModel' % kind
        ptr = find_ptr(I, 'probability_calibration', cname,
                       'get_%s_probability_calibration_model_ptr' % kind.lower())
        for lens in ((), (0,), (1,), (2, 0, 1), (3, 1)):
            exp = [(const(i), ('sym', 'threshold%d_%d' % (i, j)), ('sym', 'probability%d_%d' % (i, j)))
                   for i, n in enumerate(lens) for j in range(n)]

            def build(st):
                rules = [[('Bin', list(e))] for e in exp]
                return new_cpp(st, cname, {'rules': rules, 'const': {'getNumBinLists': const(len(lens))}})
            key = 'probability_calibration %s %s' % (cname, lens)
            for st, orig, new, o2 in restore(I, 'probability_calibration', cname, ptr, build, rep, key):
                h = st.heap[new[1]] if new and new[0] == 'ref' else {}
                if not rep.check(h.get('type') == 'createIsotonicProbabilityCalibrationModel' and
                                 [count(a) for a in h['args']] == [len(lens)], key,
                                 '%s: %s is not restored with %d lists of bins' % (w, cname, len(lens))):
                    continue
                got = [op[1] for op in h['ops'] if op[0] == 'addBin']
                bad = [(g, e) for g, e in itertools.zip_longest(got, exp) if g != e]
                rep.check(not bad, key + ' bins', '%s: %s: a bin is restored as %s instead of %s' % (
                    w, cname, bad and bad[0][0] and [pyabs.show(x) for x in bad[0][0]],
                    bad and bad[0][1] and [pyabs.show(x) for x in bad[0][1]]))


def check_stateless(I, rep):
    for mod, cname, getter, create in (
            ('output_space_info', 'NoOutputSpaceInfo', 'get_output_space_info_ptr', 'createNoOutputSpaceInfo'),
            ('probability_calibration', 'NoMarginalProbabilityCalibrationModel',
             'get_marginal_probability_calibration_model_ptr', 'createNoProbabilityCalibrationModel'),
            ('probability_calibration', 'NoJointProbabilityCalibrationModel',
             'get_joint_probability_calibration_model_ptr', 'createNoProbabilityCalibrationModel')):
        ptr = find_ptr(I, mod, cname, getter)
        key = '%s %s' % (mod, cname)
        for st, orig, new, o2 in restore(I, mod, cname, ptr, lambda st: new_cpp(st, cname, {}), rep, key):
            h = st.heap[new[1]] if new and new[0] == 'ref' else {}
            rep.check(h.get('type') == create, key, '%s.pyx: restoring %s does not create the C++ object' % (mod, cname))


# ---------------------------------------------------------------- C++ model classes

def one(P, pn, rep):
    fs = [f for f in P.by_pn.get(pn, ()) if not f['tmpl'] and f.get('body')]
    if not fs:
        rep.notes.append('%s not found: its obligations are not decided' % pn)
    for f in fs:
        rep.analysed(f)
    return fs


def at(f):
    return 'cpp/subprojects/%s:%d' % (f['f'], f['l'])


def check_conjunctive_body(P, rep):
    ctors = [f for f in one(P, 'ConjunctiveBody::ConjunctiveBody', rep) if len(f['params']) == 6]
    fields = {}
    if ctors:
        for name, term in cxx.ctor_fields(P, ctors[0]).items():
            ps = cxx.params_of(term)
            if len(ps) == 1:
                fields[name] = next(iter(ps))
    pos = [p['n'] for p in ctors[0]['params']] if ctors else []
    seen = {}
    for i, c in enumerate(CATS):
        used = {}
        names = ['getNum' + CAMEL[c]] + ['%s_%s_%s' % (c, a, e) for a in ('thresholds', 'indices')
                                         for e in ('begin', 'cbegin', 'end', 'cend')]
        terms = {}
        for n in names:
            for f in one(P, 'ConjunctiveBody::' + n, rep):
                for t, _ in cxx.summarise(P, f).rets:
                    terms[n] = t
                    for x in cxx.fields_of(t):
                        used.setdefault(x, []).append((n, f))
        if not used:
            continue
        key = 'ConjunctiveBody ' + c
        w = at(sorted(used.values(), key=len)[0][0][1])
        if not rep.check(len(used) == 1, key + ' accessors', '%s: the accessors of the %s conditions refer to different '
                         'fields: %s' % (w, c, {k: [n for n, _ in v] for k, v in used.items()})):
            continue
        x = next(iter(used))
        rep.check(x not in seen, key + ' distinct', '%s: the accessors of the %s and %s conditions refer to the same field'
                  % (w, c, seen.get(x)))
        seen[x] = c
        if fields and len(pos) == 6:
            rep.check(fields.get(x) == pos[i], key + ' constructor', '%s: argument %d of the constructor of '
                      'ConjunctiveBody does not set the number of %s conditions' % (w, i + 1, c))
        for a in ('thresholds', 'indices'):
            for e in ('begin', 'end'):
                t, u = terms.get('%s_%s_%s' % (c, a, e)), terms.get('%s_%s_c%s' % (c, a, e))
                if t and u:
                    rep.check(t == u, '%s %s %s' % (key, a, e), '%s: %s_%s_%s and %s_%s_c%s refer to different arrays' % (
                        w, c, a, e, c, a, e))
        t, u = terms.get(c + '_thresholds_begin'), terms.get(c + '_indices_begin')
        if t and u:
            rep.check(t != u, key + ' arrays', '%s: thresholds and indices of the %s conditions are the same array' % (
                w, c))


APPEND = ('std::vector::emplace_back', 'std::vector::push_back', 'std::list::emplace_back', 'std::list::push_back',
          'std::deque::push_back', 'std::deque::emplace_back')


def num(t):
    return t[1] if t[0] == 'lit' and isinstance(t[1], (int, float)) else None


def check_rule_list_cpp(P, rep):
    """The order in which the rules of a list are visited (constant propagation through the iterator)."""
    adddef, addrule = one(P, 'RuleList::addDefaultRule', rep), one(P, 'RuleList::addRule', rep)
    ctor = [f for f in one(P, 'RuleList::RuleList', rep) if len(f['params']) == 1 and 'RuleList' not in f['params'][0]['t']]
    if not (adddef and addrule and ctor):
        return
    h = cxx.summarise(P, adddef[0])
    d = {l[2] for l, t, n, _ in h.stores if l[0] == 'f' and l[1] == ('this',)}
    d |= {c[1][1][2] for c in h.calls if c[0] == 'std::unique_ptr::reset' and c[1] and c[1][0] == 'loc'}
    app = [c for c in cxx.summarise(P, addrule[0]).calls if c[0] in APPEND]
    if not rep.check(len(app) == 1 and app[0][1] and app[0][1][0] == 'loc', 'RuleList::addRule',
                     '%s: a rule is not appended to the end of the list' % at(addrule[0])):
        return
    if len(app[0][2]) == 2:
        rep.check([cxx.params_of(t) for t in app[0][2]] == [{p['n']} for p in addrule[0]['params'][:2]],
                  'RuleList::addRule arguments', '%s: body and head are not passed on to the rule' % at(addrule[0]))
    prec = {k for k, v in cxx.ctor_fields(P, ctor[0]).items() if cxx.params_of(v)}
    if len(d) != 1 or len(prec) != 1:
        rep.notes.append('RuleList: fields not recognised (%s, %s)' % (d, prec))
        return
    dloc, ploc = ('f', ('this',), d.pop()), ('f', ('this',), prec.pop())
    DEF = ('nonnull', 'default')
    usedf = set()
    for f in one(P, 'RuleList::setNumUsedRules', rep):
        s = cxx.summarise(P, f)
        usedf |= {l[2] for l, t, n, _ in s.stores if l[0] == 'f'}
        rep.check(any(t[0] == 'param' for l, t, n, _ in s.stores), 'RuleList::setNumUsedRules',
                  '%s: the number of used rules is not stored' % at(f))
    for f in one(P, 'RuleList::isDefaultRuleTakingPrecedence', rep):
        rep.check({t for t, _ in cxx.summarise(P, f).rets} == {('init', ploc, 0)},
                  'RuleList::isDefaultRuleTakingPrecedence', '%s: does not return the flag passed to the constructor' % at(f))
    for f in one(P, 'createRuleList', rep):
        ts = [t for t, _ in cxx.summarise(P, f).rets if t != ('none',)]
        rep.check(all('param' in [x[0] for x in flow.subterms(t) if isinstance(x, tuple) and x] for t in ts),
                  'createRuleList', '%s: the flag is not passed on' % at(f))

    def consts(hasdef, n):
        def both(fn):
            return lambda fl, st, o, a: ('lit', fn(num(a[0]), num(a[1]))) if len(a) == 2 and None not in map(num, a) \
                else None
        c = {
            'std::unique_ptr::get': lambda fl, st, o, a: DEF if hasdef else ('lit', 'nullptr'),
            'std::unique_ptr::operator bool': lambda fl, st, o, a: ('lit', 'true' if hasdef else 'false'),
            'std::vector::size': lambda fl, st, o, a: ('lit', n),
            'std::vector::empty': lambda fl, st, o, a: ('lit', 'true' if n == 0 else 'false'),
            'std::vector::cbegin': lambda fl, st, o, a: ('rules',),
            'std::vector::begin': lambda fl, st, o, a: ('rules',),
            'std::min': both(min), 'std::max': both(max),
        }

        def virtual(name):
            def call(fl, st, o, a):
                fs = [f for f in P.by_pn.get('RuleList::' + name, ()) if not f['params']]
                if fs and o == ('loc', ('this',)):
                    s = flow.State()
                    s.env = {k: v for k, v in st.env.items() if k[0] == 'f' and k[1] == ('this',)}
                    rets = {t for t, _ in cxx.summarise(P, fs[0], s, c).rets if t != ('none',)}
                    if len(rets) == 1:
                        return rets.pop()
                return None
            return call
        for m in ('getNumRules', 'getNumUsedRules', 'containsDefaultRule', 'isDefaultRuleTakingPrecedence'):
            c['RuleList::' + m] = virtual(m)
        return c

    ictors = [f for f in P.by_pn.get('RuleList::ConstIterator::ConstIterator', ()) if len(f['params']) > 1]
    deref, incs = one(P, 'RuleList::ConstIterator::operator*', rep), one(P, 'RuleList::ConstIterator::operator++', rep)
    if not ictors or not deref or not incs:
        rep.notes.append('RuleList::ConstIterator not recognised')
        return

    def walk_list(lo, hi, inc, hasdef, first, n, k, used):
        """-> sequence of 'default' / rule index, or None if undecided."""
        its = []
        for fn in (lo, hi):
            st = flow.State()
            st.env[dloc] = DEF if hasdef else ('lit', 'nullptr')
            st.env[ploc] = ('lit', 'true' if first else 'false')
            for x in usedf:
                st.env[('f', ('this',), x)] = ('lit', used)
            objs = {t for t, _ in cxx.summarise(P, fn, st, consts(hasdef, n), args=[('lit', k)] * len(fn['params'])).rets
                    if t[0] == 'obj'}
            if len(objs) != 1:
                return None
            args = list(objs.pop()[3:])
            f = [c for c in ictors if len(c['params']) == len(args)]
            if not f:
                return None
            its.append(cxx.ctor_fields(P, f[0], None, consts(hasdef, n), args))
        cur, end = its
        seq = []
        for step in range(10):
            s = flow.State()
            s.env = {('f', ('this',), x): v for x, v in cur.items()}
            o = {('f', ('p', 'rhs', 0), x): v for x, v in end.items()}
            if cur == end:
                return seq
            rets = [t for t, _ in cxx.summarise(P, deref[0], s, consts(hasdef, n)).rets if t != ('none',)]
            if len(rets) != 1:
                return None
            t = rets[0]
            if DEF in list(flow.subterms(t)):
                seq.append('default')
            elif t[0] == 'init' and t[1][0] == 'idx' and num(t[1][2]) is not None:
                seq.append(num(t[1][2]))
            else:
                return None
            s = flow.State()
            s.env = {('f', ('this',), x): v for x, v in cur.items()}
            outs = cxx.summarise(P, inc, s, consts(hasdef, n)).outs
            cur = {x: outs[0][0].env.get(('f', ('this',), x), v) for x, v in cur.items()}
        return seq + ['...']

    for lo, hi, isused in (('cbegin', 'cend', False), ('used_cbegin', 'used_cend', True)):
        fl, fh = one(P, 'RuleList::' + lo, rep), one(P, 'RuleList::' + hi, rep)
        if not fl or not fh:
            continue
        for inc in incs:
            for hasdef, first, n, k, used in itertools.product((0, 1), (0, 1), (0, 1, 3), (0, 1, 2, 9), (0, 1, 2)):
                if used > n + hasdef or used and not isused:
                    continue
                total = used if isused and used else n + hasdef
                m = min(total, k) if k else total
                exp = list(range(m - (1 if hasdef and m else 0)))
                if hasdef and m:
                    exp = ['default'] + exp if first else exp + ['default']
                got = walk_list(fl[0], fh[0], inc, hasdef, first, n, k, used)
                key = 'RuleList %s/%s default=%d first=%d rules=%d max=%d used=%d %s' % (lo, hi, hasdef, first, n, k, used,
                                                                                        len(inc['params']))
                if got is None:
                    rep.notes.append(key + ': not decided')
                    continue
                rep.check(got == exp, key, '%s: with %d rules, %s default rule%s, %d used rules and at most %d rules, '
                          'iterating from %s to %s yields the rules %s instead of %s' % (
                              at(fl[0]), n, 'a' if hasdef else 'no', ' that takes precedence' if first else '', used, k,
                              lo, hi, got, exp))
    # visiting a rule list visits the body and the head of each rule
    for name, rng in (('visit', ('RuleList::cbegin', 'RuleList::cend')),
                      ('visitUsed', ('RuleList::used_cbegin', 'RuleList::used_cend'))):
        for f in one(P, 'RuleList::' + name, rep):
            h = cxx.summarise(P, f, stop=('RuleList::cbegin', 'RuleList::cend', 'RuleList::used_cbegin',
                                          'RuleList::used_cend'))
            names = {c[0] for c in h.calls}
            rep.check(set(rng) <= names or not any('cbegin' in str(n) for n in names), 'RuleList::%s range' % name,
                      '%s: does not iterate from %s to %s' % ((at(f),) + rng))
            body = [c for c in h.calls if c[0] == 'IBody::visit']
            head = [c for c in h.calls if c[0] == 'IHead::visit']
            pn = [p['n'] for p in f['params']]
            for what, cs, ps in (('body', body, pn[:2]), ('head', head, pn[2:])):
                got = [[sorted(cxx.params_of(a)) for a in c[2]] for c in cs]
                rep.check(len(cs) == 1 and len(cs[0][4]) == 1 and got[0] == [[p] for p in ps],
                          'RuleList::%s %s' % (name, what),
                          '%s: the %s of each rule is not visited exactly once with the given visitors' % (at(f), what))
    for cls, i in (('CompleteHead', 0), ('PartialHead', 1), ('EmptyBody', 0), ('ConjunctiveBody', 1)):
        for f in one(P, cls + '::visit', rep):
            inv = [n for n in prog.walk(f['body']) if n.get('k') == 'call' and n.get('op') == '()']
            refs = [x['n'] for n in inv for x in prog.walk(n['obj']) if x.get('k') == 'ref' and x['dk'] == 'param'] \
                if inv and all(n.get('obj') for n in inv) else None
            if refs is None:
                rep.notes.append(cls + '::visit: not decided')
                continue
            rep.check(refs == [f['params'][i]['n']], cls + '::visit', '%s: invokes the wrong visitor (%s)' % (at(f), refs))


def check_other_cpp(P, rep):
    for f in one(P, 'LabelVectorSet::addLabelVector', rep):
        app = [c for c in cxx.summarise(P, f).calls if c[0] in APPEND]
        got = sorted(tuple(sorted(cxx.params_of(a) for a in c[2]))[0] and sorted(cxx.params_of(c[2][0]))[0] for c in app
                     if c[2])
        rep.check(got == sorted(p['n'] for p in f['params']) and len({c[1] for c in app}) == 2,
                  'LabelVectorSet::addLabelVector', '%s: label vector and frequency are not both appended' % at(f))
        fields = {sorted(cxx.params_of(c[2][0]))[0]: c[1][1][2] for c in app if c[2] and c[1] and c[1][0] == 'loc' and
                  cxx.params_of(c[2][0])}
        for g in one(P, 'LabelVectorSet::visit', rep):
            h = cxx.summarise(P, g)
            inv = [c for c in h.calls if c[3].get('op') == '()' or not isinstance(c[0], str)]
            inv = [c for c in inv if len(c[2]) == 2]
            if len(inv) != 1:
                rep.notes.append('LabelVectorSet::visit: not decided')
                continue
            idx = []
            for p, a in zip(f['params'], inv[0][2]):
                rep.check(fields.get(p['n']) in cxx.fields_of(a) or fields.get(p['n']) in str(inv[0][2]),
                          'LabelVectorSet::visit ' + p['n'], '%s: does not pass the %s to the visitor' % (at(g), p['n']))
                idx.append({t[2] for t in flow.subterms(a) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'idx'})
            if all(len(i) == 1 for i in idx):
                rep.check(idx[0] == idx[1], 'LabelVectorSet::visit index', '%s: label vector and frequency are taken from '
                          'different positions' % at(g))
    for f in one(P, 'IsotonicProbabilityCalibrationModel::addBin', rep):
        app = [c for c in cxx.summarise(P, f).calls if c[0] in APPEND]
        if len(app) != 1:
            rep.notes.append('addBin: not decided')
            continue
        pn = [p['n'] for p in f['params']]
        if len(app[0][2]) == 2:
            rep.check([sorted(cxx.params_of(a)) for a in app[0][2]] == [[pn[1]], [pn[2]]], 'addBin values',
                      '%s: threshold and probability are not stored in this order' % at(f))
        rep.check(pn[0] in cxx.params_of(app[0][1]), 'addBin list', '%s: the bin is not added to the given list' % at(f))
    for g in one(P, 'IsotonicProbabilityCalibrationModel::visit', rep):
        h = cxx.summarise(P, g)
        inv = [c for c in h.calls if len(c[2]) == 3 and (c[3].get('op') == '()' or not isinstance(c[0], str))]
        if len(inv) != 1:
            rep.notes.append('IsotonicProbabilityCalibrationModel::visit: not decided')
            continue
        names = ['first', 'second']
        for a, n, o in zip(inv[0][2][1:], names, reversed(names)):
            fl = {t[2] for t in flow.subterms(a) if isinstance(t, tuple) and len(t) == 3 and t[0] in ('f', 'fld')}
            rep.check(o not in fl, 'IsotonicProbabilityCalibrationModel::visit ' + n,
                      '%s: passes the %s component of a bin where the %s is expected' % (at(g), o, n))


def analyse(rep, tier):
    P = prog.load()
    check_conjunctive_body(P, rep)
    check_rule_list_cpp(P, rep)
    check_other_cpp(P, rep)
    I = Sim(max_paths=20000)
    check_rule_lists(I, rep)
    check_label_vectors(I, rep)
    check_calibration(I, rep)
    check_stateless(I, rep)
    rep.coverage['notes'] = rep.notes
    for a in I.analysed:
        rep.functions.add('.'.join(str(x) for x in a))
    for m in ('rule_model', 'output_space_info', 'probability_calibration'):
        rep.file('python/subprojects/common/mlrl/common/cython/%s.pyx' % m)


if __name__ == '__main__':
    report.run('C06', RULE, 'other', {'assumptions': ['pickle stores and loads tuples, lists, numbers and arrays '
                                                      'faithfully']}, analyse, 300)
