"""C03: every documented parameter value selects exactly the component it stands for, with exactly the given options."""
import ast
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import flow
import options_spec
import prog
import pyabs
import report
import use_spec

RULE = ('For every estimator, documented parameter, documented value and documented option, the construction of the '
        'learner is interpreted abstractly from the constructor of the estimator through the Python and Cython layers '
        'down to the calls on the C++ configuration, with the option values left symbolic. On every path that does not '
        'raise, the only component selected must be the documented one, the option must reach its own setter unchanged '
        'and every other setter may only be given the value of its own getter. The C++ methods that select a component '
        'must store an object of the documented class, wired to the documented properties, in the documented slot.')

VALIDATION = 'mlrl.common.cython.validation'


class Summary:
    """What a path does to the C++ configuration."""

    def __init__(self, effects):
        self.uses = []
        self.sets = {}
        self.created = []
        for e in effects:
            if e.kind != 'call' or not e.target:
                continue
            f = e.target
            if f[0] == 'attr':
                recv, name = f[1], f[2]
                if is_config(recv):
                    if name.startswith('use'):
                        self.uses.append(name)
                elif recv[0] == 'call' and recv[1][0] == 'attr' and is_config(recv[1][1]) and name.startswith('set'):
                    use = recv[1][2]
                    value = e.args[0] if e.args else None
                    if is_own_default(value, recv, name):
                        continue
                    self.sets[(use, name)] = value
            elif f[0] in ('ext', 'global', 'builtin') or True:
                n = pyabs.show(f)
                if re.match(r'create\w+$', n.split('.')[-1]) and e.args:
                    self.created.append((n.split('.')[-1], e.args))


def is_config(t):
    while t and t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('get', '__getitem__'):
        t = t[1][1]
    return bool(t and t[0] == 'call' and re.search(r'create\w+Config$', pyabs.show(t[1])))


def is_own_default(value, recv, setter):
    getter = options_spec.GETTERS.get(setter, 'get' + setter[3:])
    found = False
    for t in pyabs.subterms(value):
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1] == ('attr', recv, getter):
            found = True
        elif isinstance(t, tuple) and t and t[0] == 'bin':
            return False
    return found


def norm(t):
    """Strips conversions that do not change a value, e.g. float(float(x))."""
    s = pyabs.show(t)
    while True:
        n = re.sub(r'\b(int|float)\(\1\((.*)\)\)$', r'\1(\2)', s)
        n = re.sub(r"__cast__\('[^']*', (.*)\)$", r'\1', n)
        n = re.sub(r'\bstr\((str:\w+)\)', r'\1', n)
        if n == s:
            return s
        s = n


class Estimator:
    def __init__(self, interp, name):
        self.I = interp
        self.name = name
        self.module, self.nominal, self.numeric, self.create = options_spec.ESTIMATORS[name]
        self.cls = interp.cls(self.module, name)
        init = interp.class_attr(self.cls, '__init__')[1]
        node = interp.fns[init[1:]][0]
        self.params = [a.arg for a in node.args.args + node.args.kwonlyargs if a.arg != 'self']

    def paths(self, **kw):
        """-> (summaries of the paths that do not raise, number of paths that do)"""
        ok, raised = [], 0
        for s, o in self.I.call(self.I.start(), self.cls, [], kw, None):
            if o[0] == 'raise':
                raised += 1
                continue
            s.effects = []
            for s2, r in self.I.call_method(s, o, '_create_learner'):
                if r[0] == 'raise':
                    raised += 1
                else:
                    ok.append((Summary(s2.effects), s2.pc))
        return ok, raised


def check_stored(rep, est):
    V = ('sym', 'V')
    for p in est.params:
        bad = None
        for s, o in est.I.call(est.I.start(), est.cls, [], {p: V}, None):
            if o[0] == 'raise':
                continue
            for q in est.params:
                v = est.I.getattr(s, o, q, None)
                v = v[0][1] if isinstance(v, list) else v
                if (q == p) != (v == V):
                    bad = 'the constructor argument "%s" is %s the attribute "%s"' % (
                        p, 'not stored in' if q == p else 'stored in', q)
        rep.check(bad is None, '%s(%s=...) is stored' % (est.name, p), '%s: %s' % (est.name, bad))


def compare(base, got, use, sets):
    """-> description of the difference to the expected effect, or None"""
    extra = list(got.uses)
    for u in base.uses:
        if u in extra:
            extra.remove(u)
        elif u != use and not (use and slot(u) == slot(use)):
            return 'the component selected by %s() is no longer configured' % u
    want = [use] if use else []
    if use and use in base.uses and use in got.uses:
        want = []
    if use and use not in got.uses:
        return 'the component selected by %s() is not configured%s' % (
            use, ' (but the one selected by %s())' % ', '.join(extra) if extra else '')
    rest = [u for u in extra if u != use]
    if rest:
        return 'the component selected by %s() is configured, although it has not been asked for' % ', '.join(rest)
    for k, v in sets.items():
        if k not in got.sets:
            return '%s().%s() is not given the value of the option' % k
        if norm(got.sets[k]) not in v:
            return '%s().%s() is given %s instead of %s' % (k + (norm(got.sets[k]), v[0]))
    for k, v in got.sets.items():
        if k in sets or k in base.sets and norm(base.sets[k]) == norm(v):
            continue
        return '%s().%s() is given %s, although no such value has been specified' % (k + (norm(v),))
    return None


def slot(use):
    e = use_spec.USE.get(use) or use_spec.USE.get('boosting::' + use) or use_spec.USE.get('seco::' + use)
    return e[1] if e else None


def check_estimator(rep, est, P):
    base_paths, _ = est.paths()
    if not base_paths:
        rep.violate('%s()' % est.name, '%s: no learner can be created with the default parameters' % est.name)
        return
    base = base_paths[0][0]
    for b, _ in base_paths:
        rep.check(any(n == est.create for n, _ in b.created), '%s()' % est.name,
                  '%s: the configuration is not passed to %s()' % (est.name, est.create))
    agg = {}
    for name, e in P.enums.items():
        if name.split('::')[-1] == 'AggregationFunction':
            agg = dict(e['cs'])

    def expect(kind, text):
        if kind == 'bool':
            return ['True' if text == 'true' else 'False', '1' if text == 'true' else '0']
        if kind == 'aggregation':
            return [str(agg.get(options_spec.AGGREGATIONS[text])), 'AggregationFunctionImpl.'
                    + options_spec.AGGREGATIONS[text]]
        return ['%s(%s)' % (kind, text)]

    def verify(key, kw, use, sets):
        try:
            ok, raised = est.paths(**kw)
        except pyabs.Unsupported as e:
            rep.notes.append('%s: undecided (%s)' % (key, e))
            return
        if not ok:
            rep.violate(key, '%s: the documented value is rejected' % key)
            return
        for got, pc in ok:
            d = compare(base, got, use, sets)
            if d is None and not any(n == est.create for n, _ in got.created):
                d = 'the configuration is not passed to %s()' % est.create
            if d is not None:
                rep.violate(key, '%s: %s%s' % (key, d, ' when ' + ', '.join(
                    '%s is %s' % (pyabs.show(k), v) for k, v in pc.items()) if pc else ''))
                return
        rep.ok(key)

    def reject(key, kw):
        try:
            ok, raised = est.paths(**kw)
        except pyabs.Unsupported as e:
            rep.notes.append('%s: undecided (%s)' % (key, e))
            return
        rep.check(not ok, key, '%s: the undocumented value is accepted' % key)

    for param, values in est.nominal.items():
        if param not in est.params:
            rep.violate('%s(%s)' % (est.name, param), '%s does not have the documented parameter %s' % (est.name, param))
            continue
        reject('%s(%s=<unknown>)' % (est.name, param), {param: pyabs.const('unknown-value')})
        for value, (use, opts) in values.items():
            key = '%s(%s=%s' % (est.name, param, value)
            verify(key + ')', {param: pyabs.const(value)}, use, {})
            reject(key + '{unknown}', {param: pyabs.const(value + '{unknown_option=1}')})
            for opt, (setter, kind) in opts.items():
                if kind in ('bool', 'aggregation'):
                    for text in (('true', 'false') if kind == 'bool' else options_spec.AGGREGATIONS):
                        verify('%s{%s=%s})' % (key, opt, text), {param: pyabs.const('%s{%s=%s}' % (value, opt, text))},
                               use, {(use, setter): expect(kind, text)})
                    reject('%s{%s=<unknown>})' % (key, opt), {param: pyabs.const('%s{%s=foo}' % (value, opt))})
                else:
                    V = ('sym', 'str:V')
                    verify('%s{%s=V})' % (key, opt), {param: ('strcat', (value + '{' + opt + '=', V, '}'))}, use,
                           {(use, setter): expect(kind, 'str:V')})
            if len(opts) > 1:
                for order in (sorted(opts), sorted(opts, reverse=True)):
                    parts = [value + '{']
                    sets = {}
                    for i, opt in enumerate(order):
                        setter, kind = opts[opt]
                        text = {'bool': 'true', 'aggregation': 'max'}.get(kind)
                        parts[-1] += ('' if i == 0 else ',') + opt + '='
                        if text:
                            parts[-1] += text
                        else:
                            text = 'str:V%d' % i
                            parts += [('sym', text), '']
                        sets[(use, setter)] = expect(kind, text)
                    parts[-1] += '}'
                    verify('%s{%s,...})' % (key, order[0]), {
                        param: ('strcat', tuple(parts)) if len(parts) > 1 else pyabs.const(parts[0])}, use, sets)

    for param, (use, setter, kind, special) in est.numeric.items():
        if param not in est.params:
            rep.violate('%s(%s)' % (est.name, param), '%s does not have the documented parameter %s' % (est.name, param))
            continue
        conv = {'int': int, 'float': float}[kind]
        for v in (0, 1, 2, 7, 50, 1000000) if kind == 'int' else (0.0, 1e-9, 0.25, 0.5, 1.0, 1.5, 20.0):
            v = conv(v)
            key = '%s(%s=%s)' % (est.name, param, v)
            if v in special:
                verify(key, {param: pyabs.const(v)}, special[v], {})
            else:
                verify(key, {param: pyabs.const(v)}, use, {(use, setter): [norm(pyabs.const(v))]})
        # symbolic: unless the value is one of the special ones, it must reach its setter
        V = ('sym', 'V')
        key = '%s(%s=V)' % (est.name, param)
        try:
            ok, _ = est.paths(**{param: V})
        except pyabs.Unsupported as e:
            rep.notes.append('%s: undecided (%s)' % (key, e))
            continue
        bad = None
        n = 0
        for got, pc in ok:
            eq = any(t[0] == 'cmp' and t[1] == '==' and pyabs.is_const(t[3]) and t[3][2] in special and b
                     for t, b in pc.items() if isinstance(t, tuple))
            none = any(isinstance(t, tuple) and (t == ('cmp', 'is', V, pyabs.NONE) and b or t == V and not b)
                       for t, b in pc.items())
            if eq or none:
                # special values and zero are covered by the constants above, None means that no value is given
                continue
            n += 1
            d = compare(base, got, use, {(use, setter): ['%s(V)' % kind, 'V']})
            if d:
                bad = '%s when %s' % (d, ', '.join('%s is %s' % (pyabs.show(k), v) for k, v in pc.items()))
        rep.check(bad is None and n > 0, key, '%s: %s' % (key, bad or 'never configured'))


# ------------------------------------------------------------------------------------------------------- C++ layer

def short(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'call':
        nm = t[1].split('::')[-1]
        if nm in ('make_unique', 'make_shared'):
            return 'NEW'
        pre = '' if t[2] in (None, ('loc', ('this',))) else short(t[2]) + '.'
        return pre + nm
    if t[0] in ('loc', 'val', 'deref'):
        return short(t[1])
    if t[0] == 'f':
        return short(t[1]) + '.' + str(t[2])
    if t[0] == 'this':
        return 'this'
    if t[0] == 'lit':
        return str(t[1])
    return str(t[0])


class UseHooks(flow.Hooks):
    def __init__(self):
        self.new = []
        self.slots = []
        self.calls = []
        self.returned = []

    def on_call(self, fl, st, node, fn, obj, args, argnodes):
        nm = (fn if isinstance(fn, str) else fn['qn']).split('::')[-1]
        if nm in ('make_unique', 'make_shared'):
            m = re.search(r'<(.*)>', node.get('t', ''))
            self.new.append((m.group(1) if m else '?', [short(a) for a in args]))
        elif nm == 'operator()' and obj is not None and short(obj).endswith('.set'):
            self.slots.append((short(obj)[:-4], short(args[0]) if args else '?',
                               any('make_' in str(x) for x in args)))
        elif nm.startswith('use') or nm.startswith('set'):
            self.calls.append((nm, [short(a) for a in args]))

    def on_return(self, fl, st, term, node, depth):
        if depth == 0:
            self.returned.append(term)

    def inline(self, fl, node, target, depth):
        n = target['n'] if isinstance(target, dict) else ''
        return not n.startswith('use') and not n.startswith('get')


def describe(P, f):
    h = UseHooks()
    flow.Flow(P, h).run(f)
    return h


def check_cpp(P, rep):
    seen = {}
    for f in sorted(P.fns.values() if isinstance(P.fns, dict) else P.fns, key=lambda f: f['qn']):
        if not re.match(r'use[A-Z]', f['n']) or f['n'] == 'useDefaults' or not f.get('body'):
            continue
        ns = f['qn'].split('::')[0]
        name = (ns + '::' if ns in ('boosting', 'seco') else '') + f['n']
        if name not in use_spec.USE and f['n'] not in use_spec.USE:
            continue
        h = describe(P, f)
        rep.analysed(f)
        where = 'cpp/subprojects/%s:%d' % (f['f'], f['l'])
        if not h.new:
            # an override: it has to delegate to the overridden method
            rep.check(any(c[0] == f['n'] for c in h.calls), f['qn'],
                      '%s: %s does not configure any component' % (where, f['qn']))
            continue
        if name not in use_spec.USE:
            name = f['n']
        seen[name] = True
        cls, slots, args = use_spec.USE[name]
        for c, a in h.new:
            rep.check(c.split('::')[-1] == cls, f['qn'] + ' class',
                      '%s: %s() creates an object of type %s instead of %s' % (where, name, c, cls))
            rep.check(a == args, f['qn'] + ' arguments', '%s: %s() passes %s instead of %s to the constructor of %s' % (
                where, name, a, args, cls))
        got = sorted(s for s, _, made in h.slots if made)
        rep.check(got == sorted(slots), f['qn'] + ' slot',
                  '%s: %s() stores the component in %s instead of %s' % (where, name, got, slots))
        cleared = sorted(s for s, _, made in h.slots if not made)
        rep.check(cleared == sorted(use_spec.CLEARED.get(name, [])), f['qn'] + ' cleared',
                  '%s: %s() additionally modifies %s' % (where, name, cleared))
    for name in use_spec.USE:
        if name not in seen:
            rep.notes.append('C++ method %s not found' % name)
    rep.coverage['cpp_selection_methods'] = len(seen)
    if len(seen) < 60:
        raise prog.AnalysisError('only %d methods that select a component recognised' % len(seen))
    # every property is backed by a field of its own
    fields = {}
    for f in (P.fns.values() if isinstance(P.fns, dict) else P.fns):
        if not f.get('body') or not re.match(r'get\w+Config$', f['n']) or 'Property<' not in f.get('ret', ''):
            continue
        used = set()
        for n in prog.walk(f['body']):
            if n.get('k') == 'mem' and n.get('f', n.get('field')):
                pass
        for n in prog.walk(f['body']):
            if n.get('k') == 'mem':
                used.add(n.get('n'))
        rep.analysed(f)
        if 'ReadableProperty' in f['ret']:
            continue
        cls = f['qn'].rsplit('::', 1)[0]
        used = {u for u in used if u and u.endswith('_')}
        rep.check(len(used) == 1, f['qn'], 'cpp/subprojects/%s:%d: %s refers to the fields %s instead of a single one' % (
            f['f'], f['l'], f['qn'], sorted(used)))
        for u in used:
            other = fields.setdefault((cls, u), f['n'])
            rep.check(other == f['n'], '%s field %s' % (f['qn'], u),
                      'cpp/subprojects/%s:%d: %s and %s are backed by the same field %s' % (
                          f['f'], f['l'], f['qn'], other, u))
    rep.coverage['cpp_properties'] = len(fields)


def analyse(rep, tier):
    P = prog.load()
    check_cpp(P, rep)
    I = pyabs.Interp()
    for n in I.module(VALIDATION).tree.body:
        if isinstance(n, ast.FunctionDef):
            # the ranges of the values are decided by C02
            I.overrides[('fn', VALIDATION, n.name)] = lambda self, st, args, kwargs, node, env: [(st, pyabs.NONE)]
    for name in options_spec.ESTIMATORS:
        est = Estimator(I, name)
        check_stored(rep, est)
        check_estimator(rep, est, P)
    rep.coverage['notes'] = rep.notes
    for a in I.analysed:
        rep.functions.add('.'.join(str(x) for x in a))


if __name__ == '__main__':
    report.run('C03', RULE, 'other', {'assumptions': [
        'Validation functions only raise or return (the accepted ranges are decided by C02).']}, analyse, 400)
