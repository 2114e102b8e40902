"""C18: parameters and options that are not specified take their documented default values."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import cxx
import defaults_spec
import flow
import options_spec
import prog
import report
import use_spec

RULE = ('For every learner, the methods useDefaults() and use...() of its C++ configuration are analysed, with overrides '
        'being resolved by class hierarchy analysis. After useDefaults(), each slot of the configuration must hold the '
        'component that is documented to be used by default. Constants are propagated through the constructor of the '
        'class that is instantiated by each use...() method, followed by the setters invoked by the method. Each getter '
        'of the resulting object must return the documented default value of the respective option. The creation of a '
        'configuration must apply the defaults.')

LEARNERS = {'BoomerClassifier': 'boosting::BoomerClassifier::Config', 'BoomerRegressor': 'boosting::BoomerRegressor::Config',
            'SeCoClassifier': 'seco::SeCoClassifier::Config'}


class Undecided(Exception):
    pass


class Config:
    """The methods of the configuration of a learner, as seen by a call on an object of the most derived class."""

    def __init__(self, P, name, cls):
        self.P, self.name, self.cls = P, name, cls
        recs = [r for r in P.recs.values() if r.get('pn') == cls and not r.get('tmpl')]
        if not recs:
            raise Undecided('class %s' % cls)
        self.order = self.linearise(recs[0]['qn'])

    def linearise(self, qn):
        """Breadth-first: classes derived further come first."""
        res, todo = [], [qn]
        while todo:
            c = todo.pop(0)
            r = self.P.recs.get(c)
            if r is None:
                continue
            if c in res:
                res.remove(c)
            res.append(c)
            todo += self.bases(r)
        return res

    @staticmethod
    def bases(r):
        return [b if isinstance(b, str) else b.get('qn') or b.get('t') for b in r.get('bases', ())]

    def method(self, name):
        """The final overrider."""
        for c in self.order:
            for f in self.P.by_pn.get(c + '::' + name, ()):
                if f.get('body') and not f['tmpl'] and not f.get('pure'):
                    return f
        return None


class Hooks(flow.Hooks):
    """Records the calls of a method on the configuration in order, without following them."""

    def __init__(self):
        self.events = []

    def inline(self, fl, node, target, depth):
        return not target['n'].startswith(('use', 'get', 'set'))

    def on_call(self, fl, st, node, fn, obj, args, argnodes):
        fn = fn if isinstance(fn, str) else fn['qn']
        n = fn.split('::')[-1]
        if n in ('make_unique', 'make_shared'):
            m = re.search(r'<(.*)>', node.get('t', ''))
            self.events.append(('new', m.group(1) if m else '?', args, st))
        elif n.startswith('use'):
            self.events.append(('use', fn, args, bool(node.get('virt')), tuple(st.facts)))
        elif n.startswith('set'):
            self.events.append(('set', n, args, node, tuple(st.facts)))


def events(P, f, seen=()):
    if f['qn'] in seen:
        raise Undecided('recursion')
    h = Hooks()
    flow.Flow(P, h).run(f)
    return h.events


def selected(cfg, f, depth=0):
    """Sequence of the names of the methods use...() that are effectively invoked by useDefaults()."""
    res = []
    if depth > 10:
        raise Undecided('recursion')
    for e in events(cfg.P, f):
        if e[0] != 'use':
            continue
        n = e[1].split('::')[-1]
        if e[4]:
            raise Undecided('%s() is invoked conditionally' % n)
        if n == 'useDefaults':
            g = next((x for x in cfg.P.by_pn.get(e[1], ()) if x.get('body')), None)
            if g is None:
                raise Undecided(e[1])
            res += selected(cfg, g, depth + 1)
        else:
            res.append(n)
    return res


def slots(name):
    for k in (name, 'boosting::' + name, 'seco::' + name):
        if k in use_spec.USE:
            return tuple(use_spec.USE[k][1])
    return None


def constant(v):
    if v is None:
        return None
    if v[0] == 'lit':
        x = v[1]
        return {'true': True, 'false': False}.get(x, x)
    if v[0] == 'enum':
        return v[1].split('::')[-1]
    if v[0] == 'cast' or v[0] in ('val',):
        return constant(v[-1])
    if v[0] in ('neg', 'un') and len(v) >= 2 and isinstance(v[-1], tuple):
        c = constant(v[-1])
        return -c if isinstance(c, (int, float)) else None
    return None


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return {'True': True, 'False': False, '1': True, '0': False}.get(str(a)) == {
            'True': True, 'False': False, '1': True, '0': False}.get(str(b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1, abs(b))
    return a == b


def find_class(P, name, ns):
    for c in (name, ns + '::' + name, 'boosting::' + name, 'seco::' + name):
        if c in P.recs:
            return c
        for r in P.recs.values():
            if r.get('pn') == c:
                return r['qn']
    return None


def component(cfg, use, depth=0):
    """-> (class, {field: constant term}, {setter: term}) of the component a method selects"""
    f = cfg.method(use)
    if f is None:
        raise Undecided('method %s() of %s' % (use, cfg.name))
    return follow(cfg, f, depth)


def follow(cfg, f, depth):
    if depth > 5:
        raise Undecided('recursion')
    cls, fields = None, None
    for e in events(cfg.P, f):
        if e[0] == 'new':
            cls = find_class(cfg.P, e[1].split('<')[0], f['qn'].split('::')[0])
            if cls is None:
                raise Undecided('class %s' % e[1])
            fields = constructed(cfg.P, cls, e[2])
        elif e[0] == 'use':
            n = e[1].split('::')[-1]
            if e[3]:
                g = cfg.method(n)
            else:
                g = next((x for x in cfg.P.by_pn.get(e[1], ()) if x.get('body')), None)
            if g is None:
                raise Undecided(e[1])
            if cls is None:
                cls, fields = follow(cfg, g, depth + 1)
        elif e[0] == 'set' and fields is not None:
            if e[4]:
                raise Undecided('%s() is invoked conditionally' % e[1])
            apply_setter(cfg.P, cls, fields, e[1], e[2])
    if cls is None:
        raise Undecided('%s() does not create an object' % f['qn'])
    return cls, fields


def hierarchy(P, cls):
    res, todo = [], [cls]
    while todo:
        c = todo.pop(0)
        if c in res or c not in P.recs:
            continue
        res.append(c)
        todo += Config.bases(P.recs[c])
    return res


def constructed(P, cls, args):
    fields = {}
    for c in reversed(hierarchy(P, cls)):
        n = c.split('::')[-1]
        fs = [f for f in P.by_pn.get(c + '::' + n, ()) if not f['tmpl'] and f.get('body') is not None and
              not is_copy(f, n)]
        if c == cls:
            exact = [f for f in fs if len(f.get('params') or ()) == len(args)]
            fs = exact or fs
        if fs:
            vals = cxx.ctor_fields(P, fs[0], args=list(args) if c == cls and len(args) == len(fs[0].get('params') or ())
                                   else None)
            fields.update(vals)
    return fields


def is_copy(f, n):
    ps = f.get('params') or ()
    return len(ps) == 1 and re.search(r'\b%s\b *&' % n, ps[0].get('t', '')) is not None


def find_method(P, cls, name):
    for c in hierarchy(P, cls):
        for f in P.by_pn.get(c + '::' + name, ()):
            if f.get('body') and not f['tmpl']:
                return f
    return None


def apply_setter(P, cls, fields, name, args):
    f = find_method(P, cls, name)
    if f is None:
        raise Undecided('%s::%s' % (cls, name))
    h = cxx.summarise(P, f, args=list(args), stop=('assertGreater', 'assertGreaterOrEqual', 'assertLess',
                                                   'assertLessOrEqual', 'assertNotNull', 'assertMultiple'))
    new = {}
    for s, _ in h.outs:
        for k, v in s.env.items():
            if k[0] == 'f' and k[1] == ('this',):
                new[k[2]] = v
    fields.update(new)


def getter_value(P, cls, fields, name):
    f = find_method(P, cls, name)
    if f is None:
        return None
    h = cxx.summarise(P, f)
    if len(h.rets) != 1:
        return None
    t = strip(h.rets[0][0])
    if isinstance(t, tuple) and t[0] == 'bin' and t[1] in ('==', '!=') and ('lit', 'nullptr') in t[2:]:
        x = strip(t[3] if t[2] == ('lit', 'nullptr') else t[2])
        n = null(strip(fields.get(x[2])) if x[0] == 'f' and x[1] == ('this',) else x)
        return None if n is None else n == (t[1] == '==')
    if isinstance(t, tuple) and t[0] == 'f' and t[1] == ('this',):
        return constant(strip(fields.get(t[2])))
    return constant(t) if isinstance(t, tuple) else None


def null(t):
    """Whether a pointer is null: True, False or None, if unknown."""
    if t is None:
        return None
    if t == ('lit', 'nullptr') or t[0] == 'obj' and t[1] == 'std::unique_ptr':
        return True
    if t[0] == 'call' and 'make_unique' in str(t[1]) or t[0] == 'new':
        return False
    return None


def strip(t):
    """Without conversions."""
    while isinstance(t, tuple):
        if t[0] in ('init', 'loc') and len(t) > 1 and isinstance(t[1], tuple):
            t = t[1]
        elif t[0] in ('val', 'cast') and isinstance(t[-1], tuple):
            t = t[-1]
        else:
            break
    return t


def check_option(rep, cfg, use, setter, want):
    getter = options_spec.GETTERS.get(setter, 'get' + setter[3:])
    key = '%s::%s().%s()' % (cfg.name, use, getter)
    try:
        cls, fields = component(cfg, use)
        got = getter_value(cfg.P, cls, fields, getter)
        if got is None:
            raise Undecided('%s::%s' % (cls, getter))
    except Undecided as e:
        rep.notes.append('%s: undecided (%s)' % (key, e))
        return
    rep.functions.add('%s::%s' % (cls, getter))
    rep.check(same(got, want), key, '%s: the default value is %s instead of %s (class %s)' % (key, got, want, cls))


def check_learner(rep, P, name):
    try:
        cfg = Config(P, name, LEARNERS[name])
    except Undecided as e:
        rep.notes.append('%s: undecided (%s)' % (name, e))
        return
    spec = defaults_spec.DEFAULTS[name]
    f = cfg.method('useDefaults')
    final = {}
    try:
        if f is None:
            raise Undecided('useDefaults')
        rep.analysed(f)
        for u in selected(cfg, f):
            s = slots(u)
            if s is None:
                continue
            for x in s:
                final[x] = u
        for param, use in spec.items():
            key = '%s, default of %s' % (name, param)
            got = {final.get(x) for x in slots(use) if name == 'BoomerRegressor' or 'getRegression' not in x} or {None}
            rep.check(got == {use}, key, '%s:%d: %s::useDefaults() selects the component of %s instead of %s for the parameter '
                      '%s' % (f['f'], f['l'], LEARNERS[name], '/'.join(sorted(str(g) for g in got)), use, param))
    except Undecided as e:
        rep.notes.append('%s: undecided (%s)' % (name, e))
    nominal, numeric = options_spec.ESTIMATORS[name][1:3]
    for param, values in nominal.items():
        for value, (use, opts) in values.items():
            for opt, (setter, kind) in opts.items():
                want = defaults_spec.option(name, param, value, opt)
                if want is not None:
                    check_option(rep, cfg, use, setter, want)
    for param, (use, setter, kind, special) in numeric.items():
        want = defaults_spec.NUMERIC[name].get(param)
        if want is not None:
            check_option(rep, cfg, use, setter, want)


def check_creation(rep, P):
    """The configuration that is given to the Python layer has been initialised with the defaults."""
    n = 0
    for f in P.fns.values():
        m = re.match(r'create(\w+)Config$', f['n'])
        if not m or m.group(1) not in LEARNERS or not f.get('body'):
            continue
        h = cxx.summarise(P, f, stop=('useDefaults',))
        called = [c for c in h.calls if str(c[0]).split('::')[-1] == 'useDefaults' and not c[4] and not c[5]]
        n += 1
        rep.analysed(f)
        rep.check(bool(called), f['qn'], '%s:%d: %s() does not apply the defaults' % (f['f'], f['l'], f['qn']))
    if not n:
        rep.notes.append('functions that create configurations not found')


def analyse(rep, tier):
    P = prog.load()
    for name in LEARNERS:
        check_learner(rep, P, name)
    check_creation(rep, P)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C18', RULE, 'other', {}, analyse, 100)
