"""C01: configured values and components reach the algorithms that use them."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import prog
import report

ARITH = re.compile(r'^(bool|char|short|int|long|float|double|u?int\d+(_t)?|float\d+|unsigned.*|size_t|std::size_t)$')
KINDS = {'decomposable', 'non', 'dense', 'sparse', 'classification', 'regression', 'factory'}
IGNORED = {'ptr', 'raw', 'get', 'the', 'internally', 'begin', 'cbegin', 'end', 'cend', 'it', 'iterator', 'ref'}


def base(t):
    t = re.sub(r'\s*[&*]+( const)?$', '', (t or '').strip())
    return re.sub(r'^const ', '', t).strip()


def compatible(a, b):
    a, b = base(a), base(b)
    return a == b or bool(ARITH.match(a) and ARITH.match(b) and (a == 'bool') == (b == 'bool'))


def tokens(name):
    return [t for t in re.findall(r'[A-Z]+(?![a-z])\d*|[A-Z]?[a-z]+\d*|\d+', name.replace('_', ' ')) if t]


def toks(name):
    r = {t.lower() for t in tokens(name)}
    r = {t for t in r if t not in IGNORED}
    # plural forms
    return {t[:-1] if t.endswith('s') and len(t) > 3 and not t.endswith('ss') else t for t in r}


class Origins:
    """Names of the fields, parameters, and functions the value of an expression stems from."""

    def __init__(self, f):
        self.vars = {}
        self.assigned = {}
        for n in prog.fn_nodes(f):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    if v.get('init') is not None:
                        self.vars.setdefault(v['id'], []).append(v['init'])
            elif n.get('k') == 'assign':
                t = prog.unwrap(n['a'])
                if t and t.get('k') == 'ref':
                    self.vars.setdefault(t['id'], []).append(n['b'])

    def of(self, e, depth=0, seen=()):
        """List of names"""
        if e is None or depth > 12:
            return []
        k = e.get('k')
        if k == 'ref':
            if e.get('dk') == 'var' and e.get('id') in self.vars and e['id'] not in seen:
                r = []
                for i in self.vars[e['id']]:
                    r += self.of(i, depth + 1, seen + (e['id'],))
                return r or [e['n']]
            return [e['n']]
        if k == 'mem':
            b = e.get('b')
            r = [e['n']]
            if b is not None and b.get('k') not in ('this',):
                r = [o + ' ' + e['n'] for o in self.of(b, depth + 1, seen)] or r
            return r
        if k == 'call':
            n = e.get('fn', '').split('::')[-1]
            if n in ('move', 'forward', 'get', 'operator*', 'operator->', 'cref', 'ref', 'static_pointer_cast'):
                o = e.get('obj')
                if n == 'get' and o is None:
                    return []
                return self.of(o if o is not None else (e['args'] or [None])[0], depth + 1, seen)
            if n in ('make_unique', 'make_shared'):
                r = []
                for a in e['args']:
                    r += self.of(a, depth + 1, seen)
                return r
            if e.get('obj') is not None:
                o = e['obj']
                if o.get('k') == 'this':
                    return [n]
                return [x + ' ' + n for x in self.of(o, depth + 1, seen)] or [n]
            r = []
            for a in e['args']:
                r += self.of(a, depth + 1, seen)
            return r + [n]
        r = []
        for c in prog.children(e):
            if c.get('k') != 'lambda':
                r += self.of(c, depth + 1, seen)
        return r


def literal(e):
    e = prog.unwrap(e)
    while e is not None and e.get('k') in ('cast', 'un', 'paren') and len(list(prog.children(e))) == 1:
        e = prog.unwrap(next(iter(prog.children(e))))
    return e is not None and e.get('k') in ('int', 'float', 'bool', 'lit', 'null', 'default', 'str', 'char')


def sim(origin, name):
    n = toks(name)
    return max(len(t & n) / max(1, len(t | n)) for t in (toks(origin), toks(origin.split(' ')[-1])))


def confused(origin, own, others):
    """Another parameter that matches the origin of an argument better than its own, if there is any"""
    best = max(((sim(origin, n), j) for j, n in others), default=(0, None))
    return best[1] if best[0] >= 0.5 and best[0] > sim(origin, own) else None


def mistaken(origins, own, others):
    """Another parameter, all tokens of which that are not part of the own one occur in an origin, unlike the own ones"""
    ts = [toks(o) for o in origins]
    p = toks(own)
    for j, n in others:
        a, b = p - toks(n), toks(n) - p
        if a and b and any(b <= t for t in ts) and not any(a & t for t in ts):
            return j
    return None


def callee_params(P, c):
    """[(name, type)] of a function or constructor that is called"""
    fid = (c.get('mk') or {}).get('fid') or c.get('fid')
    g = P.fns.get(fid)
    if g is not None:
        return g, [(p['n'], p['t']) for p in g['params']]
    if c.get('in') and c.get('pn'):
        return None, list(zip(c['pn'], c['pt']))
    return None, None


def strip(qn):
    while '<' in qn:
        n = re.sub(r'<[^<>]*>', '', qn)
        if n == qn:
            break
        qn = n
    return qn


def params_used(f):
    """Ids of the parameters that are referred to by a function"""
    return {n['id'] for n in prog.fn_nodes(f) if n.get('k') == 'ref' and n.get('dk') == 'param'}


def reads(P):
    """(class, field) -> functions that read the field"""
    r = {}
    for f in P.fns.values():
        for n in prog.fn_nodes(f):
            if n.get('k') == 'assign' and n.get('op') == '=' and n['a'].get('k') == 'mem':
                n['a']['w_'] = True
        for n in prog.fn_nodes(f):
            if n.get('k') in ('mem', 'dmem') and not n.get('w_'):
                r.setdefault(strip(n['qn']) if n.get('qn') else n['n'], set()).add(f['fid'])
    return r


RULE = ('Values and components are handed from configurations via factories to the algorithms that use them through '
        'constructors and factory methods. For each argument of such a call, the field, parameter or property it stems '
        'from is determined (looking through local variables, moves, casts and accessors). It must not be the one that '
        'belongs to another parameter, two arguments of any call must not be exchanged, and a value that is available '
        'must not be replaced with a constant. Each parameter of a constructor must be used, each field that stores a '
        'value must be read, and each property of a '
        'configuration and each factory method must be used by the learner.')


def cname(call):
    return strip((call.get('mk') or {}).get('pcls') or call.get('pcls') or call.get('fn') or '')


def closure(P):
    """Configurations, the polymorphic classes they create (factories), the ones these create (algorithms), and so on"""
    poly = {strip(k) for k, r in P.recs.items() if r.get('poly')}
    made = {}
    for f in P.fns.values():
        c = strip(f.get('pcls') or '')
        if c and f['n'].startswith(('create', 'use', 'fit', 'predict', 'init')):
            for n in prog.calls(f):
                k = (n.get('mk') or {}).get('pcls') or (n.get('pcls') if n.get('k') == 'ctor' else None)
                if k and strip(k) in poly:
                    made.setdefault(c, set()).add(strip(k))
    start = {c for c in poly if c.endswith('Config') or any(f['n'].startswith('set') for f in P.by_cls.get(c, ()))}
    todo, seen = list(start), set(start)
    while todo:
        for d in made.get(todo.pop(), set()) - seen:
            seen.add(d)
            todo.append(d)
    return seen


def is_wiring(c):
    n = strip(c.get('fn') or '').split('::')[-1]
    return c.get('k') == 'ctor' or n in ('make_unique', 'make_shared') or n.startswith(('create', 'init'))


def analyse(rep, tier):
    P = prog.load()
    cls = closure(P)
    rd = reads(P)
    fields = {}
    for k, r in P.recs.items():
        fields.setdefault(strip(k), {}).update({x['n']: x['t'] for x in r.get('fields', ())})
    seen, kinds = {}, {}

    def once(cond, key, msg, place):
        """Instantiations of a template are considered only once"""
        if seen.get((key, place)) is not True:
            seen[(key, place)] = bool(cond)
            if not cond:
                seen[(key, place)] = True
                rep.violate(key, msg)
            else:
                rep.ok(key)
                seen[(key, place)] = True

    for f in P.fns.values():
        if f['tmpl']:
            continue
        O = None
        own = strip(f.get('pcls') or '')
        scope = dict(fields.get(own, {}))
        scope.update({p['n']: p['t'] for p in f['params']})
        name = strip(f['pn'])
        for c in prog.calls(f):
            g, ps = callee_params(P, c)
            if not ps or c.get('copy') or c.get('move'):
                continue
            O = O or Origins(f)
            callee = cname(c)
            args = list(c['args']) + [None] * (len(ps) - len(c['args']))
            og = [sorted(set(O.of(a))) if a is not None else [] for a in args]
            for i, (n, t) in enumerate(ps):
                if not n:
                    continue
                key = '%s: argument %s of %s' % (name, n, callee)
                place = (f['f'], c['l'], i)
                where = '%s:%d: ' % (f['f'], c['l'])
                others = [(j, m) for j, (m, u) in enumerate(ps) if j != i and m and m != n and compatible(t, u)]
                if len(og[i]) == 1 and others:
                    if is_wiring(c):
                        rep.analysed(f)
                        j = confused(og[i][0], n, others)
                        once(j is None, key, '%s%s() passes %s as the argument %s of %s, rather than %s' % (
                            where, name, og[i][0], n, callee, ps[j][0] if j is not None else ''), place)
                    for j, m in others:
                        if j > i and len(og[j]) == 1 and sim(og[i][0], m) > sim(og[i][0], n) and \
                                sim(og[j][0], n) > sim(og[j][0], m):
                            once(False, key, '%s%s() exchanges the arguments %s and %s of %s' % (
                                where, name, n, m, callee), place)
                if len(og[i]) > 0 and others and is_wiring(c) and own in cls and f['n'].startswith(('create', 'use')):
                    # a value that is calculated from several ones may depend on the one another argument stems from
                    j = mistaken(og[i], n, [(k, m) for k, m in others if len(og[i]) == 1 or not set(og[k]) & set(og[i])])
                    once(j is None, key + ': origin', '%s%s() passes %s as the argument %s of %s, rather than %s' % (
                        where, name, og[i][0], n, callee, ps[j][0] if j is not None else ''), place)
                if 'RuleEvaluationFactory>' in t and own in cls and len(og[i]) == 1:
                    kinds.setdefault((own, f['n'], n), {}).setdefault(frozenset(toks(og[i][0]) - KINDS), (f, c, og[i][0]))
                if is_wiring(c) and (own in cls or callee in cls) and (args[i] is None or literal(args[i])):
                    same = [x for x, u in scope.items() if toks(x) == toks(n) and toks(n) and compatible(t, u)]
                    once(not same, key, '%s%s() passes a constant as the argument %s of %s, although %s is available' % (
                        where, name, n, callee, ', '.join(same)), place)
        if f.get('ctor') and f.get('inits') is not None and own in cls and not (f.get('copy') or f.get('move')):
            used = params_used(f)
            for p in f['params']:
                if p['n']:
                    once(p['id'] in used, '%s: parameter %s' % (name, p['n']), '%s:%d: %s() ignores its parameter %s' % (
                        f['f'], f['l'], name, p['n']), (f['f'], f['l']))
            O = O or Origins(f)
            fs = fields.get(own, {})
            stored = {it.get('field'): sorted(set(O.of(it.get('e')))) for it in f['inits'] if it.get('field')}
            for it in f['inits']:
                n = it.get('field')
                o = sorted(set(O.of(it.get('e')))) if n else []
                if n not in fs or len(o) != 1:
                    continue
                rep.analysed(f)
                others = [(m, m) for m, u in fs.items() if m != n and compatible(u, fs[n]) and stored.get(m) != o]
                j = confused(o[0], n, others)
                once(j is None, '%s: field %s' % (name, n), '%s:%d: %s() stores %s in the field %s, rather than in %s' % (
                    f['f'], f['l'], name, o[0], n, j), (f['f'], f['l']))
    for (o, m, n), ks in sorted(kinds.items()):
        f, c, og = list(ks.values())[-1]
        rep.check(len(ks) == 1, '%s::%s: kinds of %s' % (o, m, n), '%s:%d: %s::%s() passes %s as %s, unlike its overloads' % (
            f['f'], c['l'], o, m, og, n))
    stored_fields(rep, P, cls, rd)
    properties(rep, P)
    rep.coverage['classes'] = len(cls)


def stored_fields(rep, P, cls, rd):
    """Each field a constructor stores one of its parameters in is read."""
    done = set()
    uses = {}
    for f in P.fns.values():
        own = strip(f.get('pcls') or '')
        for it in (f.get('inits') or ()) if own in cls else ():
            for x in prog.walk(it.get('e') or {}):
                if x.get('k') == 'ref' and x.get('dk') == 'param':
                    uses.setdefault((f['fid'], x['id']), set()).add(it.get('field') or it.get('base'))
    for f in P.fns.values():
        own = strip(f.get('pcls') or '')
        if not f.get('ctor') or f['tmpl'] or own not in cls or f.get('copy') or f.get('move'):
            continue
        for it in f.get('inits') or ():
            n = it.get('field')
            if not n or (own, n) in done or not any(
                    x.get('k') == 'ref' and x.get('dk') == 'param' and uses.get((f['fid'], x['id'])) == {n}
                    for x in prog.walk(it.get('e') or {})):
                continue
            done.add((own, n))
            rep.check(any(x for x in rd.get(own + '::' + n, ())) or rd.get(own + '#dep::' + n) or n in rd,
                      '%s: use of %s' % (own, n), '%s:%d: the field %s of %s is never used' % (f['f'], f['l'], n, own))


def roots(P, f):
    """The methods a method overrides (transitively), or the method itself"""
    todo, res, seen = [f['fid']], set(), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        o = OVER.get(x)
        if o:
            todo += o
        else:
            res.add(x)
    return res


OVER = {}


def properties(rep, P):
    """Each property of a configuration is used, each method that creates a component is called, each component is used"""
    decls = {}
    for k, r in P.recs.items():
        if '#dep' in k:
            continue
        for m in r.get('methods', ()):
            OVER[m['fid']] = list(m.get('over') or ())
            decls[m['fid']] = (strip(k), m, r)
    for f in P.fns.values():
        if f.get('over'):
            OVER.setdefault(f['fid'], list(f['over']))
    used, called = set(), set()
    for f in P.fns.values():
        if f['tmpl']:
            continue
        in_use = f['n'].startswith('use')
        passed, vs = set(), {}
        if in_use:
            for n in prog.fn_nodes(f):
                if n.get('k') == 'decl':
                    for v in n['vars']:
                        vs[v['id']] = v.get('init')
            for c in prog.calls(f):
                n = strip(c.get('fn') or '').split('::')[-1]
                if n in ('make_unique', 'make_shared') or c.get('k') == 'ctor' and not c.get('copy') and not c.get('move'):
                    for a in c['args']:
                        for x in prog.walk(a):
                            if x.get('k') == 'ref' and x.get('id') in vs:
                                passed |= {y.get('fid') for y in prog.walk(vs[x['id']] or {}) if y.get('k') == 'call'}
                            elif x.get('k') == 'call':
                                passed.add(x.get('fid'))
        for c in prog.calls(f):
            called.add(c.get('fid'))
            if not in_use or c.get('fid') in passed:
                used.add(c.get('fid'))
        unused_results(rep, P, f)
    used_roots = set().union(*(roots(P, {'fid': x}) for x in used if x))
    called_roots = set().union(*(roots(P, {'fid': x}) for x in called if x))
    for fid, (k, m, r) in sorted(decls.items(), key=lambda x: str(x[0])):
        if OVER.get(fid) or not m.get('virt'):
            continue
        ret = m.get('ret', '')
        if re.match(r'(const )?(Shared|Readable)?Property<', ret):
            rep.check(fid in used_roots, '%s::%s: use' % (k, m['n']),
                      '%s:%d: the property %s of %s is never used, hence its configuration has no effect' % (
                          r['f'], m['l'], m['n'], k))
        elif m['n'].startswith('create') and '_ptr<' in ret and ('Factory>' in ret or k.endswith(('Factory', 'Config'))):
            rep.check(fid in called_roots, '%s::%s: use' % (k, m['n']),
                      '%s:%d: the method %s::%s() is never called, hence the component it creates is not used' % (
                          r['f'], m['l'], k, m['n']))


def unused_results(rep, P, f):
    """Components that have been created are not discarded"""
    created, refs = {}, {}
    for n in prog.fn_nodes(f):
        if n.get('k') == 'decl':
            for v in n['vars']:
                i = v.get('init')
                while i is not None and i.get('k') in ('ctor', 'cast', 'init') and len(i.get('args') or ()) == 1:
                    i = i['args'][0]
                if i is not None and i.get('k') == 'call' and i.get('in') and \
                        strip(i.get('fn') or '').split('::')[-1].startswith('create') and '_ptr<' in i.get('t', ''):
                    created[v['id']] = (v, i)
        elif n.get('k') == 'ref':
            refs[n.get('id')] = True
    for i, (v, c) in created.items():
        rep.check(i in refs, '%s: use of %s' % (strip(f['pn']), v['n']), '%s:%d: %s() discards the component created by %s()' % (
            f['f'], c['l'], strip(f['pn']), c['fn']))


if __name__ == '__main__':
    report.run('C01', RULE, 'other', {}, analyse, 12)
