"""C05: training and predictions are reproducible."""
import ast
import glob
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.setrecursionlimit(20000)
import definite
import facts
import prog
import report
from definite import numeric, short
from sharing import is_ptr

RULE = ('No function of the C++ libraries calls a source of entropy (clock, random device, environment, address of an '
        'object), except for the clock in stopping criteria and the number of threads; there is no mutable static state; '
        'the seed of each random number generator is computed from configured values and constants only; all scalar fields '
        'of polymorphic classes are initialised by their constructors, local scalars are assigned on all paths before being '
        'read, and memory that values are accumulated into has been initialised before. In Python, no source of entropy is '
        'used, random splits of scikit-learn are given a configured seed, and the order of sets does not reach ordered data.')

ENTROPY = re.compile(
    r'^(std::)?(rand|srand|random|rand_r|drand48|lrand48|time|clock|gettimeofday|clock_gettime|getenv|secure_getenv|getpid|'
    r'getrandom|getentropy|arc4random|gethostname|localtime|gmtime|pthread_self|times|getrusage|tmpnam|mktemp|'
    r'omp_get_wtime|omp_get_wtick|omp_get_thread_limit|sysconf|__rdtsc|_rdtsc)$|'
    r'^std::random_device|^std::(this_thread|shuffle$|random_shuffle|sample$)|^std::filesystem|'
    r'^std::chrono::.*::now$|default_random_engine|^std::(mersenne_twister|linear_congruential|subtract_with)')
CLOCK = re.compile(r'^std::chrono::.*::now$')
ORDERED_BY_ADDRESS = re.compile(r'\bstd::(less|greater|hash|less_equal|greater_equal)<[^<>]*\*\s*(const)?\s*>|'
                                r'\bstd::(unordered_)?(multi)?(set|map)<[^<>,]*\*[ ,>]')


# ------------------------------------------------------------------------------------------------------------- C++ layer

def derives(P, cls, base):
    return any(short(b).split('::')[-1] == base for b in list(P.bases_of(cls)) + [cls])


def clock_allowed(P, f):
    """The clock may only be used by stopping criteria and their factories"""
    cls = f.get('pcls') or f.get('cls') or ''
    return bool(cls) and derives(P, cls, 'IStoppingCriterion')


def entropy(rep, P):
    for f in P.fns.values():
        if f['tmpl']:
            continue
        rep.analysed(f)
        pn = short(f['pn'])
        bad = None
        for n in prog.fn_nodes(f):
            k = n.get('k')
            if k in ('call', 'ctor'):
                fn = n.get('fn') or n.get('pcls') or ''
                if not n.get('in') and ENTROPY.search(short(fn)):
                    if CLOCK.match(short(fn)) and clock_allowed(P, f):
                        continue
                    bad = (n, 'calls %s()' % fn)
                elif ORDERED_BY_ADDRESS.search(fn) or ORDERED_BY_ADDRESS.search(n.get('t') or ''):
                    bad = (n, 'orders or hashes pointers')
            elif k == 'cast' and n.get('cast') == 'PointerToIntegral':
                bad = (n, 'converts an address into a number')
            elif k == 'ref' and n.get('dk') == 'fn' and ENTROPY.search(short(n.get('qn') or n.get('n') or '')):
                bad = (n, 'refers to %s()' % n['n'])
            elif k == 'decl':
                for v in n['vars']:
                    if v.get('static') and not v.get('t', '').strip().startswith('const ') and not v.get('const') and \
                            not v.get('constexpr'):
                        bad = (v if v.get('l') else n, 'has a mutable static variable %s' % v['n'])
                    elif ORDERED_BY_ADDRESS.search(v.get('t', '')):
                        bad = (n, 'orders or hashes pointers')
            if bad:
                break
        rep.check(bad is None, '%s: no source of entropy' % pn,
                  bad and '%s: %s %s, hence its outcome is not determined by the data, the parameters and the seed' % (
                      prog.loc(f, bad[0] if bad[0].get('l') else f), pn, bad[1]))
    for g in P.gvars.values():
        rep.check(g.get('const') or g.get('constexpr') or g['t'].startswith('const '), 'global %s' % g['pn'],
                  '%s:%d: the global variable %s is mutable' % (g['f'], g['l'], g['pn']))
    for k, r in P.recs.items():
        if '#dep' in k:
            continue
        for x in r.get('fields', ()):
            if ORDERED_BY_ADDRESS.search(x['t']):
                rep.violate('%s::%s' % (short(k), x['n']), '%s:%d: the field %s of %s is ordered by addresses' % (
                    r['f'], r['l'], x['n'], short(k)))


class Slicer:
    """The leaves a value is computed from: literals, parameters of methods of the API, and anything else."""

    def __init__(self, P):
        self.P = P
        self.callers = {}
        self.stores = {}
        for f in P.fns.values():
            if f['tmpl']:
                continue
            for i in f.get('inits', ()):
                if i.get('field') and i.get('e'):
                    self.stores.setdefault((short(f['pcls']), i['field']), []).append((f, i['e']))
            for n in prog.fn_nodes(f):
                if n.get('k') in ('call', 'ctor'):
                    fid = (n.get('mk') or {}).get('fid') or n.get('fid')
                    for t in ({fid} if not n.get('virt') else {t['fid'] for t in P.targets(n)} | {fid}):
                        if t:
                            self.callers.setdefault(t, []).append((f, n))
                elif n.get('k') == 'assign':
                    m = prog.unwrap(n['a'])
                    if m and m.get('k') == 'mem':
                        self.stores.setdefault((short(m.get('cls') or f.get('pcls') or ''), m['n']), []).append((f, n['b']))
                elif n.get('k') == 'un' and n['op'] in ('++', '--'):
                    m = prog.unwrap(n['e'])
                    if m and m.get('k') == 'mem':
                        self.stores.setdefault((short(m.get('cls') or f.get('pcls') or ''), m['n']), []).append((f, n))
        self.dinit = {}
        for k, r in P.recs.items():
            for x in r.get('fields', ()):
                self.dinit[(short(k), x['n'])] = x.get('dinit')

    def leaves(self, f, e, out, seen, depth=0):
        e = prog.unwrap(e) if e else None
        if e is None:
            return
        if depth > 60:
            out.add(('?', 'depth', f['pn'], e.get('l')))
            return
        k = e.get('k')
        go = lambda g, x: self.leaves(g, x, out, seen, depth + 1)
        if k in ('lit', 'str', 'sizeof', 'nullptr', 'enum'):
            out.add(('literal',))
        elif k == 'this':
            out.add(('this',))
        elif k == 'ref':
            if e.get('dk') == 'param':
                self.param(f, e, out, seen, depth)
            elif e.get('dk') in ('var', 'staticlocal'):
                if e.get('dk') == 'staticlocal':
                    out.add(('static', e['n'], f['pn'], e.get('l')))
                key = (f['fid'], e.get('id'))
                if key in seen:
                    return
                seen.add(key)
                found = False
                for n in prog.fn_nodes(f):
                    if n.get('k') == 'decl':
                        for v in n['vars']:
                            if v['id'] == e.get('id') and v.get('init'):
                                found = True
                                go(f, v['init'])
                    elif n.get('k') == 'assign':
                        t = prog.unwrap(n['a'])
                        if t and t.get('k') == 'ref' and t.get('id') == e.get('id'):
                            found = True
                            go(f, n['b'])
                if not found:
                    out.add(('const' if any(g[0].split('::')[-1] == e['n'] for g in self.P.gvars) else '?', e['n'],
                             f['pn'], e.get('l')))
            else:
                out.add(('const', e['n']))
        elif k == 'mem':
            key = (short(e.get('cls') or f.get('pcls') or ''), e['n'])
            if key in seen:
                return
            seen.add(key)
            ss = self.stores.get(key)
            if not ss and not self.dinit.get(key):
                out.add(('?', '.'.join(key), f['pn'], e.get('l')))
            for g, x in ss or ():
                if g.get('copy') or g.get('move'):
                    continue
                go(g, x)
        elif k == 'call':
            fid = e.get('fid')
            ts = [t for t in self.P.targets(e) if t.get('body')] if fid else []
            if e.get('in') and ts:
                for t in ts:
                    key = ('ret', t['fid'])
                    if key in seen:
                        continue
                    seen.add(key)
                    for n in prog.walk(t['body']):
                        if n.get('k') == 'ret' and n.get('e') is not None:
                            go(t, n['e'])
            else:
                fn = e.get('fn') or '?'
                if ENTROPY.search(short(fn)) or not fn.startswith('std::') or 'thread' in fn:
                    out.add(('call', fn, f['pn'], e.get('l')))
                for a in e['args']:
                    go(f, a)
                if e.get('obj') is not None:
                    go(f, e['obj'])
        else:
            if k == 'cast' and e.get('cast') == 'PointerToIntegral':
                out.add(('address', prog.show(e), f['pn'], e.get('l')))
            for c in prog.children(e):
                go(f, c)

    def param(self, f, e, out, seen, depth):
        i = next((n for n, p in enumerate(f['params']) if p['id'] == e['id']), None)
        key = ('param', f['fid'], i)
        if key in seen:
            return
        seen.add(key)
        cs = []
        todo, done = [f['fid']], set()
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            cs += self.callers.get(x, ())
            g = self.P.fns.get(x)
            todo += (g or {}).get('over') or ()
        if i is None or not cs:
            out.add(('boundary', f['pn'], e['n']))
            return
        for g, n in cs:
            if i < len(n['args']):
                self.leaves(g, n['args'][i], out, seen, depth + 1)


def seeds(rep, P):
    """The state of a random number generator stems from the configured seed"""
    S = Slicer(P)
    n = 0
    rngs = {short(k) for k, r in P.recs.items() if '#dep' not in k and
            any(re.match(r'random(Int|Bool)?', m['n']) for m in r.get('methods', ())) and not r.get('abs')}
    for f in P.fns.values():
        if f['tmpl']:
            continue
        for c in prog.calls(f):
            mk = c.get('mk') or {}
            cls = short(mk.get('pcls') or (c.get('pcls') if c.get('k') == 'ctor' else '') or '')
            if cls not in rngs or c.get('copy') or c.get('move'):
                continue
            n += 1
            out = set()
            for a in c['args']:
                S.leaves(f, a, out, set())
            bad = [x for x in out if x[0] not in ('literal', 'boundary', 'const', 'this')]
            rep.check(not bad, 'seed of %s in %s' % (cls, short(f['pn'])),
                      '%s: the seed of the random number generator that is created by %s depends on %s' % (
                          prog.loc(f, c), short(f['pn']), ', '.join(' '.join(map(str, x)) for x in sorted(bad, key=str)[:4])))
            rep.check(any(x[0] == 'boundary' for x in out), 'configured seed of %s in %s' % (cls, short(f['pn'])),
                      '%s: the seed of the random number generator that is created by %s is not the configured one' % (
                          prog.loc(f, c), short(f['pn'])))
    if not n:
        rep.notes.append('no random number generator has been found')


def fields(rep, P):
    """Constructors of polymorphic classes initialise all scalar fields"""
    F = {}
    for k, r in P.recs.items():
        if '#dep' in k:
            continue
        for x in r.get('fields', ()):
            F.setdefault(short(k), {})[x['n']] = x
    iface = {short(k) for k, r in P.recs.items() if any(m.get('virt') and not m['n'].startswith('~') for m in
                                                      r.get('methods', ()))}
    poly = {short(k) for k in P.recs if short(k) in iface or any(short(b) in iface for b in P.bases_of(k))}
    done = set()
    for f in P.fns.values():
        if not f.get('ctor') or f['tmpl'] or f.get('copy') or f.get('move') or f.get('inits') is None or \
                f.get('deleted') or f.get('defaulted') and not f.get('inits'):
            continue
        own = short(f['pcls'])
        if own not in poly:
            continue
        ini = {i.get('field') for i in f['inits']}
        if any(i.get('deleg') for i in f['inits']) or any(not i.get('field') and not i.get('base') for i in f['inits']):
            continue
        assigned = set()
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g['fid'] in seen:
                continue
            seen.add(g['fid'])
            for x in prog.fn_nodes(g):
                if x.get('k') == 'assign' and x['op'] == '=':
                    m = prog.unwrap(x['a'])
                    if m and m.get('k') == 'mem':
                        assigned.add(m['n'])
                elif x.get('k') == 'call' and x.get('fid') in P.fns:
                    o = x.get('obj')
                    if o is None or o.get('k') == 'this':
                        todo.append(P.fns[x['fid']])
        for name, x in F.get(own, {}).items():
            if (numeric(x['t']) or is_ptr(x['t'])) and (own, name, f['l']) not in done and not x.get('static'):
                done.add((own, name, f['l']))
                rep.check(name in ini or name in assigned or x['dinit'], '%s::%s is initialised' % (own, name),
                          '%s:%d: the constructor of %s does not initialise the field %s' % (f['f'], f['l'], own, name))


def memory(rep, P):
    D = definite.Definite(P)
    fns = [f for f in P.fns.values() if not f['tmpl']]
    for f in fns:
        D.summary(f)
    uninit, binds, called = {}, [], {}
    for f in fns:
        s = D.memo.get(f['fid'])
        if s is None:
            continue
        pn = short(f['pn'])
        for n, v in s.scalars:
            rep.violate('%s: %s' % (pn, v), '%s: %s reads the variable %s, which is not initialised on all paths' % (
                prog.loc(f, n), pn, v))
        for key, c, (g, n, what) in s.locals:
            rep.violate('%s: memory' % pn, '%s: %s allocates memory that is not initialised, but %s in %s:%d without having '
                        'been written before' % (prog.loc(f, c), pn, what, g['f'], n.get('l', 0)))
        if not s.scalars and not s.locals:
            rep.ok('%s: no uninitialised memory is read' % pn)
        for key, init, e in s.created:
            if init is False and key not in s.defines:
                uninit.setdefault(key, (f, e))
        binds += s.binds
        for c in prog.calls(f):
            o = c.get('obj')
            while o is not None and (o.get('k') == 'cast' or o.get('k') == 'un' and o['op'] == '*'):
                o = o['e']
            for t in P.targets(c) if c.get('fid') else ():
                called.setdefault(t['fid'], set()).add(o is None or o.get('k') == 'this')
    changed = True
    while changed:
        changed = False
        for a, b in binds:
            if b in uninit and a not in uninit:
                uninit[a] = uninit[b]
                changed = True
    bad = {}
    for f in fns:
        s = D.memo.get(f['fid'])
        if s is None or f.get('ctor') or called.get(f['fid']) == {True}:
            continue
        for key, (g, n, what) in s.needs.items():
            if key[0] == 't' and key in uninit:
                bad.setdefault(key, (f, g, n, what))
    for key in uninit:
        f, e = uninit[key]
        x = bad.get(key)
        rep.check(x is None, '%s::%s' % key[1:], x and '%s: the field %s of %s refers to memory that is not initialised (%s), '
                  'but %s in %s:%d via %s without having been written before' % (
                      prog.loc(f, e), key[2], key[1], prog.show(e)[:60], x[3], x[1]['f'], x[2].get('l', 0), short(x[0]['pn'])))
    rep.coverage['definite'] = {'accumulations': D.n_rmw, 'uninitialised scalars': D.n_scalars, 'fields': len(uninit)}


# ---------------------------------------------------------------------------------------------------------- Python layer

PY_ENTROPY = re.compile(r'^(random|secrets|uuid)\.|^numpy\.random\.(?!RandomState$|default_rng$|SeedSequence$)|'
                        r'^os\.(urandom|getpid|environ|getenv|times)|^time\.|^datetime\.(datetime|date)\.(now|today|utcnow)|'
                        r'^(builtins\.)?id$|^tempfile\.')
PY_SEEDED = re.compile(r'^numpy\.random\.(RandomState|default_rng|SeedSequence)$')
SKLEARN_RANDOM = {'train_test_split': True, 'KFold': False, 'StratifiedKFold': False, 'ShuffleSplit': True,
                  'StratifiedShuffleSplit': True, 'GroupShuffleSplit': True, 'RepeatedKFold': True, 'resample': True,
                  'shuffle': True, 'StratifiedGroupKFold': False, 'GroupKFold': False}
UNORDERED = ('os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob')
UNORDERED_OK = {'sorted', 'any', 'all', 'sum', 'min', 'max', 'set', 'frozenset', 'len', 'dict', 'isinstance', 'bool'}
ORDERED = {'list', 'tuple', 'enumerate', 'iter', 'next', 'zip', 'map', 'reversed', 'join', 'array', 'asarray', 'fromiter',
           'extend', 'writerow', 'chain'}


def dotted(e, imports):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    return '.'.join([imports.get(e.id, e.id)] + parts[::-1])


def imports_of(tree):
    res = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                res[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                res[a.asname or a.name] = n.module + '.' + a.name
    return res


def set_exprs(fn, attrs, imports):
    names = set()
    for a in fn.args.args + fn.args.kwonlyargs:
        if a.annotation is not None and re.match(r'(typing\.)?(Optional\[)?(typing\.)?(Frozen)?[sS]et\b',
                                                 ast.unparse(a.annotation)):
            names.add(a.arg)

    def isset(e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset') or dotted(e.func, imports) in UNORDERED:
                return True
            return isinstance(e.func, ast.Attribute) and e.func.attr in (
                'union', 'intersection', 'difference', 'symmetric_difference', 'copy') and isset(e.func.value)
        if isinstance(e, ast.Name):
            return e.id in names
        if isinstance(e, ast.Attribute):
            return e.attr in attrs
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (isset(e.left) or isset(e.right))
        if isinstance(e, ast.IfExp):
            return isset(e.body) or isset(e.orelse)
        return False
    for _ in range(3):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and isset(n.value):
                names.update(t.id for t in n.targets if isinstance(t, ast.Name))
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isset(n.value) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
    return isset


def python(rep):
    root = os.path.join(facts.REPO, 'python', 'subprojects')
    files = sorted(glob.glob(root + '/*/mlrl/**/*.py', recursive=True))
    for path in files:
        rel = os.path.relpath(path, root)
        with open(path) as f:
            tree = ast.parse(f.read())
        imports = imports_of(tree)
        parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
        attrs = {ast.unparse(n.target).split('.')[-1] for n in ast.walk(tree) if isinstance(n, ast.AnnAssign) and
                 re.match(r'(Optional\[)?[sS]et\b', ast.unparse(n.annotation))}
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            rep.functions.add('%s:%s' % (rel, fn.name))
            bad = python_fn(fn, imports, attrs, parents)
            rep.check(bad is None, '%s:%s' % (rel, fn.name),
                      bad and '%s:%d: %s() %s' % (rel, bad[0].lineno, fn.name, bad[1]))


def seed_of(call):
    for kw in call.keywords:
        if kw.arg == 'random_state' or kw.arg == 'seed':
            return kw.value
        if kw.arg is None:
            return kw.value
    return None


def python_fn(fn, imports, attrs, parents):
    isset = set_exprs(fn, attrs, imports)
    data = fn.name not in ('__hash__', '__eq__', '__repr__')
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            d = dotted(n.func, imports) or ''
            last = d.split('.')[-1] or (n.func.attr if isinstance(n.func, ast.Attribute) else '')
            if PY_ENTROPY.search(d) or d == 'hash' and data:
                return n, 'calls %s()' % d
            if PY_SEEDED.match(d) and not n.args and seed_of(n) is None:
                return n, 'creates a random number generator without a seed'
            if d.startswith('sklearn.') and last in SKLEARN_RANDOM:
                sh = next((k.value for k in n.keywords if k.arg == 'shuffle'), None)
                off = isinstance(sh, ast.Constant) and not sh.value
                needed = SKLEARN_RANDOM[last] and not off or sh is not None and not off
                s = seed_of(n)
                if needed and (s is None or isinstance(s, ast.Constant) and s.value is None):
                    return n, 'does not pass a seed to %s()' % d
                if needed and isinstance(s, ast.Constant):
                    return n, 'passes a constant seed to %s() instead of the configured one' % d
            if last in ORDERED and any(isset(a) for a in n.args):
                return n, 'passes a set to %s(), the order of its elements is undefined' % last
        elif isinstance(n, ast.For) and isset(n.iter):
            for x in ast.walk(n):
                if isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in ('append', 'insert', 'extend', 'write', 'writerow', 'info'):
                    return n, 'iterates over a set and creates ordered data, the order of its elements is undefined'
                if isinstance(x, (ast.Break,)) and not any(isinstance(y, ast.For) and y is not n for y in ast.walk(n)):
                    return n, 'selects one of the elements of a set, the order of its elements is undefined'
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)) and any(isset(g.iter) for g in n.generators):
            p = parents.get(n)
            if not (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in UNORDERED_OK):
                return n, 'creates a sequence from a set, the order of its elements is undefined'
        elif isinstance(n, ast.Starred) and isset(n.value):
            return n, 'creates a sequence from a set, the order of its elements is undefined'
    return None


def analyse(rep, tier):
    P = prog.load()
    entropy(rep, P)
    seeds(rep, P)
    fields(rep, P)
    memory(rep, P)
    python(rep)


if __name__ == '__main__':
    report.run('C05', RULE, 'other', {}, analyse, 12)
