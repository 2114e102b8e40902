"""C04: parallel loops are free of data races and independent of the number of threads."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import prog
import report
import sharing

RULE = ('For each OpenMP loop (with multi-threading support being enabled), the memory that is accessed by all functions '
        'that are reachable from its body, with virtual calls being resolved by class hierarchy analysis, is classified '
        'into memory that is created by an iteration, parts of shared memory that belong to a single iteration or '
        'thread (elements or rows that are selected by the index of the iteration or thread), and other shared memory. '
        'The latter must not be modified. If parts of shared memory are modified by one iteration, they must not be read '
        'by others. Reductions must not depend on the order of the iterations.')

INTEGRAL = ('bool', 'char', 'short', 'int', 'long', 'uint', 'int8', 'unsigned', 'size_t')


def describe(key):
    return '.'.join(key).replace('.[]', '[]')


def outer_vars(omp):
    """Variables that are declared outside a region."""
    inner, refs = set(), {}
    for n in prog.walk(omp['body']):
        if n.get('k') == 'decl':
            inner |= {v['id'] for v in n['vars']}
        for v in (n.get('var'),):
            if isinstance(v, dict) and 'id' in v:
                inner.add(v['id'])
        if n.get('k') == 'lambda':
            inner |= {p.get('id') for p in n['params']}
        if n.get('k') == 'ref' and 'id' in n:
            refs.setdefault(n['id'], n)
    return {i: n for i, n in refs.items() if i not in inner}


def loop_var(omp):
    b = omp['body']
    while b is not None and b.get('k') != 'for':
        b = (b.get('s') or [None])[0] if b.get('k') == 'block' else b.get('body')
    if b is None:
        return None
    i = b.get('init')
    if i and i.get('k') == 'decl' and i['vars']:
        return i['vars'][0]['id'], b
    return None


def analyse_region(rep, P, f, omp, stats):
    key = '%s, loop in line %d' % (f['qn'].split('<')[0], omp['l'])
    lv = loop_var(omp)
    if lv is None or 'for' not in omp.get('dir', ''):
        rep.notes.append('%s: undecided (not a parallel loop)' % key)
        return
    private, reductions = set(), []
    for c in omp['clauses']:
        ids = [v.get('id') for v in c['vars'] if v.get('k') == 'ref']
        if c['c'] in ('private', 'firstprivate', 'lastprivate'):
            private |= set(ids)
        elif c['c'] == 'reduction':
            reductions += [(v, c.get('op')) for v in c['vars'] if v.get('k') == 'ref']
    for v, op in reductions:
        private.add(v['id'])
        t = v.get('t', '')
        rep.check(op in ('min', 'max') or t.replace('std::', '').startswith(INTEGRAL), '%s: reduction of %s' % (key, v['n']),
                  '%s:%d: the result of the reduction of %s (of type %s) depends on the order of the iterations' % (
                      f['f'], omp['l'], v['n'], t))
    A = sharing.Analysis(P)
    fr_env, types = {}, {}
    for i, n in outer_vars(omp).items():
        t = n.get('t', '')
        sh = ('sh', (n['n'],))
        if i in private:
            fr_env[i] = sharing.ANY if sharing.scalar(t) else frozenset([sh])
        elif sharing.scalar(sharing.strip_ref(t)):
            fr_env[i] = frozenset([sh, ('any',)])
            types[i] = sharing.strip_ref(t) + ' &'
        else:
            fr_env[i] = frozenset([sh])
            if not sharing.is_ptr(t):
                types[i] = sharing.strip_ref(t) + ' &'
    fr_env[lv[0]] = frozenset([('i',)])
    done = run(A, f, lv[1], fr_env, types, lv[0])
    rep.analysed(f)
    rep.functions |= A.functions
    stats.append((key, len(A.functions), len(A.memo), A.ncalls))
    if not done or A.overflow:
        rep.notes.append('%s: the analysis has not been completed (%d contexts)' % (key, len(A.memo)))
    bad = {}
    for (pn, line, last), (g, node, k, what, chain) in A.writes.items():
        bad.setdefault((pn, line), (g, node, k, what, chain))
    for (pn, line), (g, node, k, what, chain) in sorted(bad.items()):
        rep.violate('%s: %s' % (key, pn), '%s:%d: %s() %s: memory that is shared by the iterations of the parallel loop in '
                 '%s:%d (%s)\n        called via %s' % (g['f'], line, pn, what, f['f'], omp['l'], describe(k),
                                                         ' <- '.join(chain[:8])))
    if not bad:
        rep.ok(key + ': writes')
    n = 0
    for k, kinds in sorted(A.own_writes.items()):
        others = dict(A.reads.get(k, {}))
        for kind, place in kinds.items():
            others.setdefault(kind, place)
        kind = next(iter(kinds))
        conflict = [(o, p) for o, p in others.items() if o != kind]
        n += 1
        if conflict:
            o, (g, node) = conflict[0]
            rep.violate('%s: %s' % (key, describe(k)), '%s:%d: %s() accesses memory that is modified by other iterations of the '
                     'parallel loop in %s:%d (%s)' % (g['f'], node.get('l', g['l']), g['pn'], f['f'], omp['l'],
                                                      describe(k)))
        else:
            rep.ok('%s: %s' % (key, describe(k)))


def run(A, f, loop, env, types, lv):
    for _ in range(15):
        A.changed = False
        A.done = set()
        c = sharing.Ctx(f, None)
        fr = sharing.Frame(A, f, c, A.this_of(f), ('region', id(loop)))
        fr.env.update(env)
        fr.types.update(types)
        fr.types[lv] = 'long'
        for _ in range(2):
            fr.stmt(loop['body'])
        if not A.changed:
            return True
    return False


def analyse(rep, tier):
    P = prog.load()
    stats = []
    for f in P.fns.values():
        if f['tmpl'] or not f.get('body'):
            continue
        for n in prog.fn_nodes(f):
            if n.get('k') == 'omp' and n.get('dir') not in ('critical', 'atomic'):
                analyse_region(rep, P, f, n, stats)
    rep.coverage['regions'] = [{'loop': k, 'functions': a, 'contexts': b, 'calls': c} for k, a, b, c in stats]
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C04', RULE, 'other', {}, analyse, 12)
