"""C12: errors that are detected by the C++ library surface as Python exceptions."""
import ast
import glob
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.setrecursionlimit(20000)
import cy
import cyast
import facts
import nulls
import prog
import pxd
import report
import throws
from prog import unwrap

RULE = ('Each function of the C++ library that is declared in a .pxd file and from which an exception may escape (a throw '
        'expression is reachable via calls, virtual dispatch and the creation of objects, without being caught) is declared '
        'with "except +"; no exception may escape from the structured block of an OpenMP directive, a destructor or a '
        'function that is declared noexcept; no handler swallows an exception. Pointers that may be null, because a function '
        'returns null if something is not supported or null is passed to a parameter, are compared to null before being '
        'dereferenced; status codes of external solvers lead to an exception unless they indicate success.')

# ------------------------------------------------------------------------------------------------------------ status codes

def sign_eval(c, var, v):
    """The truth value of a condition if the variable is negative, zero or positive; None if unknown."""
    c = unwrap(c)
    if not isinstance(c, dict):
        return None
    k = c.get('k')
    if k == 'cast':
        return sign_eval(c.get('e'), var, v)
    if k == 'ref' and c.get('id') == var:
        return v != 0
    if k == 'un' and c.get('op') == '!':
        r = sign_eval(c['e'], var, v)
        return None if r is None else not r
    if k == 'bin' and c.get('op') in ('&&', '||'):
        a, b = sign_eval(c['a'], var, v), sign_eval(c['b'], var, v)
        if c['op'] == '&&':
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if k == 'bin' and c.get('op') in ('==', '!=', '<', '>', '<=', '>='):
        def num(e):
            e = unwrap(e)
            while isinstance(e, dict) and e.get('k') == 'cast':
                e = unwrap(e['e'])
            if isinstance(e, dict) and e.get('k') == 'ref' and e.get('id') == var:
                return 'x'
            if isinstance(e, dict) and e.get('k') == 'lit':
                try:
                    return float(e.get('v'))
                except (TypeError, ValueError):
                    return None
            if isinstance(e, dict) and e.get('k') == 'un' and e.get('op') == '-':
                r = num(e['e'])
                return -r if isinstance(r, float) else None
            return None
        a, b = num(c['a']), num(c['b'])
        if a is None or b is None or 'x' not in (a, b):
            return None
        a, b = (v if a == 'x' else a), (v if b == 'x' else b)
        return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[c['op']]
    return None


def raises(s, T, P):
    """Whether a statement always ends with an exception."""
    if not isinstance(s, dict):
        return False
    k = s.get('k')
    if k == 'block':
        return any(raises(x, T, P) for x in s.get('s') or ())
    if k in ('expr', 'ret'):
        e = unwrap(s.get('e'))
        if isinstance(e, dict) and e.get('k') == 'throw':
            return True
        if isinstance(e, dict) and e.get('k') == 'call':
            ts = P.targets(e)
            return bool(ts) and all(raises(g.get('body'), T, P) for g in ts)
        return False
    if k == 'if':
        return raises(s.get('a'), T, P) and raises(s.get('b'), T, P)
    return False


def outcomes(s, var, cell, P, T, site, called=False, depth=0):
    """How a statement may end, if a variable is known to be negative, zero or positive: pairs of 'next', 'ret' or 'throw' and
    whether the solver has been called."""
    if not isinstance(s, dict):
        return {('next', called)}
    k = s.get('k')
    if k == 'block':
        cur, res = {called}, set()
        for x in s.get('s') or ():
            new = set()
            for c in cur:
                for kind, c2 in outcomes(x, var, cell, P, T, site, c, depth):
                    (new.add(c2) if kind == 'next' else res.add((kind, c2)))
            cur = new
        return res | {('next', c) for c in cur}
    if k == 'if':
        res = set()
        for kind, c in effects_of(s.get('c'), var, cell, P, T, site, called, depth):
            if kind != 'next':
                res.add((kind, c))
                continue
            r = sign_eval(s.get('c'), var, cell)
            if r is not False:
                res |= outcomes(s.get('a'), var, cell, P, T, site, c, depth)
            if r is not True:
                res |= outcomes(s.get('b'), var, cell, P, T, site, c, depth)
        return res
    if k in ('for', 'while', 'do', 'rfor', 'switch', 'try', 'omp'):
        res = {('next', called)}
        for x in prog.children(s):
            res |= outcomes(x, var, cell, P, T, site, called, depth)
        return res
    res = effects_of(s, var, cell, P, T, site, called, depth)
    if k == 'ret':
        res = {('ret' if kind == 'next' else kind, c) for kind, c in res}
    return res


def effects_of(s, var, cell, P, T, site, called, depth):
    """The same for an expression: calls are evaluated with the value of the variable, if it is passed to them."""
    res, cur = set(), {called}
    for n in reversed(list(prog.walk(s))) if isinstance(s, dict) else ():
        if throws.is_throw(n):
            return res | {('throw', c) for c in cur}
        if n is site:
            cur = {True}
        elif n.get('k') == 'call' and depth < 3:
            for g in P.targets(n):
                for i, a in enumerate(n.get('args') or ()):
                    x = unwrap(a)
                    while isinstance(x, dict) and x.get('k') == 'cast':
                        x = unwrap(x.get('e'))
                    if isinstance(x, dict) and x.get('k') == 'ref' and x.get('id') == var and i < len(g.get('params') or ()):
                        kinds = {kind for kind, _ in outcomes(g.get('body'), g['params'][i]['id'], cell, P, T, None, False,
                                                              depth + 1)}
                        if 'throw' in kinds:
                            res |= {('throw', c) for c in cur}
                        if kinds == {'throw'}:
                            return res
            if not any(isinstance(unwrap(a), dict) and mentions(a, var) for a in n.get('args') or ()):
                ts = P.targets(n)
                if ts and all(raises(g.get('body'), T, P) for g in ts):
                    return res | {('throw', c) for c in cur}
    return res | {('next', c) for c in cur}


def mentions(e, var):
    return any(x.get('k') == 'ref' and x.get('id') == var for x in prog.walk(e))


def status_codes(P, rep, T):
    """Local variables that receive the status of a solver that is called via a function pointer."""
    for f in P.fns.values():
        if f.get('tmpl') or not isinstance(f.get('body'), dict):
            continue
        unset = {v['id'] for n in prog.fn_nodes(f) if n.get('k') == 'decl' for v in n.get('vars') or ()
                 if not isinstance(v.get('init'), dict) or (unwrap(v['init']) or {}).get('v') in (0, '0')}
        for n in prog.fn_nodes(f):
            if n.get('k') != 'call' or n.get('fid') or not n.get('args'):
                continue
            last = unwrap(n['args'][-1])
            if not (isinstance(last, dict) and last.get('k') == 'un' and last.get('op') == '&'):
                continue
            v = unwrap(last['e'])
            if not (isinstance(v, dict) and v.get('k') == 'ref' and v.get('dk') == 'var' and v.get('id') in unset and
                    (v.get('t') or '') in ('int', 'long', 'int32', 'const int')):
                continue
            rep.analysed(f)
            what = '%s: status code %s' % (f['pn'], v['n'])
            verdict = {}
            for cell in (-2, -1, 0, 1, 2):
                out = {k for k, called in outcomes(f['body'], v['id'], cell, P, T, n) if called}
                verdict[cell] = out == {'throw'}
            bad = [c for c in (-2, -1, 1, 2) if not verdict.get(c)]
            rep.check(not bad, what, '%s: %s does not report an error if the solver terminates with a %s status code'
                      % (prog.loc(f, n), f['pn'], ' or '.join(sorted({'negative' if c < 0 else 'positive' for c in bad}))))
            rep.check(not verdict.get(0), what + ': success', '%s: %s reports an error although the solver terminated '
                      'successfully' % (prog.loc(f, n), f['pn']))


# ---------------------------------------------------------------------------------------------------------------- handlers

def py_files():
    base = os.path.join(facts.REPO, 'python', 'subprojects')
    for d in ('common', 'boosting', 'seco'):
        for p in sorted(glob.glob(os.path.join(base, d, 'mlrl', '**', '*.py'), recursive=True)):
            yield p


OPTIONAL = {'ImportError', 'ModuleNotFoundError', 'ArgumentError'}


def py_always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and py_always_raises(s.body) and py_always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and py_always_raises(s.body):
            return True
    return False


def analyse(rep, tier):
    P = prog.load()
    T = throws.Throws(P)
    resolve = pxd.Resolver(P)

    # 1. declarations
    n = 0
    for d in pxd.declarations():
        impl = resolve(d)
        if not impl:
            continue
        n += 1
        for f in impl:
            rep.analysed(f)
        bad = [f for f in impl if T.may(f['fid'])]
        rep.check(d.plus or not bad, '%s: declaration of %s' % (os.path.basename(d.path), d.name),
                  '%s: %s is not declared with "except +", but an exception may escape from it: %s'
                  % (d.where, d.name, T.path(bad[0]['fid']) if bad else ''))
    rep.coverage['declared_functions'] = n
    if n < 50:
        raise report.AnalysisError('only %d declared functions could be resolved' % n)

    # 2. OpenMP, noexcept, destructors, handlers
    regions = 0
    for f in P.fns.values():
        if f.get('tmpl') and not f.get('inst'):
            pass
        if (f.get('noexcept') or f['pn'].split('::')[-1].startswith('~')) and not f.get('def'):
            rep.check(not T.may(f['fid']), '%s is not left by an exception' % f['pn'],
                      '%s: %s must not throw, but an exception may escape from it: %s'
                      % (prog.loc(f), f['pn'], T.path(f['fid']) if T.may(f['fid']) else ''))
        for x in prog.fn_nodes(f):
            if x.get('k') == 'omp':
                regions += 1
                rep.analysed(f)
                msg = None
                for y, caught in throws.local_nodes(x['body']):
                    if caught:
                        continue
                    if y.get('k') == 'throw':
                        msg = '%s' % prog.loc(f, y)
                    elif y.get('k') in ('call', 'ctor'):
                        for g in throws.call_targets(P, y):
                            if T.may(g['fid']):
                                msg = T.path(g['fid'])
                                break
                    if msg:
                        break
                rep.check(msg is None, '%s: exceptions do not leave the parallel loop' % f['pn'],
                          '%s: an exception may leave the body of the parallel loop in %s, which terminates the process: %s'
                          % (prog.loc(f, x), f['pn'], msg))
            elif x.get('k') == 'try':
                names = [y.get('fn') for y in prog.fn_nodes(f) if y.get('k') == 'call']
                for h in x.get('handlers') or ():
                    b = h.get('body')
                    stored = any(y.get('k') == 'call' and y.get('fn') == 'std::current_exception'
                                 for y in prog.walk(b or {'k': 'null'}))
                    ok = raises(b, T, P) or (stored and 'std::rethrow_exception' in names)
                    rep.check(ok, '%s: handler' % f['pn'], '%s: %s catches exceptions of type %s without reporting the error'
                              % (prog.loc(f, x), f['pn'], h.get('t')))
    rep.coverage['parallel_regions'] = regions

    # 3. null pointers
    N = nulls.Nulls(P, scope=lambda f: isinstance(f.get('body'), dict))
    rep.coverage['dereferences'] = N.sites
    for (name, e), (f, node, v, why) in sorted(N.alarms.items(), key=str):
        rep.violate('%s: %s is compared to null' % (name, e), '%s: %s dereferences %s, which %s null (%s)'
                    % (prog.loc(f, node), name, e, 'is' if v == 'N' else 'may be', why))
    for _ in range(N.sites - len(N.alarms)):
        rep.ok('dereference')
    rep.coverage['functions_that_may_return_null'] = len(N.ret)

    # 4. status codes
    status_codes(P, rep, T)

    # 5. handlers in Python
    trees = [(p, None) for p in py_files()] + [(p, 'pyx') for p in cy.pyx_files()]
    for p, kind in trees:
        try:
            tree = cyast.convert(p) if kind else ast.parse(open(p, encoding='utf-8').read())
        except Exception:
            rep.notes.append('cannot be parsed: ' + p)
            continue
        for t in ast.walk(tree):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else set()
                    names |= {x.attr for x in ast.walk(h.type) if isinstance(x, ast.Attribute)} if h.type is not None else set()
                    rel = os.path.relpath(p, facts.REPO)
                    ok = py_always_raises(h.body) or (names and names <= OPTIONAL)
                    rep.check(ok, '%s: handler' % os.path.basename(p),
                              '%s:%d: exceptions of type %s are caught, but the error is not reported'
                              % (rel, h.lineno, ', '.join(sorted(names)) or 'any'))


if __name__ == '__main__':
    report.run('C12', RULE, 'other', {}, analyse, 12)
