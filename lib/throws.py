"""Exceptions that may escape from functions: which `throw` expressions are reachable, via calls, virtual dispatch and the
creation of objects, without being caught on the way."""
import prog


def call_targets(P, n):
    res = list(P.targets(n))
    m = n.get('mk')
    if m and m.get('fid') in P.fns:
        res.append(P.fns[m['fid']])
    return res


def catches_all(h):
    """Whether a handler catches every exception that is raised by the library (all of them are derived from std::exception)."""
    t = h.get('t') or '...'
    return t == '...' or t.replace('const', '').replace('&', '').strip() in ('std::exception', 'exception')


def is_throw(n):
    return n.get('k') == 'throw' or n.get('k') == 'call' and n.get('fn') in ('std::rethrow_exception',
                                                                              'std::throw_with_nested')


def local_nodes(n, caught=False):
    """The nodes of a body, together with whether an exception that is raised there is caught locally."""
    if not isinstance(n, dict):
        return
    if n.get('k') == 'try':
        handlers = n.get('handlers') or []
        for x in prog.children(n):
            inside = x is n.get('body')
            yield from local_nodes(x, caught or (inside and any(catches_all(h) for h in handlers)))
        return
    yield n, caught
    for x in prog.children(n):
        if n.get('k') == 'ret' and returned_lambda(x):
            continue  # not executed by this function
        yield from local_nodes(x, caught)


def returned_lambda(e):
    e = prog.unwrap(e)
    while isinstance(e, dict) and e.get('k') in ('cast', 'ctor'):
        e = prog.unwrap(e.get('e') if e['k'] == 'cast' else (e.get('args') or [None])[0])
    return isinstance(e, dict) and e.get('k') == 'lambda'


def roots(f):
    r = [i['e'] for i in f.get('inits') or () if isinstance(i.get('e'), dict)]
    if isinstance(f.get('body'), dict):
        r.append(f['body'])
    return r


# ---- constant propagation: calls with constant arguments, for which the assertions of the callee are known to hold

def const(e, env):
    e = prog.unwrap(e)
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = prog.unwrap(e.get('e'))
    if not isinstance(e, dict):
        return None
    k = e.get('k')
    if k == 'lit':
        v = e.get('v')
        if isinstance(v, bool):
            return float(v)
        try:
            return float(v)
        except (TypeError, ValueError):
            return {'true': 1.0, 'false': 0.0}.get(v)
    if k == 'ref':
        return env.get(e.get('id'))
    if k == 'un' and e.get('op') in ('-', '!'):
        v = const(e['e'], env)
        return None if v is None else (-v if e['op'] == '-' else float(not v))
    if k == 'bin':
        a, b = const(e['a'], env), const(e['b'], env)
        op = e.get('op')
        if op == '&&':
            return 0.0 if a == 0 or b == 0 else (None if a is None or b is None else 1.0)
        if op == '||':
            return 1.0 if (a not in (None, 0)) or (b not in (None, 0)) else (None if a is None or b is None else 0.0)
        if a is None or b is None:
            return None
        try:
            return {'==': lambda: float(a == b), '!=': lambda: float(a != b), '<': lambda: float(a < b),
                    '>': lambda: float(a > b), '<=': lambda: float(a <= b), '>=': lambda: float(a >= b),
                    '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: float(int(a) % int(b))}[op]()
        except (KeyError, ZeroDivisionError):
            return None
    return None


class Throws:
    def __init__(self, P):
        self.P = P
        self.direct, self.edges = {}, {}
        for fid, f in P.fns.items():
            t, e = [], []
            for r in roots(f):
                for n, caught in local_nodes(r):
                    if caught:
                        continue
                    if is_throw(n):
                        t.append(n)
                    elif n.get('k') in ('call', 'ctor'):
                        e.extend((g['fid'], n) for g in call_targets(P, n) if not self.safe(n, g, {}))
            self.direct[fid], self.edges[fid] = t, e
        rev = {}
        for a, es in self.edges.items():
            for b, n in es:
                rev.setdefault(b, []).append((a, n))
        # shortest path to a throw expression
        self.next = {}
        todo = [fid for fid, t in self.direct.items() if t]
        for fid in todo:
            self.next[fid] = (None, self.direct[fid][0])
        i = 0
        while i < len(todo):
            b = todo[i]
            i += 1
            for a, n in rev.get(b, ()):
                if a not in self.next:
                    self.next[a] = (b, n)
                    todo.append(a)

    def may(self, fid):
        return fid in self.next

    def path(self, fid):
        res = []
        while fid is not None and len(res) < 30:
            g, n = self.next[fid]
            f = self.P.fns[fid]
            res.append('%s (%s)' % (f['pn'], prog.loc(f, n)))
            fid = g
        return ' -> '.join(res)

    def safe(self, n, g, env, depth=0):
        """Whether a call with constant arguments is known not to lead to an exception."""
        args, params = n.get('args') or [], g.get('params') or []
        if n.get('mk') or not args or len(args) != len(params) or depth > 4:
            return False
        e2 = {}
        for a, p in zip(args, params):
            v = const(a, env)
            if v is not None:
                e2[p['id']] = v
        if not e2 or g.get('inits'):
            return False
        return self.quiet(g.get('body'), e2, depth)

    def quiet(self, s, env, depth):
        if not isinstance(s, dict):
            return True
        k = s.get('k')
        if is_throw(s):
            return False
        if k == 'if':
            if not self.quiet(s.get('c'), env, depth):
                return False
            v = const(s.get('c'), env)
            return (v == 0 or self.quiet(s.get('a'), env, depth)) and (v not in (0, None) and True or
                                                                       self.quiet(s.get('b'), env, depth))
        if k in ('call', 'ctor'):
            for g in call_targets(self.P, s):
                if not self.safe(s, g, env, depth + 1) and self.reaches(g['fid']):
                    return False
        return all(self.quiet(x, env, depth) for x in prog.children(s))

    def reaches(self, fid):
        """Whether a throw expression is reachable, regardless of the values of arguments."""
        if not hasattr(self, '_reach'):
            P, rev, todo = self.P, {}, []
            for i, f in P.fns.items():
                for r in roots(f):
                    for n, caught in local_nodes(r):
                        if caught:
                            continue
                        if is_throw(n):
                            todo.append(i)
                        elif n.get('k') in ('call', 'ctor'):
                            for g in call_targets(P, n):
                                rev.setdefault(g['fid'], []).append(i)
            self._reach = set(todo)
            while todo:
                for a in rev.get(todo.pop(), ()):
                    if a not in self._reach:
                        self._reach.add(a)
                        todo.append(a)
        return fid in self._reach
