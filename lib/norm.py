"""Canonical forms of the terms that are computed by flow.py: sums of products for index expressions and pointers, and
conditions as truth functions over atoms. Terms that denote the same value regardless of how the source is written (order of
operands, intermediate variables, pointer arithmetic vs. indices) have the same canonical form."""


def poly(t):
    """A sum of products as a sorted tuple ((factors, coefficient), ...)."""
    d = _poly(canon(t) if not _is_canon(t) else t)
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=repr))


def _is_canon(t):
    return isinstance(t, tuple) and t and t[0] in ('ptr', 'val', 'sum', 'atom')


def _merge(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return r


def _poly(c):
    if c[0] == 'sum':
        return dict(c[1])
    if c[0] == 'atom' and isinstance(c[1], (int, float)) and not isinstance(c[1], bool):
        return {(): c[1]}
    return {(c,): 1}


def _sum(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c), key=repr))
    if not items:
        return ('atom', 0)
    if len(items) == 1:
        (m, c), = items
        if m == ():
            return ('atom', c)
        if len(m) == 1 and c == 1:
            return m[0]
    return ('sum', items)


def number(t):
    if isinstance(t, (int, float)) and not isinstance(t, bool):
        return t
    if isinstance(t, tuple) and len(t) == 2 and t[0] in ('int', 'lit', 'num', 'c', 'const') and \
            isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return t[1]
    return None


def place(loc):
    """Canonical form of a location: ('at', pointer, offset) or ('loc', ...)."""
    if loc[0] == 'idx':
        base, i = loc[1], canon(loc[2])
        if base[0] == 'deref':
            p = canon(base[1])
            b, off = split(p)
            return ('at', b, _sum(_merge(_poly(off), _poly(i))))
        inner = place(base)
        if inner[0] == 'at':
            return ('at', inner[1], _sum(_merge(_poly(inner[2]), _poly(i))))
        return ('elem', inner, i)
    if loc[0] == 'deref':
        b, off = split(canon(loc[1]))
        return ('at', b, off)
    if loc[0] == 'f':
        return ('f', place(loc[1]), loc[2])
    return ('loc',) + tuple(loc)


def split(p):
    """Base and offset of a pointer."""
    if p[0] == 'ptr':
        return p[1], p[2]
    if p[0] == 'sum':
        bases = [m for m, c in p[1] if c == 1 and len(m) == 1 and m[0][0] in ('ptr',)]
        if len(bases) == 1:
            rest = {m: c for m, c in p[1] if m != bases[0]}
            b, off = split(bases[0][0])
            return b, _sum(_merge(_poly(off), rest))
    return p, ('atom', 0)


def canon(t):
    n = number(t)
    if n is not None:
        return ('atom', n)
    if not isinstance(t, tuple) or not t:
        return ('atom', t)
    k = t[0]
    if k == 'init':
        return ('val', place(t[1]))
    if k in ('addr', 'loc') and len(t) == 2 and isinstance(t[1], tuple):
        pl = place(t[1])
        if pl[0] == 'at':
            return ('ptr', pl[1], pl[2])
        return ('ptr', ('addr', pl), ('atom', 0))
    if k == 'add':
        return plus(canon(t[1]), canon(t[2]))
    if k == 'bin':
        a, b = canon(t[2]), canon(t[3])
        if t[1] == '+':
            return plus(a, b)
        if t[1] == '-':
            if a[0] == 'ptr' and b[0] != 'ptr':
                return ('ptr', a[1], _sum(_merge(_poly(a[2]), _poly(b), -1)))
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
                return _sum(_merge(_poly(a[2]), _poly(b[2]), -1))
            return _sum(_merge(_poly(a), _poly(b), -1))
        if t[1] == '*':
            r = {}
            for m1, c1 in _poly(a).items():
                for m2, c2 in _poly(b).items():
                    m = tuple(sorted(m1 + m2, key=repr))
                    r[m] = r.get(m, 0) + c1 * c2
            return _sum(r)
        if t[1] in ('==', '!=', '&&', '||') and repr(b) < repr(a):
            a, b = b, a
        return ('atom', ('bin', t[1], a, b))
    if k == 'un' and len(t) == 3 and t[1] == '-':
        return _sum(_merge({}, _poly(canon(t[2])), -1))
    if k == 'call' and len(t) in (4, 5):
        return ('atom', ('call', t[1], canon(t[2]) if t[2] else None, tuple(canon(x) for x in t[3])))
    if k in ('param', 'p', 'top', 'this', 'enum', 'v', 'none', 'obj'):
        return ('atom', t)
    return ('atom', (k,) + tuple(canon(x) if isinstance(x, tuple) else x for x in t[1:]))


def plus(a, b):
    if b[0] == 'ptr' and a[0] != 'ptr':
        a, b = b, a
    if a[0] == 'ptr':
        return ('ptr', a[1], _sum(_merge(_poly(a[2]), _poly(b))))
    return _sum(_merge(_poly(a), _poly(b)))


# conditions

def truth(t):
    """A condition as nested ('and'|'or', [..]), ('not', x), ('atom', term), True or False."""
    if t is True or t is False:
        return t
    if t in (('lit', True), ('int', True), ('const', True), ('c', True), ('bool', True), ('lit', 'true')):
        return True
    if t in (('lit', False), ('int', False), ('const', False), ('c', False), ('bool', False), ('lit', 'false')):
        return False
    if isinstance(t, tuple) and t:
        if t[0] == 'bin' and t[1] == '&&':
            return ('and', [truth(t[2]), truth(t[3])])
        if t[0] == 'bin' and t[1] == '||':
            return ('or', [truth(t[2]), truth(t[3])])
        if t[0] == 'not' or t[0] == 'un' and t[1] == '!':
            return ('not', truth(t[-1]))
        if t[0] == 'cond':
            c = truth(t[1])
            return ('or', [('and', [c, truth(t[2])]), ('and', [('not', c), truth(t[3])])])
        if t[0] == 'bin' and t[1] == '!=':
            return ('not', ('atom', ('bin', '==', t[2], t[3])))
    return ('atom', t)


def atoms(f, acc=None):
    acc = [] if acc is None else acc
    if isinstance(f, tuple):
        if f[0] in ('and', 'or'):
            for x in f[1]:
                atoms(x, acc)
        elif f[0] == 'not':
            atoms(f[1], acc)
        elif f not in acc:
            acc.append(f)
    return acc


def evaluate(f, env):
    if f is True or f is False:
        return f
    if f[0] == 'and':
        return all(evaluate(x, env) for x in f[1])
    if f[0] == 'or':
        return any(evaluate(x, env) for x in f[1])
    if f[0] == 'not':
        return not evaluate(f[1], env)
    return env[f]


def conj(facts):
    return ('and', [truth(c) if p else ('not', truth(c)) for c, p in facts])
