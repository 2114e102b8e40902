"""C14: aggregated statistics are the weighted sums of what has been added to and removed from them."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.setrecursionlimit(20000)
import effects
import norm
import prog
import report
from effects import shown, strip_epochs
from norm import canon, place

RULE = ('Linearity of the update kernels: each function that adds (removes) statistics, scores or sums stores, for each element, '
        'the old value plus (minus) weight times the corresponding element of its operand, and does so for all elements and '
        'for all members that are updated by its counterparts; a difference stores the first operand minus the second one. '
        'Elements correspond via the identity (complete indices) or the given indices (partial indices, also for both '
        'dimensions of packed triangular matrices). Overloaded arithmetic operators act member-wise. The classes that '
        'aggregate statistics call these kernels with the weights, rows and indices they have been given, and reverting an '
        'update is the inverse of applying it.')

STOP = ('getElement', 'emplace')


class Kernel:
    pass


def tops(t, acc):
    if isinstance(t, tuple):
        if t and t[0] == 'top':
            if t not in acc:
                acc.append(t)
            return acc
        for x in t:
            tops(x, acc)
    return acc


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if t and t[0] == 'deref' and t[1] in m and m[t[1]][0] == 'add':
        return ('idx', ('deref', m[t[1]][1]), m[t[1]][2])
    if t and t[0] == 'idx' and t[1][0] == 'deref' and t[1][1] in m and m[t[1][1]][0] == 'add':
        x = m[t[1][1]]
        return ('idx', ('deref', x[1]), ('bin', '+', x[2], subst(t[2], m)))
    return tuple(subst(x, m) for x in t)


def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t)


def iterations(h):
    """Pointers that are advanced by one per iteration, and counters that run backwards, as functions of a counter that runs
    from zero upwards: (variable -> term, variable -> (counter, function that maps its bound to the one of the counter))."""
    m, bounds = {}, {}
    for t, d in list(h.ind.items()):
        lo, step = d['lo'], d['step']
        if lo is None or step not in (1, -1):
            continue
        lo = strip_epochs(lo)
        if step == 1:
            c = canon(lo)
            if not (c[0] == 'ptr' or c[0] == 'atom' and isinstance(c[1], tuple) and c[1][0] in ('p', 'param') or
                    c[0] == 'val' and c[1][0] == 'f' and 'array' in str(c[1][2])):
                continue
            j = ('top', 'it', id(d['loop']))
            m[t] = ('add', lo, j)
            bounds[t] = (j, lambda b, lo=lo: ('bin', '-', b, lo))
        else:
            j = ('top', 'down', t[2])
            m[t] = ('add', j, 1)
            bounds[t] = (j, None)
            if j not in h.ind:
                h.ind[j] = dict(d, lo=('lit', 0), step=1, top=lo)
            continue
        if j not in h.ind:
            h.ind[j] = dict(d, lo=('lit', 0), step=1)
    # a counter that starts at zero in the same loop serves as the common counter
    zero = {}
    for t, d in h.ind.items():
        if t[1] != 'it' and d['step'] == 1 and d['lo'] in (('lit', 0), ('lit', '0')):
            zero.setdefault(id(d['loop']), t)
    for t, d in h.ind.items():
        if t[1] == 'it' and id(d['loop']) in zero:
            z = zero[id(d['loop'])]
            m = {k: subst(v, {t: z}) for k, v in m.items()}
            bounds = {k: (z if v[0] == t else v[0], v[1]) for k, v in bounds.items()}
    return m, bounds


def down_bound(c, pol):
    """A condition i > 0 of a loop that runs backwards."""
    if isinstance(c, tuple) and c and c[0] == 'bin':
        a, b = c[2], c[3]
        if c[1] == '<' and pol and zero(a) and isinstance(b, tuple) and b[0] == 'top':
            return b
        if c[1] == '<=' and not pol and zero(b) and isinstance(a, tuple) and a[0] == 'top':
            return a
        if (c[1] == '!=') == pol and c[1] in ('!=', '=='):
            if zero(a) and isinstance(b, tuple) and b[0] == 'top':
                return b
            if zero(b) and isinstance(a, tuple) and a[0] == 'top':
                return a
    return None


def zero(t):
    return norm.number(t) == 0 or lit0(t)


def is_zero(c, pol):
    """If a condition states that an unsigned value is zero: the value."""
    if isinstance(c, tuple) and c and c[0] == 'un' and c[1] == '!':
        return is_zero(c[2], not pol)
    if not (isinstance(c, tuple) and c and c[0] == 'bin'):
        return (c[1] if len(c) == 2 and c[0] in ('bool', 'cast', 'trunc') else c) if not pol else None
    a, b = c[2], c[3]
    one = (1, ('lit', 1), ('lit', '1'))
    if c[1] in ('==', '!='):
        if (c[1] == '==') == pol:
            return a if zero(b) else b if zero(a) else None
        return None
    if c[1] == '<':
        if pol:
            return a if b in one else None          # a < 1
        return b if zero(a) else None               # !(0 < b)
    if c[1] == '<=':
        if pol:
            return a if zero(b) else None           # a <= 0
        return b if a in one else None              # !(1 <= b)
    return None


def kernel(P, f):
    """The updates that are performed by a function: each is (kind, target, value, guards, ranges), see Kernel."""
    h = effects.effects(P, f, stop=STOP)
    sub, bounds = iterations(h)
    res = []
    for i, (l, t, fa, lo, n, g) in enumerate(h.stores):
        l, t = strip_epochs(l), strip_epochs(t)
        e = Kernel()
        e.h = h
        e.node = n
        l, t = subst(l, sub), subst(t, sub)
        direct = find_call(l) if l and l[0] == 'val' else None
        if direct is not None or effects.is_local(l):
            # a reference to an element that is returned by a function
            raw = direct if direct is not None else find_call(t)
            refs = [m[0] for m, k in norm._poly(canon(t)).items() if k == 1 and len(m) == 1 and has_stop(m[0])]
            if raw is None or not refs:
                continue
            e.target, e.tkind = raw, 'ref'
            e.self = refs[0]
        else:
            e.target, e.tkind = l, 'loc'
            e.self = None
        e.raw = t
        # variables of enclosing loops
        used = tops(e.target, tops(t, []))
        act = set(lo)
        e.facts = []
        e.ranges = {}
        for c, pol in fa:
            c = strip_epochs(c)
            v = down_bound(c, pol)
            if v in bounds and bounds[v][1] is None:
                if id(h.ind[v]['loop']) in act:
                    e.ranges[bounds[v][0]] = h.ind[bounds[v][0]]['top']
                continue
            w = down_bound(c, not pol)
            if w in bounds and bounds[w][1] is None:
                continue        # the exit condition of a previous loop
            b = bound(c, pol)
            if b is not None and b[0] in bounds and bounds[b[0]][1] is not None:
                if id(h.ind[b[0]]['loop']) in act:
                    e.ranges[bounds[b[0]][0]] = bounds[b[0]][1](subst(b[1], sub))
                    continue
            c = subst(c, sub)
            tt = tops(c, [])
            if tt and any(id(h.ind[x]['loop']) not in act for x in tt if x in h.ind) or \
                    not pol and tt and not any(x in used for x in tt) and bound(c, True) is not None:
                continue        # the exit condition of a previous loop
            b = bound(c, pol)
            if b is not None and b[0] in h.ind and h.ind[b[0]]['step'] is not None:
                e.ranges[b[0]] = b[1]
                continue
            e.facts.append((c, pol))
        e.used = used
        res.append(e)
    return h, res


def has_stop(c):
    if isinstance(c, tuple):
        if len(c) > 1 and c[0] == 'call' and str(c[1]).split('::')[-1] in STOP:
            return True
        return any(has_stop(x) for x in c)
    return False


def find_call(t):
    if isinstance(t, tuple):
        if t and t[0] == 'call' and str(t[1]).split('::')[-1] in STOP:
            return t
        for x in t:
            r = find_call(x)
            if r is not None:
                return r
    return None


def bound(c, pol):
    if isinstance(c, tuple) and c and c[0] == 'bin' and isinstance(c[2], tuple):
        if pol and c[1] in ('<', '!=') and c[2][0] == 'top':
            return c[2], c[3]
        if pol and c[1] in ('<', '!=') and isinstance(c[3], tuple) and c[3][0] == 'top' and c[1] == '!=':
            return c[3], c[2]
        if not pol and c[1] in ('<=', '==') and isinstance(c[3], tuple) and c[3][0] == 'top':
            return c[3], c[2]
        if not pol and c[1] == '==' and c[2][0] == 'top':
            return c[2], c[3]
        if pol and c[1] == '<=' and c[2][0] == 'top':
            return c[2], ('add', c[3], 1)
    return None


def delta(e):
    """('+', poly of what is added) or ('=', poly)."""
    c = norm._poly(canon(e.raw))
    if e.tkind == 'loc':
        me = ('val', place(e.target))
    else:
        me = e.self
    if c.get((me,)) == 1:
        d = dict(c)
        del d[(me,)]
        return '+', {m: k for m, k in d.items() if k}
    return '=', c


def params(f):
    """The roles of the parameters of a kernel."""
    r = {'partial': None, 'complete': None, 'weight': None, 'row': None, 'src': []}
    for i, p in enumerate(f['params']):
        t = p['t']
        if 'RowFromSubset' in f['n'] and i == 3:
            r['partial' if '*' in t else 'complete'] = p['n']
        elif 'PartialIndexVector' in t:
            r['partial'] = p['n']
        elif 'CompleteIndexVector' in t:
            r['complete'] = p['n']
        elif p['n'] == 'weight' or t in ('double', 'float') :
            r['weight'] = p['n']
        elif t in ('unsigned int', 'uint32'):
            r['row'] = p['n']
        else:
            r['src'].append(p['n'])
    return r


def is_param(t, name):
    return isinstance(t, tuple) and t and t[0] in ('p', 'param') and t[1] == name


def path_of(b):
    """The names of the fields by which an array is reached, e.g. ['firstView', 'array'], and the root."""
    names = []
    x = b
    while isinstance(x, tuple) and x:
        if x[0] == 'f':
            names.append(x[2])
            x = x[1]
        elif x[0] == 'val':
            x = x[1]
        elif x[0] in ('ptr',):
            x = x[1]
        elif x[0] == 'addr':
            x = x[1]
        elif x[0] == 'at':
            x = x[1]
        elif x[0] in ('loc', 'atom') and len(x) >= 2:
            x = x[1] if isinstance(x[1], tuple) else x
            if x[0] in ('loc',):
                break
        else:
            break
    return list(reversed(names)), x


def suffix(a, b):
    """Whether two access paths end with the same fields (the shorter one is a suffix of the longer one)."""
    a = [x for x in a if x not in ('view', 'view_')]
    b = [x for x in b if x not in ('view', 'view_')]
    n = min(len(a), len(b))
    return n > 0 and a[-n:] == b[-n:]


def describe(f):
    return '%s(%s)' % (f['pn'], ', '.join(p['n'] for p in f['params']))


def weight_guard(c, pol, w):
    """Whether a condition merely skips weights that are zero."""
    syms = set()

    def rec(t):
        if isinstance(t, tuple):
            if t and t[0] in ('p', 'param'):
                syms.add(t[1])
                return
            if t and t[0] in ('this', 'top', 'init') :
                if t[0] != 'init':
                    syms.add(t[0])
            for x in t:
                rec(x)
    rec(c)
    if syms != {w}:
        return False
    if not pol and c[0] == 'bin' and c[1] in ('<=', '=='):
        return True
    return pol and c[0] == 'bin' and c[1] == '!=' or pol and c[0] == 'bin' and c[1] == '<' and norm.number(c[2]) == 0


BOUND_FIELDS = ('numElements', 'numCols', 'numRows')


def full_bound(b, f):
    """Whether a loop runs over all elements: the bound is the size of a vector or row, or of the given indices."""
    c = canon(b)
    if c[0] == 'val' and c[1][0] == 'f' and c[1][2] in BOUND_FIELDS:
        return True
    if c[0] == 'atom' and isinstance(c[1], tuple):
        if c[1][0] == 'call' and re.search(r'(getNum|size$|operator-$|distance$)', str(c[1][1])):
            return True
        if c[1][0] == 'p' or c[1][0] == 'param':
            return True
    if c[0] == 'sum':
        # end - begin
        d = dict(c[1])
        ks = sorted(d.values())
        return len(d) == 2 and ks == [-1, 1] and () not in d
    return False


def check_ranges(rep, e, f, key, tri=None):
    for t in e.used:
        ind = e.h.ind.get(t)
        if ind is None:
            continue
        if ind['step'] is None:
            continue
        lo = ind['lo']
        n = norm.number(strip_epochs(lo)) if lo is not None else None
        if n is None and isinstance(lo, tuple) and lo and lo[0] == 'lit':
            n = lo[1]
        if n is None:
            continue                        # an iterator that runs alongside
        b = e.ranges.get(t)
        if b is None:
            rep.notes.append('%s: bound of a loop not recognised' % key)
            continue
        if tri is not None and t == tri[1]:
            rep.check(norm._poly(canon(b)) == norm._poly(canon(('add', tri[0], 1))), key + ' range',
                      '%s does not update all elements of the triangular matrix: second dimension ends at %s' %
                      (describe(f), shown(b)))
            continue
        if any(h2 in e.used and contains(b, h2) for h2 in e.h.ind if h2 != t):
            rep.check(False, key + ' range', '%s: bound %s of a loop depends on another loop' % (describe(f), shown(b)))
            continue
        rep.check(n == 0 and ind['step'] == 1 and full_bound(b, f), key + ' range',
                  '%s does not update all elements: runs from %s to %s in steps of %s' % (describe(f), n, shown(b),
                                                                                        ind['step']))


def offsets(pl):
    if pl[0] == 'f':
        inner = offsets(pl[1])
        return None if inner is None else (inner[0], inner[1], inner[2] + [pl[2]])
    if pl[0] == 'at':
        return pl[1], pl[2], []
    return None


def root_is(root, name):
    if isinstance(root, tuple) and len(root) == 2 and root[0] in ('atom', 'val', 'loc', 'init') and isinstance(root[1], tuple):
        return root_is(root[1], name)
    if isinstance(root, tuple) and len(root) > 2 and root[0] == 'loc' and root[1] in ('p', 'param'):
        return root[2] == name
    return is_param(root, name)


def index_of(atom_, r):
    """If a canonical value is an element of the given partial indices, the canonical form of its position."""
    if atom_[0] == 'val' and atom_[1][0] == 'at':
        _, root = path_of(atom_[1][1])
        if r['partial'] and root_is(root, r['partial']):
            return atom_[1][2]
    return None


def apply_sigma(c, r):
    """Canonical polynomial with all elements indices[x] replaced by x; (result, whether all variables were mapped)."""
    found, plain = [], []

    def rec(x):
        p = index_of(x, r) if isinstance(x, tuple) and x and isinstance(x[0], str) else None
        if p is not None:
            found.append(p)
            return p
        if isinstance(x, tuple) and x and x[0] == 'top':
            plain.append(x)
            return x
        if isinstance(x, tuple) and x and x[0] == 'sum':
            d = {}
            for m, k in x[1]:
                q = {(): k}
                for a in m:
                    q = mul(q, norm._poly(rec(a)))
                d = norm._merge(d, q)
            return norm._sum(d)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    res = rec(c)
    return res, bool(found), bool(plain)


def mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            r[m] = r.get(m, 0) + c1 * c2
    return r


def row_split(off, row):
    """Splits the offset of an element into the offset of the row and the offset within the row."""
    d = norm._poly(off)
    rows = {m: k for m, k in d.items() if any(contains(a, row) for a in m)}
    rest = {m: k for m, k in d.items() if m not in rows}
    return rows, rest


def good_row(rows, row):
    """numCols * row"""
    if len(rows) != 1:
        return False
    (m, k), = rows.items()
    if k != 1 or len(m) != 2:
        return False
    a = [x for x in m if x[0] == 'atom' and is_param(x[1], row)]
    b = [x for x in m if x[0] == 'val' and x[1][0] == 'f' and x[1][2] == 'numCols']
    return len(a) == 1 and len(b) == 1


def correspond(rep, key, f, e, r, X, partial_on, s_desc):
    """The source element corresponds to the target: same array, same member, same (mapped) position."""
    pt = place(e.target)
    ot = offsets(pt)
    px = X[1] if X[0] == 'val' else None
    os_ = offsets(px) if px is not None else None
    if ot is None or os_ is None:
        return None
    tb, toff, tf = ot
    sb, soff, sf = os_
    tn, troot = path_of(tb)
    sn, sroot = path_of(sb)
    if not sn and sb[0] == 'atom' and not (isinstance(sb[1], tuple) and sb[1][0] in ('p', 'param')):
        return None
    row = r['row']
    # sparse rows: both, the index and the value, are taken from the same entry
    if toff[0] == 'val' and toff[1][0] == 'f' and toff[1][2] == 'index':
        ent = toff[1][1]
        ok = sf[:1] == ['value'] and sf[1:] == tf and px_entry(px, len(sf)) == ent
        rep.check(ok, key + ' element', '%s adds %s to %s: not the value that belongs to the index' %
                  (describe(f), shown(strip(X)), shown(e.target)))
        return True
    rep.check(tf == [x for x in sf if x != 'value'], key + ' member',
              '%s updates member %s from %s' % (describe(f), '.'.join(tf), '.'.join(sf)))
    if sn and tn:
        rep.check(suffix(tn, sn), key + ' array', '%s updates %s from %s' % (describe(f), '.'.join(tn), '.'.join(sn)))
    trow, trest = row_split(toff, row) if row else ({}, norm._poly(toff))
    srow, srest = row_split(soff, row) if row else ({}, norm._poly(soff))
    if row:
        rows = [x for x in (trow, srow) if x]
        rep.check(len(rows) == 1 and good_row(rows[0], row), key + ' row',
                  '%s does not access the row %s: %s, %s' % (describe(f), row, shown(e.target), shown(strip(X))))
    a, b = norm._sum(trest), norm._sum(srest)
    if r['partial']:
        side = b if partial_on == 'src' else a
        other = a if partial_on == 'src' else b
        m, found, plain = apply_sigma(side, r)
        o2, found2, _ = apply_sigma(other, r)
        rep.check(found and not plain and not found2 and same(m, other), key + ' position',
                  '%s: %s does not correspond to %s via the given indices' % (describe(f), shown(e.target), shown(strip(X))))
    else:
        rep.check(same(a, b), key + ' position', '%s: %s does not correspond to %s' %
                  (describe(f), shown(e.target), shown(strip(X))))
    return True


def same(a, b):
    return norm._poly(a) == norm._poly(b) or canon_str(a) == canon_str(b)


def canon_str(a):
    return repr(a)


def px_entry(px, n):
    for _ in range(n):
        px = px[1]
    return px


def strip(X):
    return ('init', X[1]) if X[0] == 'val' else X


def one_monomial(d):
    if len(d) != 1:
        return None
    (m, k), = d.items()
    return m, k


def triangular(e, r):
    """Loop variables (outer, inner) of a triangular matrix: the offset has the form outer * (outer + 1) / 2 + inner."""
    ot = offsets(place(e.target)) if e.tkind == 'loc' else None
    if ot is None:
        return None
    d = norm._poly(ot[1])
    tri = [m for m in d if len(m) == 1 and m[0][0] == 'atom' and isinstance(m[0][1], tuple) and m[0][1][:2] == ('bin', '/')]
    lin = [m for m in d if len(m) == 1 and m[0][0] == 'atom' and isinstance(m[0][1], tuple) and m[0][1][0] == 'top']
    if len(tri) == 1 and len(lin) == 1:
        o = tops(tri[0], [])
        if len(o) == 1:
            return o[0], lin[0][0][1]
    return None


def linear_factor(m, k, r, sign):
    """The value that is added, if the monomial is sign * weight * value; None for a count; False otherwise."""
    if k != sign:
        return False
    fs = list(m)
    if r['weight']:
        ws = [x for x in fs if x[0] == 'atom' and is_param(x[1], r['weight'])]
        if len(ws) != 1:
            return False
        fs.remove(ws[0])
    if len(fs) > 1:
        return False
    return fs[0] if fs else None


def target_name(e):
    """What is updated, without indices."""
    if e.tkind == 'ref':
        return 'element'
    pl = place(e.target)
    fs = []
    x = pl
    while x[0] == 'f':
        fs.append(x[2])
        x = x[1]
    n, root = path_of(x[1] if x[0] == 'at' else x)
    return '.'.join([y for y in n if y not in ('view', 'view_')] + list(reversed(fs)))


def check_add(P, rep, f, sign):
    """add, remove, addToSubset, addToRowFromSubset, ...: returns the names of the updated members."""
    r = params(f)
    h, ks = kernel(P, f)
    rep.analysed(f)
    key0 = '%s:%s' % (f['pn'], ','.join(p['t'].split('::')[-1] for p in f['params']))
    names = set()
    for i, e in enumerate(ks):
        name = target_name(e)
        if e.tkind == 'loc' and not stat_target(e):
            continue
        key = '%s %s' % (key0, name)
        op, d = delta(e)
        mk = one_monomial(d)
        if not rep.check(op == '+' and mk is not None, key + ' linear',
                         '%s stores %s in %s, rather than adding to it' % (describe(f), shown(e.raw), shown(e.target))):
            continue
        names.add(name)
        X = linear_factor(mk[0], mk[1], r, sign)
        if not rep.check(X is not False, key + ' factor',
                         '%s stores %s in %s: not the old value %s %sthe given one' %
                         (describe(f), shown(e.raw), shown(e.target), 'plus' if sign > 0 else 'minus',
                          'weight times ' if r['weight'] else '')):
            continue
        tri = triangular(e, r)
        check_ranges(rep, e, f, key, tri)
        check_guards(rep, e, f, r, key)
        if e.tkind == 'ref':
            check_ref(P, rep, e, f, r, key, X)
            continue
        if X is None:
            continue
        partial_on = 'dst' if 'Row' in f['n'] else 'src'
        if correspond(rep, key, f, e, r, X, partial_on, '') is None:
            # sparse row that is accessed by index, or a scalar
            xs = tops(X, [])
            if not xs and X[0] == 'val':
                a, b = path_of(place(e.target)), path_of(X[1])
                rep.check(suffix(a[0], b[0]), key + ' member', '%s updates %s from %s' % (describe(f), '.'.join(a[0]),
                                                                                       '.'.join(b[0])))
                continue
            last = place(e.target)[2] if place(e.target)[0] == 'f' else None
            sl = X[1][2] if X[0] == 'val' and X[1][0] == 'f' else None
            rep.check(last == sl, key + ' member', '%s updates %s from %s' % (describe(f), last, sl))
            m, found, plain = apply_sigma(X, r)
            rep.check(bool(found) == bool(r['partial']) and not (r['partial'] and plain), key + ' position',
                      '%s: %s does not correspond to %s via the given indices' % (describe(f), shown(e.target), shown(X)))
    return names


def stat_target(e):
    """Stores to members of the object that hold statistics, as opposed to bookkeeping."""
    return True


def check_guards(rep, e, f, r, key):
    for c, pol in e.facts:
        if r['weight'] and weight_guard(c, pol, r['weight']):
            rep.ok('%s: skips weights that are zero' % key)
            continue
        if mentions_null(c):
            continue
        if 'overage' in shown(c) or 'majority' in shown(c).lower():
            continue
        tt = [x for x in tops(c, []) if x in e.used]
        rep.check(False, key + ' guard', '%s updates %s only if %s%s' % (describe(f), shown(e.target), '' if pol else 'not ',
                                                                     shown(c)))


def mentions_null(c):
    s = repr(c)
    return 'nullptr' in s or "'null'" in s


def check_ref(P, rep, e, f, r, key, X):
    """An element of a confusion matrix, or an element of a sparse row."""
    call = e.target
    name = str(call[1]).split('::')[-1]
    if name == 'emplace':
        args = call[3]
        if X is None or X[0] != 'val':
            rep.notes.append('%s: value not recognised' % key)
            return
        ox = offsets(X[1])
        ix = canon(args[0])
        if ox is None:
            rep.notes.append('%s: value not recognised' % key)
            return
        m, found, plain = apply_sigma(ix, r)
        ok = same(m, ox[1]) and bool(found) == bool(r['partial'])
        rep.check(ok, key + ' position', '%s adds element %s to the element with index %s' %
                  (describe(f), shown(strip(X)), shown(args[0])))
        if len(args) > 1:
            rep.check(norm.number(args[1]) == 0 or args[1] in (('lit', 0), ('lit', '0'), ('lit', 0.0)), key + ' initial',
                      '%s: elements that are not available in a row are initialised with %s' % (describe(f), shown(args[1])))
        return
    # getElement(trueLabel, majorityLabel) of this[i]
    if not rep.check(X is None, key + ' count', '%s adds %s' % (describe(f), shown(strip(X)) if X else '')):
        return
    obj = call[2]
    loc = obj[1] if obj and obj[0] in ('loc', 'addr') else None
    ot = offsets(place(loc)) if loc is not None else None
    if ot is None:
        rep.notes.append('%s: element not recognised' % key)
        return
    j = ot[1]
    truth_, maj = call[3][0], call[3][1]
    # coverage == 0 for the same output
    cov = [(c, pol) for c, pol in e.facts if 'overage' in shown(c)]
    ok = False
    for c, pol in cov:
        a = is_zero(c, pol)
        if isinstance(a, tuple) and a and a[0] == 'init':
            oc = offsets(place(a[1]))
            if oc is not None:
                rows, rest = row_split(oc[1], r['row'])
                m, found, plain = apply_sigma(norm._sum(rest), r)
                ok = good_row(rows, r['row']) and same(m, j) and bool(found) == bool(r['partial'])
    rep.check(ok and len(cov) == 1, key + ' coverage',
              '%s takes an output into account under the condition %s, rather than if it has not been covered yet' %
              (describe(f), [shown(c) if p else '!' + shown(c) for c, p in cov]))
    # the labels of the same output
    for what, t, src in (('true label', truth_, 'labelMatrix'), ('majority label', maj, 'majorityLabel')):
        check_label(rep, e, f, r, key, what, t, src, j)


def lit0(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == 'lit' and t[1] in (0, '0', 0.0)


def root_names(t, acc):
    if isinstance(t, tuple):
        if t and t[0] in ('p', 'param'):
            acc.add(t[1])
            return acc
        if len(t) > 2 and t[0] == 'loc' and t[1] in ('p', 'param'):
            acc.add(t[2])
            return acc
        for x in t:
            root_names(x, acc)
    return acc


def check_label(rep, e, f, r, key, what, t, src, j):
    h = e.h
    while isinstance(t, tuple) and t and t[0] in ('bool', 'cast', 'trunc') and len(t) == 2:
        t = t[1]
    roots = root_names(t, set())
    if isinstance(t, tuple) and t[0] == 'init' and t[1][0] == 'deref' and t[1][1][0] == 'top':
        top = t[1][1]
        ind = h.ind.get(top)
        if ind is None:
            its = {strip_epochs(args[0]) for fn, obj, args, fa, lo, n in h.calls if str(fn) == 'std::advance'}
            ind = next((h.ind[x] for x in its if x in h.ind), None) if len(its) == 1 else None
        roots = root_names(strip_epochs(ind['lo']) if ind and ind['lo'] else (), set())
        rep.check(roots and all(x.startswith(src) or x == r['row'] for x in roots), key + ' ' + what,
                  '%s: the %s is taken from %s' % (describe(f), what, sorted(roots)))
        if not r['partial']:
            rep.check(ind['step'] == 1, key + ' ' + what + ' position',
                      '%s: the %s does not belong to the same output' % (describe(f), what))
            return
        # moved forward by the difference of two consecutive indices
        adv = [(fn, args, fa) for fn, obj, args, fa, lo, n in h.calls if str(fn) == 'std::advance']
        for fn, args, fa in adv:
            d = norm._poly(canon(strip_epochs(args[1])))
            prev = [m[0][1] for m, k in d.items() if k == -1 and len(m) == 1 and m[0][0] == 'atom' and
                    isinstance(m[0][1], tuple) and m[0][1][0] == 'top']
            cur = [m[0] for m, k in d.items() if k == 1 and len(m) == 1 and index_of(m[0], r) is not None]
            ok = len(d) == 2 and len(prev) == 1 and len(cur) == 1 and same(index_of(cur[0], r), j)
            if ok:
                pi = h.ind.get(prev[0])
                lo = strip_epochs(pi['lo']) if pi and pi['lo'] is not None else None
                end = strip_epochs(pi.get('end')) if pi and pi.get('end') is not None else None
                alts = set(end[1]) if end is not None and end[0] == 'phi' else \
                    set(end[2:]) if end is not None and end[0] == 'cond' else {end}
                alts_c = {canon(strip_epochs(x)) for x in alts if x is not None}
                ok = (norm.number(lo) == 0 or lit0(lo)) and cur[0] in alts_c
                cond = any('overage' in shown(strip_epochs(c)) for c, _ in fa)
                ok = ok and (len(alts_c) > 1) == cond and alts_c <= {cur[0], ('atom', prev[0])}
            rep.check(ok, key + ' ' + what + ' position',
                      '%s: the iterator over the majority labels is advanced by %s' % (describe(f), shown(strip_epochs(args[1]))))
        rep.check(len(adv) == 1, key + ' ' + what + ' advance', '%s does not advance the iterator over the majority labels '
                  'once per output' % describe(f))
        return
    if not rep.check(roots and all(x.startswith(src) or x in (r['row'], r['partial']) for x in roots), key + ' ' + what,
                     '%s: the %s is %s (%s)' % (describe(f), what, shown(t), sorted(roots))):
        return
    if t[0] == 'init':
        o = offsets(place(t[1]))
        if o is not None:
            rows, rest = row_split(o[1], r['row'])
            m, found, plain = apply_sigma(norm._sum(rest), r)
            rep.check(good_row(rows, r['row']) and same(m, j) and bool(found) == bool(r['partial']), key + ' ' + what,
                      '%s: the %s is %s' % (describe(f), what, shown(t)))
        return
    # binary search for the index
    if r['partial']:
        found = []

        def rec(x):
            if isinstance(x, tuple) and x:
                if x[0] == 'init':
                    c = canon(x)
                    p = index_of(c, r)
                    if p is not None:
                        found.append(p)
                        return
                for y in x:
                    rec(y)
        rec(t)
        rep.check(found and all(same(p, j) for p in found), key + ' ' + what,
                  '%s: the %s is %s' % (describe(f), what, shown(t)))


def check_difference(P, rep, f):
    r = params(f)
    h, ks = kernel(P, f)
    rep.analysed(f)
    key0 = '%s:%s' % (f['pn'], ','.join(p['t'].split('::')[-1] for p in f['params']))
    names = set()
    ps = [p['n'] for p in f['params']]
    ind = [i for i, p in enumerate(f['params']) if 'IndexVector' in p['t']]
    first = set(ps[:ind[0]]) if ind else set(ps[:1])
    second = set(ps[ind[0] + 1:]) if ind else set(ps[1:])
    for e in ks:
        name = target_name(e)
        key = '%s %s' % (key0, name)
        op, d = delta(e)
        names.add(name)
        pos = [m[0] for m, k in d.items() if k == 1 and len(m) == 1]
        neg = [m[0] for m, k in d.items() if k == -1 and len(m) == 1]
        ok = op == '=' and len(d) == 2 and len(pos) == 1 and len(neg) == 1
        if ok:
            ok = bool(root_names(pos[0], set()) & first) and bool(root_names(neg[0], set()) & second)
        if not rep.check(ok, key + ' difference', '%s stores %s in %s, rather than the difference of the operands' %
                         (describe(f), shown(e.raw), shown(e.target))):
            continue
        tri = triangular(e, r)
        check_ranges(rep, e, f, key, tri)
        check_guards(rep, e, f, r, key)
        r1 = dict(r)
        if correspond(rep, key + ' first', f, e, r1, pos[0], 'src', '') is None:
            a, b = path_of(place(e.target)), path_of(pos[0][1] if pos[0][0] == 'val' else pos[0])
            rep.check(suffix(a[0], b[0]), key + ' member', '%s sets %s from %s' % (describe(f), a[0], b[0]))
        r2 = dict(r)
        r2['partial'] = None
        if correspond(rep, key + ' second', f, e, r2, neg[0], 'src', '') is None:
            a, b = path_of(place(e.target)), path_of(neg[0][1] if neg[0][0] == 'val' else neg[0])
            rep.check(suffix(a[0], b[0]), key + ' member', '%s sets %s from %s' % (describe(f), a[0], b[0]))
    return names


SIGNS = {'add': 1, 'remove': -1, 'addToSubset': 1, 'addToRowFromSubset': 1, 'removeFromRowFromSubset': -1}


def kernels(P, rep):
    classes = {}
    for f in P.fns.values():
        if f.get('tmpl') or not isinstance(f.get('body'), dict) or not f.get('cls') or f.get('ctor'):
            continue
        if f['n'] in SIGNS or f['n'] == 'difference':
            if re.search(r'(Statistic|ConfusionMatrix)Vector$|Numeric\w*Matrix', f['pcls'] if f.get('pcls') else f['cls']):
                classes.setdefault(f['cls'], []).append(f)
    n = 0
    for cls, fs in sorted(classes.items()):
        per = []
        for f in fs:
            ns = check_difference(P, rep, f) if f['n'] == 'difference' else check_add(P, rep, f, SIGNS[f['n']])
            per.append((f, ns))
            n += 1
        confusion = 'ConfusionMatrix' in cls
        full = set()
        for f, ns in per:
            full |= ns
        for f, ns in per:
            elementwise = {x for x in ns}
            if confusion:
                rep.check(bool(ns), '%s members' % describe(f), '%s does not update any elements' % describe(f))
                continue
            # members of the elements may be updated one by one or at once
            def norm_names(s):
                return {x[:-len(y)] if x.endswith(y) else x for x in s for y in ['']} if False else \
                    {re.sub(r'\.(first|second|third)$', '', x) for x in s}
            rep.check(norm_names(ns) == norm_names(full), '%s members' % (f['pn'] + str(f['l'])),
                      '%s (line %s of %s) updates %s, but other functions of the class update %s' %
                      (describe(f), f['l'], f['f'], sorted(ns), sorted(full)))
            for base in norm_names(ns):
                parts = {x for x in ns if x.startswith(base + '.') and re.search(r'\.(first|second|third)$', x)}
                if parts and base not in ns:
                    allp = {x for x in full if x.startswith(base + '.') and re.search(r'\.(first|second|third)$', x)}
                    rep.check(parts == allp, '%s parts' % (f['pn'] + str(f['l'])),
                              '%s updates only %s' % (describe(f), sorted(parts)))
    return n


# --------------------------------------------------------------------------------------------------- overloaded operators

def operators(P, rep):
    """+=, -=, *= and = act on each member in the same way; +, -, * delegate to them."""
    n = 0
    for f in P.fns.values():
        if f.get('tmpl') or not isinstance(f.get('body'), dict) or not f.get('cls'):
            continue
        m = re.match(r'operator([+\-*/]?)=$', f['n'])
        if not m or len(f['params']) != 1 or not re.search(r'(Tuple|Triple|ConfusionMatrix)(<|$)', f['cls'].split('::')[-1]):
            continue
        if f.get('copy') or f.get('move') or f.get('implicit'):
            continue
        op = m.group(1)
        rec = P.recs.get(f['cls']) or {}
        fields = [x['n'] for x in rec.get('fields', [])]
        h = effects.effects(P, f)
        same_cls = f['params'][0]['t'].replace('const ', '').rstrip(' &').split('<')[0].split('::')[-1] == \
            f['cls'].split('<')[0].split('::')[-1]
        if op == '' and same_cls:
            continue
        rep.analysed(f)
        n += 1
        done = set()
        for l, t, fa, lo, nd, g in h.stores:
            l, t = strip_epochs(l), strip_epochs(t)
            if effects.is_local(l) or l[0] != 'f':
                continue
            fld = l[2]
            old = canon(('init', l))
            key = '%s(%s) %s' % (f['pn'], f['params'][0]['t'], fld)
            c = norm._poly(canon(t))
            vals = [a for mm in c for a in mm if a != old]
            ok = len(vals) == 1
            if ok:
                a = vals[0]
                if same_cls:
                    ok = a[0] == 'val' and a[1][0] == 'f' and a[1][2] == fld and f['params'][0]['n'] in root_names(a, set())
                else:
                    ok = f['params'][0]['n'] in root_names(a, set())
                want = {'+': {(old,): 1, (a,): 1}, '-': {(old,): 1, (a,): -1},
                        '*': {tuple(sorted((old, a), key=repr)): 1}, '': {(a,): 1}}.get(op)
                if want is None:
                    continue
                ok = ok and c == want and not fa
            rep.check(ok, key, '%s stores %s in member %s' % (f['pn'], shown(t), fld))
            done.add(fld)
        rep.check(not fields or done == set(fields), '%s(%s) members' % (f['pn'], f['params'][0]['t']),
                  '%s updates the members %s rather than %s' % (f['pn'], sorted(done), fields))
    return n


# ------------------------------------------------------------------------------------------------- aggregating statistics

KERNELS = ('Vector::add', 'Vector::remove', 'Vector::addToSubset', 'Vector::difference', 'Vector::clear', 'Decorator::clear',
           '::increaseCoverage', '::decreaseCoverage', 'RowFromSubset')
WEIGHTS = ('WeightVector::operator[]', 'IndexableViewDecorator::operator[]')


def who(t):
    """The object that is denoted by a term, ignoring whether it is accessed by pointer or reference."""
    s = shown(strip_epochs(t)) if isinstance(t, tuple) else str(t)
    return s.lstrip('*&')


class Agg:
    def __init__(self, P, rep, f):
        self.P, self.f = P, f
        self.h = effects.effects(P, f, stop=KERNELS + WEIGHTS)
        rep.analysed(f)
        self.kernels = []
        for i, (fn, obj, args, fa, lo, n) in enumerate(self.h.calls):
            name = str(fn).split('::')[-1]
            if any(str(fn).endswith(k) for k in KERNELS) and obj is not None and \
                    (name != 'add' or re.search(r'(Statistic|ConfusionMatrix)Vector::', str(fn))):
                self.kernels.append((name, who(obj), [strip_epochs(a) for a in args],
                                     [(strip_epochs(c), p) for c, p in fa], n, i, lo))


def equal_weights(cls):
    return bool(re.search(r'(?<!OutOfSampleWeightVector<)EqualWeightVector', cls))


def kernel_roles(P, n, args):
    """The arguments of a call to a kernel by role."""
    t = P.fns.get(n.get('fid'))
    if t is None:
        return None
    r = params(t)
    names = [p['n'] for p in t['params']]
    return {k: args[names.index(r[k])] if r[k] in names else None for k in ('row', 'weight', 'partial', 'complete')}


def check_kernel_call(rep, A, key, k, idx, want_indices):
    """The kernel is called for the given statistic and with the weight that corresponds to it."""
    name, obj, args, fa, n, _, lo = k
    f = A.f
    r = kernel_roles(A.P, n, args)
    if r is None:
        rep.notes.append('%s: %s is not known' % (key, name))
        return
    rep.check(r['row'] is not None and (r['row'] == idx), key + ' row', '%s calls %s for row %s rather than %s' %
              (describe(f), name, shown(r['row']) if r['row'] else None, shown(idx)))
    eq = equal_weights(f['cls'])
    w = r['weight']
    if w is None:
        rep.check(eq, key + ' weight', '%s calls %s without a weight although the weights may differ' % (describe(f), name))
    elif eq:
        rep.check(norm.number(w) == 1 or isinstance(w, tuple) and w[0] == 'lit' and w[1] in (1, '1', 1.0), key + ' weight',
                  '%s calls %s with weight %s' % (describe(f), name, shown(w)))
    else:
        rep.check(is_weight(w, idx), key + ' weight', '%s calls %s with weight %s rather than the weight of statistic %s' %
                  (describe(f), name, shown(w), shown(idx)))
    if want_indices:
        ix = r['partial'] or r['complete']
        rep.check(ix is not None and re.match(r'this\.\w*[iI]ndices\w*$', who(ix)) is not None, key + ' indices',
                  '%s calls %s with indices %s' % (describe(f), name, shown(ix) if ix else None))


def is_weight(w, idx):
    """An element of the weights at the given position, without any arithmetic."""
    t = w
    while isinstance(t, tuple) and t[0] in ('cast', 'bool', 'trunc') and len(t) == 2:
        t = t[1]
    if t[0] == 'init' and t[1][0] == 'idx':
        return 'weight' in shown(t[1][1]).lower() and t[1][2] == idx
    if t[0] == 'call' and str(t[1]).split('::')[-1] == 'operator[]':
        return 'weight' in (shown(t[2]) if t[2] else '').lower() and list(t[3]) == [idx]
    # a weight that is stored as a bit or computed from another one
    s = shown(t)
    return t[0] not in ('bin', 'add', 'lit', 'int', 'const') and 'weight' in s.lower() and contains(t, idx)


def weight_term(t, idx):
    s = shown(t)
    return 'weight' in s.lower() and contains(t, idx)


def param_term(f, i):
    p = f['params'][i]
    return p['n']


def method(P, cls, name, depth=0):
    """The definition of a method of a class or the closest base class."""
    for f in P.by_cls.get(cls, ()):
        if f['n'] == name and isinstance(f.get('body'), dict) and not f.get('tmpl'):
            return f
    if depth > 6:
        return None
    for b in P.bases_of(cls):
        r = method(P, b, name, depth + 1)
        if r is not None:
            return r
    return None


def idx_arg(A, i=0):
    """The term that denotes a parameter in the effects of a function."""
    p = A.f['params'][i]
    for fn, obj, args, fa, lo, n in A.h.calls:
        for a in args:
            a = strip_epochs(a)
            if isinstance(a, tuple) and a[0] in ('p', 'param') and a[1] == p['n']:
                return a
    return ('p', p['n'])


def subset_class(P, rep, cls):
    """A class that sums up the statistics of the examples it has been given."""
    short = '::'.join(x.split('<')[0] for x in re.sub(r'<.*>', '', cls).split('::'))
    fs = {n: method(P, cls, n) for n in ('addToSubset', 'hasNonZeroWeight', 'calculateScores', 'resetSubset',
                                         'calculateScoresAccumulated', 'calculateScoresUncovered',
                                         'calculateScoresUncoveredAccumulated')}
    add_ = fs['addToSubset']
    if add_ is None:
        return 0
    key = cls
    A = Agg(P, rep, add_)
    idx = idx_arg(A)
    ks = [k for k in A.kernels]
    if not rep.check(len(ks) == 1 and ks[0][0] == 'addToSubset' and not ks[0][3], '%s addToSubset' % key,
                     '%s performs the updates %s' % (describe(add_), [(k[0], k[1]) for k in ks])):
        return 0
    total = ks[0][1]
    check_kernel_call(rep, A, '%s addToSubset' % key, ks[0], idx, True)
    # weights
    f = fs['hasNonZeroWeight']
    if f is not None:
        A = Agg(P, rep, f)
        idx = idx_arg(A)
        for t, fa, lo in A.h.rets:
            t = strip_epochs(t)
            if equal_weights(f['cls']):
                rep.check(t in (('lit', True), ('lit', 'true'), ('int', 1), ('lit', 1)), key + ' non-zero weight',
                          '%s returns %s' % (describe(f), shown(t)))
            elif t[0] in ('bin',) or weight_term(t, idx):
                rep.check(weight_term(t, idx) and not (t[0] == 'bin' and t[1] == '=='), key + ' non-zero weight',
                          '%s returns %s' % (describe(f), shown(t)))
    f = fs['calculateScores']
    if f is not None:
        scores(P, rep, f, key, total, None, None)
    f = fs['resetSubset']
    acc = None
    if f is not None:
        A = Agg(P, rep, f)
        st = [(strip_epochs(l), strip_epochs(t), [(strip_epochs(c), p) for c, p in fa]) for l, t, fa, lo, n, g in A.h.stores
              if not effects.is_local(l)]
        st = [x for x in st if 'make_unique' in shown(x[1]) or 'obj<' in shown(x[1])]
        adds = [k for k in A.kernels if k[0] == 'add']
        clears = [k for k in A.kernels if k[0] == 'clear']
        ok = len(st) == 1 and len(adds) == 1 and len(clears) >= 1
        if rep.check(ok, key + ' reset', '%s does not accumulate the statistics: %s, %s, %s' %
                     (describe(f), [shown(x[0]) for x in st], [k[:2] for k in adds], [k[:2] for k in clears])):
            acc = shown(st[0][0])
            src = re.findall(r'\((.*)\)', shown(st[0][1])) or ['']
            mk = [who(a) for fn, obj, args, fa, lo, n in A.h.calls if str(fn).endswith('make_unique') for a in args]
            rep.check(mk == [total], key + ' reset copy', '%s initialises the accumulated statistics from %s rather than %s' %
                      (describe(f), mk, total))
            rep.check(adds[0][1] == acc and total in who(adds[0][2][0]), key + ' reset add',
                      '%s adds %s to %s' % (describe(f), shown(adds[0][2][0]), adds[0][1]))
            # either a copy is created, or the statistics are added, and they are cleared in any case
            c1, c2 = norm.conj(st[0][2]), norm.conj(adds[0][3])
            ats = norm.atoms(c1) + norm.atoms(c2)
            excl = True
            for bits in range(1 << len(set(map(repr, ats)))):
                uniq = []
                for a in ats:
                    if a not in uniq:
                        uniq.append(a)
                env = {a: bool(bits >> i & 1) for i, a in enumerate(uniq)}
                excl = excl and norm.evaluate(c1, env) != norm.evaluate(c2, env)
            rep.check(excl, key + ' reset exclusive', '%s may not accumulate the statistics exactly once' % describe(f))
            cl = clears[-1]
            rep.check(cl[1] == total and not cl[3] and cl[5] > adds[0][5], key + ' reset clear',
                      '%s does not clear %s after it has been accumulated' % (describe(f), total))
    if acc is not None:
        for n, vec, diff in (('calculateScoresAccumulated', acc, False), ('calculateScoresUncovered', total, True),
                             ('calculateScoresUncoveredAccumulated', acc, True)):
            if fs[n] is not None:
                scores(P, rep, fs[n], key, vec, total if diff else None, diff)
    return 1


def scores(P, rep, f, key, vec, total, diff):
    A = Agg(P, rep, f)
    cs = [(i, [strip_epochs(a) for a in args]) for i, (fn, obj, args, fa, lo, n) in enumerate(A.h.calls)
          if str(fn).endswith('::calculateScores')]
    k2 = '%s %s' % (key, f['n'])
    if not rep.check(len(cs) == 1, k2, '%s calculates scores %s times' % (describe(f), len(cs))):
        return
    i, args = cs[0]
    target = who(args[-1])
    if not diff:
        rep.check(target == vec, k2 + ' operand', '%s calculates scores based on %s rather than %s' %
                  (describe(f), target, vec))
        return
    ds = [k for k in A.kernels if k[0] == 'difference']
    if not rep.check(len(ds) == 1 and ds[0][1] == target and ds[0][5] < i and not ds[0][3], k2 + ' difference',
                     '%s calculates scores based on %s, which is not the difference of the total and covered statistics' %
                     (describe(f), target)):
        return
    a = ds[0][2]
    ix = [j for j, x in enumerate(a) if re.match(r'this\.\w*[iI]ndices\w*$', who(x))]
    if not rep.check(len(ix) == 1, k2 + ' indices', '%s: indices %s' % (describe(f), [shown(x) for x in a])):
        return
    first, second = [who(x) for x in a[:ix[0]]], [who(x) for x in a[ix[0] + 1:]]
    def root(x):
        m = re.match(r'\(?[&*]*(this\.\w+)', x)
        return m.group(1) if m else x
    rep.check({root(x) for x in second} == {root(vec)}, k2 + ' subtrahend',
              '%s subtracts %s rather than %s' % (describe(f), second, vec))
    fr = {root(x) for x in first}
    rep.check(len(fr) == 1 and not fr & {root(vec), root(target), root(total)}, k2 + ' minuend',
              '%s subtracts from %s' % (describe(f), first))
    rep.coverage.setdefault('minuends', {}).setdefault(next(iter(fr)), 0)
    A.minuend = next(iter(fr))


def minuend_of(P, rep, cls):
    f = method(P, cls, 'calculateScoresUncovered')
    if f is None:
        return None
    A = Agg(P, rep, f)
    for k in A.kernels:
        if k[0] == 'difference':
            m = re.match(r'\(?[&*]*(this\.\w+)', who(k[2][0]))
            return m.group(1) if m else None
    return None


def subset_ctor(P, rep, f):
    """Excluded statistics are removed from the totals."""
    ex = [p['n'] for p in f['params'] if 'BinaryDokVector' in p['t']]
    if len(ex) != 1:
        return 0
    A = Agg(P, rep, f)
    key = f['cls'] + ' ctor'
    m = minuend_of(P, rep, f['cls'])
    rem = [k for k in A.kernels if k[0] in ('remove', 'add', 'addToSubset', 'difference', 'clear')]
    if not rep.check(len(rem) == 1 and rem[0][0] == 'remove', key, '%s does not remove the excluded statistics from the totals: '
                     '%s' % (describe(f), [k[:2] for k in rem])):
        return 0
    k = rem[0]
    r = kernel_roles(P, k[4], k[2])
    if r is None:
        return 0
    check_kernel_call(rep, A, key + ' remove', k, r['row'], False)
    tt = tops(r['row'], [])
    ok = False
    for t in tt:
        ind = A.h.ind.get(t)
        if ind and ind['lo'] is not None and ind['step'] == 1:
            ok = ex[0] in who(ind['lo'])
    rep.check(ok or 'excluded' in shown(r['row']), key + ' rows', '%s removes the statistics %s' %
              (describe(f), shown(r['row'])))
    for c, p in k[3]:
        s = shown(c)
        rep.check(ex[0] in s, key + ' guard', '%s removes excluded statistics only if %s%s' % (describe(f), '' if p else 'not ', s))
    # a copy is modified and used from then on
    st = [(shown(strip_epochs(l)), shown(strip_epochs(t)), [(strip_epochs(c), p) for c, p in fa]) for l, t, fa, lo, n, g in
          A.h.stores if not effects.is_local(l)]
    rep.check('make_unique' in k[1] or 'obj<' in k[1], key + ' copy', '%s modifies %s' % (describe(f), k[1]))
    rep.check(any(l == m and t.lstrip('&').startswith('this.') and 'opy' not in l for l, t, fa in st if fa), key + ' use',
              '%s does not use the totals without the excluded statistics in the following: %s' %
              (describe(f), [x[:2] for x in st]))
    src = [who(a) for fn, obj, args, fa, lo, n in A.h.calls if str(fn).endswith('make_unique') for a in args]
    rep.check(len(src) == 1 and src[0].split('.')[-1] == (m or '').split('.')[-1], key + ' source', '%s copies %s rather than %s' % (describe(f), src, m))
    return 1


def weighted_class(P, rep, cls):
    """A class that maintains the totals of weighted statistics."""
    key = cls
    n = 0
    totals = {}
    for name, kern in (('addCoveredStatistic', 'add'), ('removeCoveredStatistic', 'remove'), ('resetCoveredStatistics',
                                                                                             'clear')):
        f = next((g for g in P.by_cls.get(cls, ()) if g['n'] == name and isinstance(g.get('body'), dict)), None)
        if f is None:
            continue
        A = Agg(P, rep, f)
        n += 1
        ks = A.kernels
        if not rep.check(len({k[5] for k in ks}) >= 1 and ks[0][0] == kern and not ks[0][3] and
                         all(k[0] == kern for k in ks), key + ' ' + name,
                         '%s performs the updates %s' % (describe(f), [(k[0], k[1]) for k in ks])):
            continue
        totals[name] = ks[0][1]
        if kern != 'clear':
            check_kernel_call(rep, A, key + ' ' + name, ks[0], idx_arg(A), False)
    rep.check(len(set(totals.values())) <= 1, key + ' totals', '%s: different sums are updated by %s' % (cls, totals))
    for f in P.by_cls.get(cls, ()):
        if not f.get('ctor') or f.get('copy') or f.get('move') or not isinstance(f.get('body'), dict):
            continue
        A = Agg(P, rep, f)
        adds = [k for k in A.kernels if k[0] == 'add']
        if not rep.check(len(adds) >= 1, key + ' ctor', '%s does not sum up the statistics' % describe(f)):
            continue
        for k in adds:
            r = kernel_roles(P, k[4], k[2])
            if r is None:
                continue
            check_kernel_call(rep, A, key + ' ctor', k, r['row'], False)
            loop_all(rep, A, k, r, key + ' ctor')
        n += 1
        vecs = [[strip_epochs(a) for a in args] for fn, obj, args, fa, lo, nn in A.h.calls if
                str(fn).endswith('make_unique') and len(args) == 2]
    return n


def loop_all(rep, A, k, r, key):
    f = A.f
    t = r['row']
    ind = A.h.ind.get(t) if isinstance(t, tuple) else None
    if ind is None:
        rep.check(False, key + ' loop', '%s adds the statistics %s' % (describe(f), shown(t) if t else None))
        return
    lo = norm.number(strip_epochs(ind['lo'])) if ind['lo'] is not None else None
    if lo is None and isinstance(ind['lo'], tuple) and ind['lo'][0] == 'lit':
        lo = ind['lo'][1]
    b = None
    rest = []
    for c, p in k[3]:
        bb = bound(c, p)
        if bb is not None and bb[0] == t:
            b = bb[1]
        elif p is False and bound(c, True) is not None:
            continue
        else:
            rest.append((c, p))
    s = shown(b) if b is not None else ''
    ok = lo in (0, '0') and ind['step'] == 1 and b is not None and \
        (re.search(r'(getNum\w+\(\)|numElements\w*|numRows)$', s) is not None)
    rep.check(ok, key + ' loop', '%s does not take all statistics into account: from %s to %s' % (describe(f), lo, s))
    for c, p in rest:
        w = shown(c)
        rep.check('weight' in w.lower(), key + ' guard', '%s adds statistics only if %s%s' % (describe(f), '' if p else 'not ', w))


def statistics_subset_ctor(P, rep, f):
    A = Agg(P, rep, f)
    adds = [k for k in A.kernels if k[0] == 'add']
    for k in adds:
        r = kernel_roles(P, k[4], k[2])
        if r is not None:
            check_kernel_call(rep, A, f['cls'] + ' ctor', k, r['row'], False)
            loop_all(rep, A, k, r, f['cls'] + ' ctor')


def update_class(P, rep, cls):
    """Applying a prediction and reverting it are inverse."""
    n = 0
    for name, kern in (('applyPrediction', ('addToRowFromSubset', 'increaseCoverage')),
                       ('revertPrediction', ('removeFromRowFromSubset', 'decreaseCoverage'))):
        f = next((g for g in P.by_cls.get(cls, ()) if g['n'] == name and isinstance(g.get('body'), dict)), None)
        if f is None:
            continue
        n += 1
        A = Agg(P, rep, f)
        idx = idx_arg(A)
        key = '%s %s' % (cls, name)
        ks = A.kernels
        if not rep.check(len(ks) == 1 and ks[0][0] in kern and not ks[0][3], key, '%s performs the updates %s' %
                         (describe(f), [k[:2] for k in ks])):
            continue
        k = ks[0]
        rep.check(k[2][0] == idx, key + ' row', '%s updates row %s' % (describe(f), shown(k[2][0])))
        want = ['values_cbegin', 'values_cend', 'indices_cbegin', 'indices_cend']
        got = k[2][-4:]
        srcs = [x for x in got if x[0] != 'obj']
        roots = {re.search(r'this\.\w+', shown(x)).group(0) if re.search(r'this\.\w+', shown(x)) else '?' for x in srcs}
        rep.check(len(roots) == 1 and '?' not in roots, key + ' operand', '%s updates a row by %s' %
                  (describe(f), [shown(x) for x in srcs]))
        check_order(rep, A, k, key, want)
        ups = [(i, [strip_epochs(a) for a in args]) for i, (fn, obj, args, fa, lo, nn) in enumerate(A.h.calls)
               if str(fn).endswith('::updateStatistics') and not fa]
        if k[0].endswith('RowFromSubset'):
            rep.check(len(ups) == 1 and ups[0][0] > k[5] and ups[0][1][0] == idx, key + ' statistics',
                      '%s does not update the statistics of the example after its scores have been changed' % describe(f))
    return n


def check_order(rep, A, k, key, want):
    n = k[4]
    names = []
    for a in n['args'][-4:]:
        x = a
        while isinstance(x, dict) and x.get('k') == 'cast':
            x = x['e']
        names.append(str(x.get('fn', '')).split('::')[-1] if isinstance(x, dict) and x.get('k') == 'call' else None)
    if None in names:
        return
    rep.check([x.replace('_begin', '_cbegin').replace('_end', '_cend') for x in names] == want, key + ' order',
              '%s passes %s to %s' % (describe(A.f), names, k[0]))


def loss_updates(P, rep):
    """The statistics of an example are recalculated from its own scores and ground truth."""
    n = 0
    for f in P.fns.values():
        if f.get('tmpl') or f['n'] != 'updateStatistics' or not isinstance(f.get('body'), dict) or not f.get('cls'):
            continue
        h = effects.effects(P, f)
        rep.analysed(f)
        cs = [(fn, [strip_epochs(a) for a in args], fa) for fn, obj, args, fa, lo, nn in h.calls
              if re.search(r'::update\w*Statistics$', str(fn)) and str(fn) != f['pn']]
        key = f['cls'] + ' updateStatistics ' + f['params'][1]['t']
        if not cs:
            rep.notes.append('%s: no call to a loss function' % key)
            continue
        n += 1
        fn, args, fa = cs[-1]
        rep.check(not fa and is_param(args[0], f['params'][0]['n']), key, '%s updates the statistics of example %s' %
                  (describe(f), shown(args[0])))
    return n


def coverage_matrix(P, rep):
    """The numbers of rules that cover an output, and the sum of the weights of uncovered outputs."""
    n = 0
    for f in P.fns.values():
        if f.get('tmpl') or f['n'] not in ('increaseCoverage', 'decreaseCoverage') or not isinstance(f.get('body'), dict):
            continue
        sgn = 1 if f['n'] == 'increaseCoverage' else -1
        n += 1
        r = params(f)
        inds = [p['n'] for p in f['params']][-2:]
        r['partial'] = inds[0] if '*' in f['params'][-1]['t'] else None
        h, ks = kernel(P, f)
        rep.analysed(f)
        key = '%s:%s' % (f['pn'], 'partial' if r['partial'] else 'complete')
        el = [e for e in ks if e.target[0] == 'idx']
        sc = [e for e in ks if e.target[0] == 'f']
        if not rep.check(len(el) == 1 and len(sc) == 1, key + ' updates', '%s updates %s' %
                         (describe(f), [shown(e.target) for e in ks])):
            continue
        for e, s in ((el[0], sgn), (sc[0], -sgn)):
            op, d = delta(e)
            rep.check(op == '+' and d == {(): s}, key + ' step', '%s stores %s in %s' % (describe(f), shown(e.raw),
                                                                                       shown(e.target)))
        e, u = el[0], sc[0]
        check_ranges(rep, e, f, key)
        ot = offsets(place(e.target))
        rows, rest = row_split(ot[1], f['params'][0]['n'])
        j, found, plain = apply_sigma(norm._sum(rest), r)
        rep.check(good_row(rows, f['params'][0]['n']) and bool(found) == bool(r['partial']), key + ' element',
                  '%s updates %s' % (describe(f), shown(e.target)))
        # the predicted label differs from the majority label
        ps = [p['n'] for p in f['params']]
        pred = [c for c, p in e.facts if c[0] == 'bin' and c[1] in ('!=', '==') and
                (c[1] == '!=') == p and any(x.startswith('pred') for x in root_names(c, set()))]
        if rep.check(len(pred) == 1 and len(e.facts) == 1, key + ' condition', '%s updates an element if %s' %
                     (describe(f), [shown(c) if p else '!' + shown(c) for c, p in e.facts])):
            sides = [pred[0][2], pred[0][3]]
            sides.sort(key=lambda x: 0 if any(y.startswith('pred') for y in root_names(x, set())) else 1)
            pv = sides[0]
            while pv[0] in ('bool', 'cast', 'trunc') and len(pv) == 2:
                pv = pv[1]
            o = offsets(place(pv[1])) if pv[0] == 'init' else None
            if o is not None:
                rep.check(same(o[1], j), key + ' prediction', '%s compares %s to the majority label of element %s' %
                          (describe(f), shown(pv), shown(e.target)))
            r2 = dict(r)
            r2['row'] = f['params'][0]['n']
            check_label(rep, e, f, r2, key, 'majority label', sides[1], 'majority', j)
        # the sum of uncovered weights changes if the number of rules becomes or has been zero
        zeros = [(c, p) for c, p in u.facts if (c, p) not in e.facts]
        ok = len(zeros) == 1
        if ok:
            c, p = zeros[0]
            a = is_zero(c, p)
            if a is None and sgn > 0:
                ok = False
            else:
                want = norm._merge({(('val', place(e.target)),): 1}, {(): -1}) if sgn < 0 else {(('val', place(e.target)),): 1}
                ok = a is not None and same_place(norm._poly(canon(a)), want)
                if not ok and sgn < 0:
                    # old value == 1
                    x = {(('val', place(e.target)),): 1}
                    if c[0] == 'bin' and (c[1] == '==') == p and c[1] in ('==', '!='):
                        u1, u2 = (c[2], c[3]) if norm.number(c[3]) is not None or c[3][0] == 'lit' else (c[3], c[2])
                        ok = u2 in (('lit', 1), ('lit', '1')) and norm._poly(canon(u1)) == x
        rep.check(ok, key + ' uncovered', '%s changes the sum of uncovered weights if %s' %
                  (describe(f), [shown(c) if p else '!' + shown(c) for c, p in zeros]))
    return n


def same_place(a, b):
    return a == b


def element_counts(P, rep):
    """Sums over all outputs consist of one element per output and are initially zero."""
    n = 0
    for f in P.fns.values():
        if f.get('tmpl') or not isinstance(f.get('body'), dict) or not re.search(r'/statistics/', f['f']):
            continue
        if not mentions_vector(f):
            continue
        h = effects.effects(P, f, stop=KERNELS, max_depth=2)
        for fn, obj, args, fa, lo, nn in h.calls:
            mk = nn.get('mk') if isinstance(nn, dict) else None
            if str(fn).endswith('make_unique') and len(args) == 2 and mk and \
                    re.search(r'(Statistic|ConfusionMatrix)Vector$', str(mk.get('pcls') or mk.get('cls'))) and \
                    list(mk.get('pt', ()))[1:] == ['bool']:
                n += 1
                s = shown(strip_epochs(args[0]))
                rep.analysed(f)
                rep.check(re.search(r'([cC]ols|[oO]utputs|[lL]abels|indices_?\.getNumElements\(\)|numElements)(\(\))?$', s) is not None, '%s:%s size' % (f['pn'], f.get('cls')),
                          '%s creates a sum with %s elements' % (describe(f), s))
                rep.check(args[1] in (('lit', True), ('lit', 'true')), '%s:%s init' % (f['pn'], f.get('cls')),
                          '%s does not initialise a sum to be zero' % describe(f))
    return n


def mentions_vector(f):
    return 'make_unique' in repr(f.get('body')) or 'make_unique' in repr(f.get('inits'))


def aggregates(P, rep):
    n = 0
    classes = sorted({f['cls'] for f in P.fns.values() if f.get('cls') and not f.get('tmpl') and
                      isinstance(f.get('body'), dict) and re.search(r'(Statistic|Update)', f['cls'])})
    k = {'subsets': 0, 'subset ctors': 0, 'weighted': 0, 'updates': 0}
    for cls in classes:
        short = re.sub(r'<.*', '', cls.split('>::')[-1] if '>::' in cls else cls).split('::')[-1]
        if not ('boosting::' in cls or 'seco::' in cls):
            continue
        if short.endswith('Subset') and not short.startswith('I'):
            if any(f['n'] in ('resetSubset', 'addToSubset') for f in P.by_cls.get(cls, ())):
                k['subsets'] += subset_class(P, rep, cls)
            for f in P.by_cls.get(cls, ()):
                if f.get('ctor') and not f.get('copy') and not f.get('move') and isinstance(f.get('body'), dict):
                    k['subset ctors'] += subset_ctor(P, rep, f)
                    if not any('BinaryDokVector' in p['t'] for p in f['params']):
                        statistics_subset_ctor(P, rep, f)
        elif short == 'Update':
            k['updates'] += update_class(P, rep, cls)
        elif any(f['n'] == 'addCoveredStatistic' for f in P.by_cls.get(cls, ())):
            k['weighted'] += weighted_class(P, rep, cls)
    rep.coverage.update(k)
    rep.coverage['loss updates'] = loss_updates(P, rep)
    rep.coverage['coverage matrices'] = coverage_matrix(P, rep)
    rep.coverage['sums created'] = element_counts(P, rep)


def weights_and_totals(P, rep):
    """How weights and sums are read."""
    for f in P.fns.values():
        if f.get('tmpl') or not isinstance(f.get('body'), dict):
            continue
        pn = f['pn']
        if pn == 'boosting::SparseDecomposableStatisticVector::ConstIterator::operator[]' or \
                pn == 'boosting::SparseDecomposableStatisticVector::ConstIterator::operator*' and not f['params']:
            rep.analysed(f)
            h = effects.effects(P, f)
            key = pn + ' value'
            vals = [strip_epochs(t) for t, _, _ in h.rets]
            if len(vals) != 1 or not (isinstance(vals[0], tuple) and vals[0][0] == 'obj' and len(vals[0]) >= 4):
                rep.notes.append('%s: not understood' % describe(f))
                continue
            a, b = vals[0][-2], vals[0][-1]
            pa, pb = norm._poly(canon(a)), norm._poly(canon(b))
            rd = {}
            for src, p in (('gradient', pa), ('hessian', pb)):
                rd[src] = sorted((last_field(m), k, whole(m)) for m, k in p.items() if k)
            el = rd['gradient'][0][2] if len(rd['gradient']) == 1 else None
            rep.check([x[:2] for x in rd['gradient']] == [('first', 1)], key + ' gradient',
                      '%s returns the gradient %s' % (describe(f), shown(a)))
            rep.check([x[:2] for x in rd['hessian']] == [('second', 1), ('sumOfWeights_', 1), ('third', -1)] and
                      all(x[2] == el for x in rd['hessian'] if x[0] != 'sumOfWeights_'), key + ' hessian',
                      '%s returns the Hessian %s: examples without an entry for an output have the Hessian 1' %
                      (describe(f), shown(b)))
            off = index_in(el)
            want = {} if pn.endswith('*') else None
            if el is not None and off is not None:
                if want is None:
                    rep.check(len(off) == 1 and list(off.values()) == [1] and
                              is_param(list(off)[0][0][1], f['params'][0]['n']), key + ' index',
                              '%s reads a different element' % describe(f))
                else:
                    rep.check(off == {}, key + ' index', '%s reads a different element' % describe(f))
        elif pn == 'boosting::SparseDecomposableStatisticVector::clear':
            rep.analysed(f)
            h = effects.effects(P, f)
            w = [shown(t) for l, t, fa, lo, _, g in h.stores if shown(l) == 'this.sumOfWeights_' and not fa]
            rep.check(w in (['0'], ['0.0']), pn + ' sum', '%s does not reset the sum of weights' % describe(f))
            z = [c for c in h.calls if str(c[0]).endswith('::clear') and not c[3]]
            rep.check(bool(z), pn + ' elements', '%s does not reset the elements' % describe(f))
        elif pn == 'OutOfSampleWeightVector::operator[]':
            rep.analysed(f)
            h = effects.effects(P, f)
            reads = [c for c in h.calls if str(c[0]).endswith('operator[]') and c[1] is not None and
                     shown(c[1]).replace('&', '') == 'this.vector_' and len(c[2]) == 1]
            rep.check(bool(reads) and all(is_param(strip_epochs(c[2][0]), f['params'][0]['n']) for c in reads), f['cls'] + ' element',
                      '%s does not read the given element of the wrapped vector' % describe(f))
            vals = [strip_epochs(t) for t, _, _ in h.rets]
            if 'Equal' in f['cls']:
                ok = [shown(v) for v in vals] in (['false'], ['0'])
            else:
                ok = len(vals) == 1 and zero_test(vals[0])
            rep.check(ok, f['cls'] + ' weight', '%s is not true exactly for the elements with zero weight: %s' %
                      (describe(f), [shown(v) for v in vals]))
        elif pn == 'EqualWeightVector::operator[]':
            rep.analysed(f)
            h = effects.effects(P, f)
            rep.check([shown(t) for t, _, _ in h.rets] == ['1'], pn, '%s is not 1' % describe(f))


def zero_test(t):
    """value == 0"""
    while isinstance(t, tuple) and t[0] in ('trunc', 'cast'):
        t = t[1]
    if not isinstance(t, tuple):
        return False
    if t[0] == 'bin' and t[1] == '==':
        return any(shown(x) in ('0', 'false', '0.0') for x in t[2:]) and not all(shown(x) in ('0', 'false', '0.0') for x in t[2:])
    if t[0] in ('un', 'not') and t[1] == '!':
        return True
    if t[0] == 'cond':
        return shown(t[2]) in ('false', '0') and shown(t[3]) in ('true', '1') and not zero_test(t[1]) or \
            shown(t[2]) in ('true', '1') and shown(t[3]) in ('false', '0') and zero_test(t[1])
    return False


def last_field(m):
    if len(m) != 1 or m[0][0] != 'val':
        return repr(m)
    p = m[0][1]
    return p[2] if p[0] == 'f' else repr(p)


def whole(m):
    if len(m) != 1 or m[0][0] != 'val':
        return None
    p = m[0][1]
    return p[1] if p[0] == 'f' else None


def index_in(el):
    if el is None:
        return None
    if el[0] == 'at':
        return {m: k for m, k in norm._poly(el[2]).items() if k}
    return {}


def analyse(rep, tier):
    P = prog.load()
    n = kernels(P, rep)
    m = operators(P, rep)
    rep.coverage['kernels'] = n
    rep.coverage['operators'] = m
    aggregates(P, rep)
    weights_and_totals(P, rep)


if __name__ == '__main__':
    report.run('C14', RULE, 'other', {}, analyse, 12)
