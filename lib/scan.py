"""Abstract interpretation of functions that traverse the entries of a feature vector in search for conditions.

The abstract domain keeps track of
 * integers as affine expressions over the symbols n (number of entries), m (number of entries that precede the sparse or
   majority value), loop counters, and cnt(a, b) (number of examples with non-zero weights among the entries a <= i < b),
 * difference constraints between them (closed by shortest paths),
 * the examples that have been added to a subset of the statistics, as an interval of entries,
 * intervals of entries that do not contain any example with non-zero weight.
Loops are replaced with invariants, which are selected from finitely many candidates by a greatest fixpoint iteration
(candidates that do not hold on entry, or are not preserved by the body, are discarded). Nothing is executed."""
from prog import loc, unwrap


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- affine expressions

def aff(c=0, **syms):
    return (tuple(sorted(((k, v) for k, v in syms.items() if v), key=repr)), c)


def sym(s):
    return (((s, 1),), 0)


def lin(*terms):
    """sum of coefficient * affine expression"""
    d, c = {}, 0
    for k, (ss, cc) in terms:
        c += k * cc
        for s, v in ss:
            d[s] = d.get(s, 0) + k * v
    return (tuple(sorted(((s, v) for s, v in d.items() if v), key=repr)), c)


def add(a, b):
    return lin((1, a), (1, b))


def sub(a, b):
    return lin((1, a), (-1, b))


def num(c):
    return ((), c)


def is_aff(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], int) and \
        not isinstance(x[1], bool)


def show(x):
    if is_aff(x):
        out = ''
        for s, v in x[0]:
            n = s if isinstance(s, str) else s[0] + '(' + ','.join(show(y) if is_aff(y) else str(y) for y in s[1:]) + ')'
            out += ('+' if v == 1 else '-' if v == -1 else '%+d*' % v) + n
        if x[1] or not out:
            out += '%+d' % x[1] if out else str(x[1])
        return out.lstrip('+')
    if isinstance(x, tuple):
        return x[0] + ('(' + ', '.join(show(y) for y in x[1:]) + ')' if len(x) > 1 else '') if x and isinstance(
            x[0], str) else '(' + ', '.join(show(y) for y in x) + ')'
    return str(x)


N, M, W, MIN = sym('n'), sym('m'), sym('weights'), sym('minCoverage')
TOP = ('top',)
TRUE, FALSE = ('bool', True), ('bool', False)


CLOSURES = {}


class State:
    def __init__(self):
        self.env = {}
        self.mem = {}          # attributes of the refinement
        self.facts = set()     # affine expressions >= 0
        self.wz = set()        # (affine index, has non-zero weight)
        self.distinct = set()  # (a, b): the values of entries a and b differ
        self.empty = set()     # (a, b): no examples with non-zero weights
        self.bools = {}
        self.subset = (num(0), num(0))
        self.acc = (num(0), num(0))
        self.improved = frozenset()

    def fork(self):
        s = State()
        s.env, s.mem, s.facts, s.wz = dict(self.env), dict(self.mem), set(self.facts), set(self.wz)
        s.distinct, s.empty, s.bools = set(self.distinct), set(self.empty), dict(self.bools)
        s.subset, s.acc, s.improved = self.subset, self.acc, self.improved
        return s

    # ------------------------------------------------------------ integer facts
    def entails(self, goal):
        """goal >= 0"""
        ss, c = goal
        if not ss:
            return c >= 0
        for f in self.facts:
            d = sub(goal, f)
            if not d[0] and d[1] >= 0:
                return True
        if all(v == 1 and not isinstance(s, str) and s[0] == 'cnt' for s, v in ss) and c >= 0:
            return True
        if len(ss) > 2 or any(abs(v) != 1 for _, v in ss) or len(ss) == 2 and ss[0][1] + ss[1][1] != 0:
            # sums of two known facts
            fs = list(self.facts)
            for f in fs:
                d = sub(goal, f)
                if len(d[0]) < len(ss) and self.entails(d):
                    return True
            return False
        # goal: p - q + c >= 0
        pos = [s for s, v in ss if v == 1]
        neg = [s for s, v in ss if v == -1]
        p = pos[0] if pos else None
        q = neg[0] if neg else None
        dist = self.closure()
        if dist is None:
            return True   # contradictory facts: unreachable
        d = dist.get((p, q))
        if d is not None and d <= c:
            return True
        if isinstance(p, tuple) and p[0] == 'cnt' and q is not None:
            d = dist.get((None, q))
            return d is not None and d <= c
        return False

    def closure(self):
        """the shortest paths between all symbols: (a, b) -> k means that b <= a + k; None if there is a contradiction"""
        key = frozenset(self.facts)
        if key in CLOSURES:
            return CLOSURES[key]
        dist, syms = {}, {None}
        contradiction = False
        for fs, k in key:
            if not fs:
                contradiction |= k < 0
            elif len(fs) <= 2 and all(abs(v) == 1 for _, v in fs):
                fp = [s for s, v in fs if v == 1]
                fq = [s for s, v in fs if v == -1]
                if len(fp) <= 1 and len(fq) <= 1:
                    a, b = fp[0] if fp else None, fq[0] if fq else None
                    if dist.get((a, b), k + 1) > k:
                        dist[(a, b)] = k
                    syms |= {a, b}
        for s in syms:
            if isinstance(s, tuple) and s[0] == 'cnt' and dist.get((s, None), 1) > 0:
                dist[(s, None)] = 0
        syms = list(syms)
        for x in syms:
            ins = [(a, dist[(a, x)]) for a in syms if (a, x) in dist]
            outs = [(b, dist[(x, b)]) for b in syms if (x, b) in dist]
            for a, d1 in ins:
                for b, d2 in outs:
                    d = dist.get((a, b))
                    if d is None or d1 + d2 < d:
                        dist[(a, b)] = d1 + d2
        contradiction |= any(dist.get((a, a), 0) < 0 for a in syms)
        if len(CLOSURES) > 20000:
            CLOSURES.clear()
        CLOSURES[key] = None if contradiction else dist
        return CLOSURES[key]

    def feasible(self):
        if self.closure() is None:
            return False
        for a, b in self.empty:
            c = ('cnt', a, b)
            if any(fs == ((c, 1),) and k < 0 for fs, k in self.facts):
                return False
        for i, nz in self.wz:
            if nz and self.is_empty(i, add(i, num(1)), 0):
                return False
        return not any(a == b for a, b in self.distinct)

    def eq(self, a, b):
        return a == b or self.entails(sub(a, b)) and self.entails(sub(b, a))

    def lt(self, a, b):
        return self.entails(add(sub(b, a), num(-1)))

    def le(self, a, b):
        return self.entails(sub(b, a))

    # ------------------------------------------------------------ sets of entries
    def weight(self, i):
        for j, nz in self.wz:
            if self.eq(i, j):
                return nz
        return None

    def is_empty(self, a, b, depth=3):
        if self.le(b, a):
            return True
        for p, q in self.empty:
            if self.le(p, a) and self.le(b, q):
                return True
        if depth > 0:
            for j, nz in self.wz:
                if nz:
                    continue
                if self.eq(j, sub(b, num(1))) and self.is_empty(a, j, depth - 1):
                    return True
                if self.eq(j, a) and self.is_empty(add(a, num(1)), b, depth - 1):
                    return True
            for p, q in self.empty:
                if self.le(p, a) and self.le(a, q) and not self.le(q, a) and (p, q) != (a, b) and \
                        self.is_empty(q, b, depth - 1):
                    return True
        return False

    def same_set(self, x, y):
        (a, b), (c, d) = x, y
        if self.eq(a, c) and self.eq(b, d):
            return True
        if self.is_empty(a, b) and self.is_empty(c, d):
            return True
        return self.is_empty(a, c) and self.is_empty(c, a) and self.is_empty(b, d) and self.is_empty(d, b)

    def union(self, x, y):
        if TOP in (x, y):
            return TOP
        (a, b), (c, d) = x, y
        if self.is_empty(a, b):
            return y
        if self.is_empty(c, d):
            return x
        if not (self.le(a, b) and self.le(c, d)):
            return TOP
        if self.eq(b, c) or self.le(b, c) and self.is_empty(b, c):
            return (a, d)
        if self.eq(d, a) or self.le(d, a) and self.is_empty(d, a):
            return (c, b)
        return TOP

    def count_is(self, t, x):
        """t is the number of examples with non-zero weights in the interval x"""
        if not is_aff(t) or x == TOP:
            return False
        parts = [(v, s[1], s[2]) for s, v in t[0] if not isinstance(s, str) and s[0] == 'cnt']
        rest = (tuple((s, v) for s, v in t[0] if isinstance(s, str) or s[0] != 'cnt'), t[1])
        parts.append((-1, x[0], x[1]))
        # strip entries with known weights from both ends of the intervals, and cancel
        for _ in range(40):
            for i, (v, a, b) in enumerate(parts):
                if self.is_empty(a, b):
                    del parts[i]
                    break
                if not self.lt(a, b):
                    continue
                w = self.weight(sub(b, num(1)))
                if w is not None:
                    parts[i] = (v, a, sub(b, num(1)))
                    rest = add(rest, num(v if w else 0))
                    break
                w = self.weight(a)
                if w is not None:
                    parts[i] = (v, add(a, num(1)), b)
                    rest = add(rest, num(v if w else 0))
                    break
            else:
                break
        for _ in range(40):
            done = True
            for i in range(len(parts)):
                for j in range(len(parts)):
                    if i == j or not done:
                        continue
                    (v, a, b), (w, c, d) = parts[i], parts[j]
                    if v == -w and self.same_set((a, b), (c, d)):
                        parts = [p for k, p in enumerate(parts) if k not in (i, j)]
                        done = False
                    elif not (self.le(a, b) and self.le(c, d)):
                        continue
                    elif v == w and (self.eq(b, c) or self.is_empty(b, c) and self.le(b, c)):
                        parts = [p for k, p in enumerate(parts) if k not in (i, j)] + [(v, a, d)]
                        done = False
                    elif v == -w and self.eq(a, c) and self.le(d, b):
                        parts = [p for k, p in enumerate(parts) if k not in (i, j)] + [(v, d, b)]
                        done = False
                    elif v == -w and self.eq(b, d) and self.le(a, c):
                        parts = [p for k, p in enumerate(parts) if k not in (i, j)] + [(v, a, c)]
                        done = False
                if not done:
                    break
            if done:
                break
        parts = [p for p in parts if not self.is_empty(p[1], p[2])]
        return not parts and self.eq(rest, num(0))


def key_of(st):
    return repr((sorted(st.env.items(), key=repr), st.subset, st.acc, sorted(st.bools.items(), key=repr)))


def merge(states):
    """states with the same environment are joined"""
    out = {}
    for s in states:
        k = key_of(s)
        o = out.get(k)
        if o is None:
            out[k] = s
            continue
        j = o.fork()
        j.facts = {f for f in o.facts if f in s.facts or s.entails(f)} | {
            f for f in s.facts if f in o.facts or o.entails(f)}
        j.wz = o.wz & s.wz
        j.distinct = o.distinct & s.distinct
        j.empty = {e for e in o.empty if s.is_empty(*e)} | {e for e in s.empty if o.is_empty(*e)}
        j.improved = o.improved & s.improved
        j.mem = {k2: v if s.mem.get(k2) == v else TOP for k2, v in o.mem.items()}
        for k2 in s.mem:
            j.mem.setdefault(k2, TOP)
        out[k] = j
    return list(out.values())


FALL, BREAK, CONTINUE, RETURN = 'fall', 'break', 'continue', 'return'


class Scanner:
    """callbacks: call(self, st, node, fn, obj, args) -> [(st, value)] or None; member(self, st, obj, name) -> value or
    None; compare(self, st, op, a, b) -> [(st, bool)] or None; on_push(...) is up to the caller."""

    def __init__(self, P, max_states=400):
        self.P = P
        self.max_states = max_states
        self.fresh = 0
        self.depth = 0
        self.analysed = set()
        self.hooks = []
        self.silent = 0     # > 0 while invariants are determined
        self.trace = []
        self.lossy = False  # a loop without an integer as its counter has been encountered

    # ------------------------------------------------------------ expressions: [(state, value)]
    def ev(self, n, st):
        n = unwrap(n) if n.get('k') != 'lambda' else n
        k = n['k']
        if k == 'lit':
            v = n.get('v')
            if v in ('true', 'false', True, False) and n.get('t') == 'bool':
                return [(st, ('bool', v in ('true', True)))]
            try:
                return [(st, num(int(str(v))))]
            except ValueError:
                return [(st, ('lit', v))]
        if k == 'ref':
            if n.get('dk') == 'enum':
                return [(st, ('enum', n['n']))]
            key = ('v', n.get('id'), self.frame)
            for fr in self.frames(key):
                if fr in st.env:
                    v = st.env[fr]
                    if isinstance(v, tuple) and v and v[0] == 'alias':
                        return [(st, st.env.get(v[1], TOP))]
                    return [(st, v)]
            return [(st, TOP)]
        if k == 'this':
            fr = self.frame
            while fr in self.parents and fr not in self.this:
                fr = self.parents[fr]
            return [(st, self.this.get(fr) or ('this',))]
        if k in ('bin', 'un') and n.get('t') == 'bool' or k == 'bin' and n.get('op') in (
                '<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            return [(s, ('bool', b)) for s, b in self.cond(n, st)]
        if k == 'bin':
            out = []
            for s, a in self.ev(n['a'], st):
                for s2, b in self.ev(n['b'], s):
                    out.append((s2, self.arith(s2, n['op'], a, b)))
            return out
        if k == 'un':
            if n['op'] in ('++', '--'):
                out = []
                for s, a in self.ev(n['e'], st):
                    v = add(a, num(1 if n['op'] == '++' else -1)) if is_aff(a) else TOP
                    s = s.fork()
                    self.store(n['e'], s, v)
                    out.append((s, a if n.get('post') else v))
                return out
            if n['op'] == '*':
                return [(s, self.deref(v)) for s, v in self.ev(n['e'], st)]
            if n['op'] == '&':
                return self.ev(n['e'], st)
            if n['op'] == '-':
                return [(s, lin((-1, v)) if is_aff(v) else TOP) for s, v in self.ev(n['e'], st)]
            return [(s, TOP) for s, _ in self.ev(n['e'], st)]
        if k == 'assign':
            out = []
            for s, b in self.ev(n['b'], st):
                if n['op'] != '=':
                    for s2, a in self.ev(n['a'], s):
                        v = self.arith(s2, n['op'][:-1], a, b)
                        s2 = s2.fork()
                        self.store(n['a'], s2, v)
                        out.append((s2, v))
                else:
                    s = s.fork()
                    self.store(n['a'], s, b)
                    out.append((s, b))
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(n['c'], st):
                out += self.ev(n['a'] if b else n['b'], s)
            return out
        if k == 'mem':
            return [(s, self.member(s, b, n)) for s, b in self.ev(n['b'], st)]
        if k == 'idx':
            out = []
            for s, a in self.ev(n['a'], st):
                for s2, b in self.ev(n['b'], s):
                    out.append((s2, self.index(s2, a, b)))
            return out
        if k == 'lambda':
            return [(st, ('lambda', id(n), self.frame))] if self.lambdas.setdefault(id(n), n) is n else [(st, TOP)]
        if k == 'call':
            return self.call(n, st)
        if k in ('ctor', 'init', 'temp'):
            args = n.get('args') or []
            if len(args) == 1:
                return self.ev(args[0], st)
            return [(st, TOP)]
        raise Unsupported('expression ' + k)

    def arith(self, st, op, a, b):
        if is_aff(a) and is_aff(b):
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if op == '*' and not a[0]:
                return lin((a[1], b))
            if op == '*' and not b[0]:
                return lin((b[1], a))
        if isinstance(a, tuple) and a and a[0] == 'it' and is_aff(b) and op in '+-':
            return a[:-1] + (add(a[-1], b) if op == '+' else sub(a[-1], b),)
        if op == '-' and isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('it',) and b[:1] == ('it',) and \
                a[:-1] == b[:-1]:
            return sub(a[-1], b[-1])
        return TOP

    def deref(self, v):
        if isinstance(v, tuple) and v and v[0] == 'it':
            return self.element(v[:-1], v[-1])
        return v

    def element(self, it, i):
        for h in self.hooks:
            f = getattr(h, 'element', None)
            r = f(self, it, i) if f else None
            if r is not None:
                return r
        return TOP

    def index(self, st, a, i):
        if isinstance(a, tuple) and a and a[0] == 'it' and is_aff(i):
            return self.element(a[:-1], add(a[-1], i))
        return TOP

    def member(self, st, b, n):
        if b == ('refinement',):
            return st.mem.get(n['n'], TOP)
        for h in self.hooks:
            r = h.member(self, st, b, n)
            if r is not None:
                return r
        return TOP

    def store(self, target, st, v):
        t = unwrap(target)
        if t['k'] == 'ref':
            key = ('v', t.get('id'), self.frame)
            for fr in self.frames(key):
                if fr in st.env:
                    o = st.env[fr]
                    if isinstance(o, tuple) and o and o[0] == 'alias':
                        st.env[o[1]] = v
                    else:
                        st.env[fr] = v
                    return
            st.env[key] = v
            return
        if t['k'] == 'mem':
            (s, b), = self.ev(t['b'], st)
            if b == ('refinement',):
                st.mem[t['n']] = v
            return
        if t['k'] in ('idx', 'un', 'call'):
            return
        raise Unsupported('assignment to ' + t['k'])

    # frames: lambdas see the variables of the enclosing functions
    def frames(self, key):
        _, i, fr = key
        yield key
        seen = set()
        while fr in self.parents and fr not in seen:
            seen.add(fr)
            fr = self.parents[fr]
            yield ('v', i, fr)

    # ------------------------------------------------------------ conditions: [(state, bool)]
    def cond(self, n, st):
        n = unwrap(n)
        if n['k'] == 'un' and n['op'] == '!':
            return [(s, not b) for s, b in self.cond(n['e'], st)]
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(n['a'], st):
                if b == (n['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(n['b'], s)
            return out
        if n['k'] == 'bin' and n['op'] in ('<', '>', '<=', '>=', '==', '!='):
            out = []
            for s, a in self.ev(n['a'], st):
                for s2, b in self.ev(n['b'], s):
                    out += self.compare(s2, n['op'], a, b)
            return out
        out = []
        for s, v in self.ev(n, st):
            out += self.truth(s, v)
        return out

    def truth(self, st, v):
        if isinstance(v, tuple) and v and v[0] == 'bool':
            return [(st, v[1])]
        if isinstance(v, tuple) and v and v[0] == 'flag':
            if v[1] in st.bools:
                return [(st, st.bools[v[1]])]
            out = []
            for b in (True, False):
                s = st.fork()
                s.bools[v[1]] = b
                out.append((s, b))
            return out
        if is_aff(v):
            return self.compare(st, '!=', v, num(0))
        for h in self.hooks:
            f = getattr(h, 'truth', None)
            r = f(self, st, v) if f else None
            if r is not None:
                return r
        return [(st.fork(), True), (st.fork(), False)]

    def assume(self, st, *facts):
        """facts: affine expressions >= 0; returns [st] or []"""
        s = st.fork()
        for f in facts:
            if not f[0]:
                if f[1] < 0:
                    return []
                continue
            if s.entails(lin((-1, f), (1, num(-1)))):
                return []
            s.facts.add(f)
            # cnt(a, b) <= 0 means that there is no such example
            if len(f[0]) == 1 and f[0][0][1] == -1 and f[1] <= 0 and isinstance(f[0][0][0], tuple) and \
                    f[0][0][0][0] == 'cnt':
                s.empty.add(f[0][0][0][1:])
        return [s] if s.feasible() else []

    def compare(self, st, op, a, b):
        for h in self.hooks:
            r = h.compare(self, st, op, a, b)
            if r is not None:
                return r
        if is_aff(a) and is_aff(b):
            d = sub(a, b)
            neg = lin((-1, d))
            m1 = num(-1)
            if op in ('==', '!='):
                out = [(s, op == '==') for s in self.assume(st, d, neg)]
                out += [(s, op != '==') for s in self.assume(st, add(d, m1))]
                out += [(s, op != '==') for s in self.assume(st, add(neg, m1))]
                return out
            t = {'<': add(neg, m1), '<=': neg, '>': add(d, m1), '>=': d}[op]
            f = lin((-1, t), (1, m1))
            return [(s, True) for s in self.assume(st, t)] + [(s, False) for s in self.assume(st, f)]
        return [(st.fork(), True), (st.fork(), False)]

    # ------------------------------------------------------------ calls
    def call(self, n, st):
        obj = n.get('obj')
        outs = [(st, None)] if obj is None else self.ev(obj, st)
        res = []
        for s, o in outs:
            cur = [(s, [])]
            for a in n.get('args') or []:
                nxt = []
                for s2, vs in cur:
                    for s3, v in self.ev(a, s2):
                        nxt.append((s3, vs + [v]))
                cur = nxt
            for s2, vs in cur:
                res += self.apply(n, s2, o, vs)
        return res

    def apply(self, n, st, o, vs):
        fn = n.get('fn', '')
        op = n.get('op')
        if op == '()' and isinstance(o, tuple) and o[:1] == ('lambda',):
            return self.invoke_lambda(o, st, vs)
        for h in self.hooks:
            r = h.call(self, st, n, fn, o, vs)
            if r is not None:
                return r
        if op == '=' and n.get('obj') is not None:
            s = st.fork()
            self.store(n['obj'], s, vs[0] if vs else TOP)
            return [(s, TOP)]
        if op == '[]' and vs:
            return [(st, self.index(st, o, vs[0]))]
        if op in ('*', '->') and not vs:
            return [(st, self.deref(o))]
        ts = self.P.targets(n) if not n.get('virt') else []
        ts = [t for t in ts if t.get('body')]
        if len(ts) == 1:
            return self.inline(ts[0], st, o, vs, n)
        if any(isinstance(v, tuple) and v[:1] in (('subset',), ('refinement',)) for v in [o] + vs):
            raise Unsupported('call of ' + fn)
        return [(st, TOP)]

    def invoke_lambda(self, lam, st, vs):
        n = self.lambdas[lam[1]]
        self.fresh += 1
        frame = 'lambda%d' % self.fresh
        self.parents[frame] = lam[2]
        return self.run_body(n, frame, st, vs, n.get('params') or [])

    def run_body(self, f, frame, st, vs, params, aliases=()):
        if self.depth > 12:
            raise Unsupported('recursion')
        old = self.frame
        self.frame = frame
        self.depth += 1
        if 'fid' in f:
            self.stack.append(f)
        try:
            s = st.fork()
            for i, p in enumerate(params):
                s.env[('v', p.get('id'), frame)] = ('alias', aliases[i]) if i < len(aliases) and aliases[i] else (
                    vs[i] if i < len(vs) else TOP)
            out = []
            for kind, s2, v in self.block(f['body'], [s]):
                if kind in (FALL, RETURN):
                    s2 = s2.fork()
                    for k2 in [k for k in s2.env if k[2] == frame]:
                        del s2.env[k2]
                    out.append((s2, v if kind == RETURN else TOP))
            return out
        finally:
            self.depth -= 1
            self.frame = old
            if 'fid' in f:
                self.stack.pop()

    def inline(self, f, st, o, vs, n):
        self.analysed.add(f.get('qn', f['n']))
        self.fresh += 1
        frame = 'f%d' % self.fresh
        self.this[frame] = o
        aliases = []
        for i, p in enumerate(f.get('params') or []):
            a = None
            t = p.get('t', '')
            args = n.get('args') or []
            if t.endswith('&') and not t.startswith('const') and i < len(args):
                r = unwrap(args[i])
                if r['k'] == 'ref' and r.get('dk') in ('var', 'param'):
                    for fr in self.frames(('v', r.get('id'), self.frame)):
                        if fr in st.env:
                            v = st.env[fr]
                            a = v[1] if isinstance(v, tuple) and v[:1] == ('alias',) else fr
                            break
            aliases.append(a)
        return self.run_body(f, frame, st, vs, f.get('params') or [], aliases)

    # ------------------------------------------------------------ statements: [(kind, state, value)]
    def block(self, n, states):
        stmts = n['s'] if n['k'] == 'block' else [n]
        done = []
        cur = states
        declared = []
        for s in stmts:
            if s.get('k') == 'decl':
                declared += [v.get('id') for v in s.get('vars', ())]
            nxt = []
            for st in cur:
                for kind, s2, v in self.stmt(s, st):
                    if kind == FALL:
                        nxt.append(s2)
                    else:
                        done.append((kind, s2, v))
            if len(nxt) > 1:
                nxt = merge(nxt)
            if len(nxt) > self.max_states:
                raise Unsupported('too many states')
            cur = nxt
        out = done + [(FALL, s, None) for s in cur]
        if declared:
            res = []
            for kind, s, v in out:
                s = s.fork()
                for i in declared:
                    s.env.pop(('v', i, self.frame), None)
                res.append((kind, s, v))
            out = res
        falls = [s for k, s, _ in out if k == FALL]
        if len(falls) > 1:
            out = [x for x in out if x[0] != FALL] + [(FALL, s, None) for s in merge(falls)]
        return out

    def stmt(self, n, st):
        k = n['k']
        if k == 'block':
            return self.block(n, [st])
        if k == 'decl':
            cur = [st]
            for v in n.get('vars', ()):
                nxt = []
                for s in cur:
                    init = v.get('init')
                    for s2, val in (self.ev(init, s) if init else [(s, TOP)]):
                        s2 = s2.fork()
                        s2.env[('v', v.get('id'), self.frame)] = val
                        nxt.append(s2)
                cur = nxt
            return [(FALL, s, None) for s in cur]
        if k == 'expr':
            return [(FALL, s, None) for s, _ in self.ev(n['e'], st)]
        if k == 'if':
            out = []
            pre = [st]
            if n.get('init'):
                pre = [s for kd, s, _ in self.stmt(n['init'], st) if kd == FALL]
            for p in pre:
                for s, b in self.cond(n['c'], p):
                    br = n.get('a') if b else n.get('b')
                    out += self.block(br, [s]) if br else [(FALL, s, None)]
            falls = [s for kd, s, _ in out if kd == FALL]
            if len(falls) > 1:
                out = [x for x in out if x[0] != FALL] + [(FALL, s, None) for s in merge(falls)]
            return out
        if k in ('for', 'while', 'do'):
            return self.loop(n, st)
        if k == 'break':
            return [(BREAK, st, None)]
        if k == 'continue':
            return [(CONTINUE, st, None)]
        if k in ('ret', 'return'):
            if not n.get('e'):
                return [(RETURN, st, TOP)]
            return [(RETURN, s, v) for s, v in self.ev(n['e'], st)]
        if k in ('null', 'empty', 'skip'):
            return [(FALL, st, None)]
        raise Unsupported('statement ' + k)

    # ------------------------------------------------------------ loops
    def iteration(self, n, st):
        """one iteration, started in the given state at the head: (back edges, exits)"""
        back, exits = [], []
        if n['k'] == 'do':
            starts = [st]
        elif n.get('c'):
            starts = []
            for s, b in self.cond(n['c'], st):
                if b:
                    starts.append(s)
                else:
                    exits.append((FALL, s, None))
        else:
            starts = [st]
        for s in starts:
            for kind, s2, v in self.block(n['body'], [s]):
                if kind in (FALL, CONTINUE):
                    cur = [s2]
                    if n.get('inc'):
                        cur = [x for x, _ in self.ev(n['inc'], s2)]
                    if n['k'] == 'do':
                        for x in cur:
                            for y, b in self.cond(n['c'], x):
                                if b:
                                    back.append(y)
                                else:
                                    exits.append((FALL, y, None))
                    else:
                        back += cur
                elif kind == BREAK:
                    exits.append((FALL, s2, None))
                else:
                    exits.append((kind, s2, v))
        return back, exits

    def loop(self, n, st):
        starts = [st]
        if n['k'] == 'for' and n.get('init'):
            starts = [s for _, s, _ in self.stmt(n['init'], st)]
        out = []
        for s in starts:
            out += self.loop_from(n, s)
        declared = [v.get('id') for v in (n.get('init') or {}).get('vars', ())] if n['k'] == 'for' else []
        res = []
        for kind, s, v in out:
            if declared:
                s = s.fork()
                for i in declared:
                    s.env.pop(('v', i, self.frame), None)
            res.append((kind, s, v))
        falls = merge([s for k, s, _ in res if k == FALL])
        return [x for x in res if x[0] != FALL] + [(FALL, s, None) for s in falls]

    def loop_from(self, n, s0):
        self.silent += 1
        try:
            # which variables are modified, and how much are they changed in each iteration?
            probe = s0.fork()
            marks = {}
            for k, v in s0.env.items():
                if is_aff(v):
                    self.fresh += 1
                    marks[k] = 'h%d' % self.fresh
            # first pass: all integers are kept, to find those that change at all
            changed = set()
            for _ in range(6):
                cand = probe.fork()
                for k in changed:
                    cand.env[k] = sym(marks[k]) if k in marks else TOP
                if changed:
                    cand.subset, cand.acc = cand.subset, cand.acc
                back, _ = self.iteration(n, self.forget(cand, changed, s0))
                more = {k for b in back for k in s0.env if b.env.get(k) != cand.env.get(k)} - changed
                if not more:
                    break
                changed |= more
            if not back:
                self.silent -= 1
                try:
                    _, exits = self.iteration(n, s0.fork())
                finally:
                    self.silent += 1
                return exits
            steps = {}
            for k in changed:
                if k not in marks:
                    continue
                ds = {sub(b.env[k], sym(marks[k])) if is_aff(b.env.get(k)) else None for b in back}
                if len(ds) == 1 and None not in ds:
                    d = ds.pop()
                    if not d[0] and d[1]:
                        steps[k] = d[1]
            prim = sorted((k for k in steps if abs(steps[k]) == 1), key=repr)
            if not prim:
                self.lossy = True
                head = s0.fork()
                for k in changed:
                    head.env[k] = TOP
                head.subset = head.acc = TOP
                head = self.forget(head, changed, s0)
                choice = None
            else:
                head = self.invariants(n, s0, changed, steps, prim[0])
        finally:
            self.silent -= 1
        _, exits = self.iteration(n, head)
        return exits

    def forget(self, st, changed, s0):
        return st.fork()

    def invariants(self, n, s0, changed, steps, pk):
        self.fresh += 1
        ks = 'i%d' % self.fresh
        K = sym(ks)
        k0, step = s0.env[pk], steps[pk]
        one = num(1)

        def inst(t, k):
            """substitutes the loop counter"""
            if is_aff(t):
                d, out = 0, []
                for s, v in t[0]:
                    if s == ks:
                        d += v
                    elif isinstance(s, tuple) and s[0] == 'cnt':
                        out.append((v, sym(('cnt', inst(s[1], k), inst(s[2], k)))))
                    else:
                        out.append((v, sym(s)))
                return lin((1, num(t[1])), (d, k), *out)
            if isinstance(t, tuple):
                return tuple(inst(x, k) if isinstance(x, tuple) else x for x in t)
            return t
        points = [num(0), N, M, K, add(K, one), sub(K, one), k0, add(k0, one), sub(k0, one)]
        points += [x for a in (s0.subset, s0.acc) if a != TOP for x in a]
        for k, v in sorted(s0.env.items(), key=repr):
            if is_aff(v) and len(v[0]) <= 1 and v not in points and k not in changed and not any(
                    isinstance(x, tuple) or x in ('weights', 'minCoverage') for x, _ in v[0]):
                points.append(v)
        points = list(dict.fromkeys(points))
        pairs = [(p, q) for p in points for q in points if p != q]
        # candidates for linear facts
        linear = set()
        for p in points:
            if any(s == ks for s, _ in p[0]):
                continue
            for d in (-1, 0, 1):
                linear.add(add(sub(K, p), num(d)))
                linear.add(add(sub(p, K), num(d)))
        empties = set(pairs)
        ordered = sorted(pairs, key=lambda pq: (not any(s == ks for s, _ in pq[0][0] + pq[1][0]), repr(pq)))
        ival = list(ordered) + [(num(0), num(0))]
        values = {}
        for k in sorted(changed, key=repr):
            v0 = s0.env.get(k)
            if k == pk:
                continue
            if k in steps:
                values[k] = [add(v0, lin((steps[k] * step, sub(K, k0))))]
                continue
            c = [v0] if v0 is not None and v0 != TOP else []
            if is_aff(v0):
                c += [sym(('cnt', p, q)) for p, q in ordered]
                c += [add(v0, sym(('cnt', p, q))) for p, q in ordered] if v0 != num(0) else []
                c += [sub(sub(q, p), sym(('cnt', p, q))) for p, q in ordered]
            else:
                c += [x for d in (-1, 0, 1) for x in self.value_candidates(add(K, num(d)))]
                c += self.value_candidates(None)
            values[k] = c

        def holds_val(st, actual, want):
            if actual == want:
                return True
            if is_aff(actual) and is_aff(want):
                cn = [s for s, v in want[0] if isinstance(s, tuple) and s[0] == 'cnt']
                if len(cn) == 1:
                    coef = dict(want[0])[cn[0]]
                    rest = (tuple((s, v) for s, v in want[0] if s != cn[0]), want[1])
                    return st.count_is(lin((coef, sub(actual, rest))), cn[0][1:])
                return st.eq(actual, want)
            if isinstance(actual, tuple) and isinstance(want, tuple) and len(actual) == len(want) == 2 and \
                    actual[0] == want[0] == 'val':
                return st.eq(actual[1], want[1])
            return False

        def holds_set(st, actual, want):
            return actual != TOP and st.same_set(actual, want)
        # entry
        linear = {f for f in linear if s0.entails(inst(f, k0))}
        empties = {e for e in empties if s0.is_empty(*inst(e, k0))}
        for k in values:
            values[k] = [c for c in values[k] if holds_val(s0, s0.env.get(k, TOP), inst(c, k0))]
        sets = {'subset': [], 'acc': []}
        for a in sets:
            cur = getattr(s0, a)
            if cur != TOP:
                sets[a] = [cur] + [c for c in ival if c != cur and holds_set(s0, cur, inst(c, k0))]
        for _ in range(300):
            head = s0.fork()
            head.env[pk] = K
            head.facts |= linear
            head.empty |= {e for e in empties if not head.le(e[1], e[0])}
            for k in changed:
                if k != pk:
                    head.env[k] = values[k][0] if values.get(k) else TOP
            for a in sets:
                setattr(head, a, sets[a][0] if sets[a] else TOP)
            back, _ = self.iteration(n, head)
            bad = False
            nl, ne = set(linear), set(empties)
            for b in back:
                k1 = b.env.get(pk, TOP)
                if not is_aff(k1):
                    raise Unsupported('loop counter')
                for f in linear:
                    if f in nl and not b.entails(inst(f, k1)):
                        nl.discard(f)
                for e in empties:
                    if e in ne and not b.is_empty(*inst(e, k1)):
                        ne.discard(e)
            if nl != linear or ne != empties:
                linear, empties = nl, ne
                continue
            for k in values:
                if values[k] and not all(holds_val(b, b.env.get(k, TOP), inst(values[k][0], b.env[pk]))
                                         for b in back):
                    values[k] = values[k][1:]
                    bad = True
            for a in sets:
                if sets[a] and not all(holds_set(b, getattr(b, a), inst(sets[a][0], b.env[pk])) for b in back):
                    sets[a] = sets[a][1:]
                    bad = True
            if not bad:
                return head
        raise Unsupported('no fixpoint')

    def where(self, n):
        return loc(self.stack[-1], n)

    def value_candidates(self, i):
        return [('pivot',)] if i is None else [('val', i)]

    def run(self, f, bindings, st):
        self.frame = 'root'
        self.parents, self.this, self.lambdas = {}, {}, {}
        self.stack = [f]
        for i, p in enumerate(f['params']):
            st.env[('v', p['id'], 'root')] = bindings[i]
        return self.block(f['body'], [st])

