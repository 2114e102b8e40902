"""Normalised effects of a function: what it stores, where, under which conditions and for which values of the variables of
the enclosing loops. Helper functions and lambdas are inlined, local variables and iterators are resolved, so that the effects
do not depend on how a function is written.

An effect is (location, value, conditions, loops). Loops are (first value, guard, step) per induction variable; the variables
are numbered by their order of appearance."""
import flow
import prog


def strip_epochs(t):
    """Drops the counters that tell different versions of a location apart."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'init':
        return ('init', strip_epochs(t[1]))
    if len(t) == 5 and t[0] == 'call':
        return ('call', t[1], strip_epochs(t[2]), tuple(strip_epochs(x) for x in t[3]))
    return tuple(strip_epochs(x) for x in t)


class Effects(flow.Hooks):
    def __init__(self, stop=()):
        self.stop = stop
        self.stores = []     # (loc, term, facts, loops, node, function)
        self.calls = []      # (fn, obj, args, facts, loops, node)
        self.rets = []       # (term, facts, loops)
        self.stack = []
        self.ind = {}        # top -> {'lo':, 'step':, 'loop':}
        self.accu = {}       # top -> value at the end of the iteration

    def inline(self, fl, node, target, depth):
        return not any(target['pn'].endswith(s) for s in self.stop)

    # loops
    def pre_loop(self, fl, st, node):
        self.stack.append({'node': node, 'pre': dict(st.env), 'tops': {}})

    def enter_loop(self, fl, st, node):
        fr = self.stack[-1]
        for loc, v in st.env.items():
            if v[0] == 'top' and fr['pre'].get(loc) != v:
                fr['tops'][v] = loc
                self.ind[v] = {'lo': fr['pre'].get(loc), 'step': None, 'loop': node}

    def end_iteration(self, fl, st, node):
        fr = self.stack[-1]
        for t, loc in fr['tops'].items():
            e = st.env.get(loc)
            if e is not None and e[0] == 'add' and e[1] == t:
                self.ind[t]['step'] = e[2]
            else:
                self.ind[t]['end'] = e

    def exit_loop(self, fl, st, node):
        while self.stack and self.stack[-1]['node'] is not node:
            self.stack.pop()
        if self.stack:
            self.stack.pop()

    def loops(self):
        return tuple(id(x['node']) for x in self.stack)

    # events
    def on_store(self, fl, st, loc, term, node):
        loc = fl.resolve(st, loc) if hasattr(fl, 'resolve') else loc
        self.stores.append((loc, term, tuple(st.facts), self.loops(), node, fl.frame.fn))

    def on_return(self, fl, st, term, node, depth):
        if depth == 0 and len(fl.frames) == 1:
            self.rets.append((term, tuple(st.facts), self.loops()))

    def on_call(self, fl, st, node, fn, obj, args, argnodes):
        self.calls.append((fn, obj, tuple(args), tuple(st.facts), self.loops(), node))
        for a in args:
            if isinstance(a, tuple) and len(a) == 4 and a[0] == 'obj' and a[3] in fl.lambdas and \
                    not str(fn).startswith('std::function'):
                s2 = st.copy()
                fl.run_lambda(s2, a[3], None, None)

    # queries
    def guard(self, top, facts):
        """The bound of a loop: (operator, term) such that the loop is left if the relation does not hold."""
        for c, pol in facts:
            if pol and c[0] == 'bin' and c[1] in ('<', '!=', '<=', '>', '>=') and c[2] == top:
                return c[1], c[3]
        return None


def effects(P, f, stop=(), max_depth=12, args=None):
    h = Effects(stop)
    fl = flow.Flow(P, h, max_depth)
    h.outs = fl.run(f, args=args)
    return h


def is_local(loc):
    """Whether a location is a local variable (or part of one)."""
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'idx'):
        loc = loc[1]
    return isinstance(loc, tuple) and loc and loc[0] == 'v'


def shown(t):
    """A compact rendering of a term."""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k in ('init', 'val'):
        return shown(t[1])
    if k in ('param', 'p', 'largs'):
        return str(t[1])
    if k == 'f':
        return shown(t[1]) + '.' + str(t[2])
    if k == 'deref':
        return '*' + shown(t[1])
    if k == 'idx':
        b = shown(t[1])
        return (b[1:] if b.startswith('*') else b) + '[' + shown(t[2]) + ']'
    if k == 'this':
        return 'this'
    if k == 'top':
        return 'i%s' % t[2]
    if k == 'add':
        return '(%s + %s)' % (shown(t[1]), shown(t[2]))
    if k == 'bin':
        return '(%s %s %s)' % (shown(t[2]), t[1], shown(t[3]))
    if k == 'cond':
        return '(%s ? %s : %s)' % tuple(shown(x) for x in t[1:4])
    if k in ('int', 'lit', 'num', 'c', 'const'):
        return str(t[1])
    if k == 'loc' or k == 'addr':
        return '&' + shown(t[1])
    if k == 'call':
        return '%s%s(%s)' % (shown(t[2]) + '.' if t[2] else '', str(t[1]).split('::')[-1], ', '.join(shown(x) for x in t[3]))
    return '%s<%s>' % (k, ', '.join(shown(x) for x in t[1:]))
