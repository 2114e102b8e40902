"""Structured forward dataflow over the extracted C++ syntax trees.

Values are symbolic terms (hashable tuples, SSA-like: a term never changes its meaning); the abstract state maps
memory locations to terms and keeps the set of branch conditions that dominate the current point. Joins keep what both
predecessors agree on (different values become a `phi` term, facts are intersected); loops havoc what their body may
modify. Calls to functions of the repository can be inlined, so extracting a helper or introducing a local variable
does not change the terms seen by a rule. Nothing is executed and no solver is involved.
"""
import itertools

from prog import walk, children

_ids = itertools.count(1)


def fresh(tag):
    return ('top', tag, next(_ids))


class State:
    __slots__ = ('env', 'alias', 'facts', 'epoch', 'trace')

    def __init__(self):
        self.env = {}      # location -> term
        self.alias = {}    # variable id -> location it is a reference to
        self.facts = {}    # (term, polarity) -> line (insertion ordered)
        self.epoch = {}    # location root -> epoch
        self.trace = ()    # user data carried along the path (joined by the hooks' join function)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.alias = dict(self.alias)
        s.facts = dict(self.facts)
        s.epoch = dict(self.epoch)
        s.trace = self.trace
        return s


def phi(a, b):
    if a == b:
        return a
    s = set()
    for x in (a, b):
        if isinstance(x, tuple) and x and x[0] == 'phi':
            s |= x[1]
        else:
            s.add(x)
    if len(s) > 8:
        return fresh('phi')
    return ('phi', frozenset(s))


def small(t, limit=60):
    """Whether a term has at most the given number of nodes."""
    n, todo = 0, [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            n += 1
            if n > limit:
                return False
            todo.extend(x)
    return True


def root_of(loc):
    while loc and loc[0] in ('f', 'idx', 'deref'):
        loc = loc[1]
    return loc


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)
            elif isinstance(x, frozenset):
                for y in x:
                    yield from subterms(y)


NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


class Hooks:
    """Override what a rule needs."""

    def on_call(self, flow, st, node, fn, obj, args, argnodes):
        """A call is about to happen. May return a term to be used as its result (or None)."""

    def on_store(self, flow, st, loc, term, node):
        pass

    def on_return(self, flow, st, term, node, depth):
        pass

    def on_throw(self, flow, st, node, depth):
        pass

    def on_decl(self, flow, st, var, term):
        pass

    def on_new(self, flow, st, node, args):
        pass

    def inline(self, flow, node, target, depth):
        return False

    def join_trace(self, a, b):
        return a if a == b else tuple(x for x in a if x in b)

    def pre_loop(self, flow, st, node):
        pass

    def end_iteration(self, flow, st, node):
        pass

    def enter_loop(self, flow, st, node):
        pass

    def exit_loop(self, flow, st, node):
        pass

    def on_lambda(self, flow, st, node):
        """Return True to have the lambda's body analysed in place (as code that may run)."""
        return True


class Frame:
    def __init__(self, fn, this, depth, chain):
        self.fn = fn
        self.this = this          # location of *this
        self.depth = depth
        self.chain = chain
        self.returns = []         # (state, term)
        self.loops = []           # stack of {'break': [], 'continue': []}
        self.tag = next(_ids)


class Flow:
    def __init__(self, program, hooks, max_depth=6):
        self.P = program
        self.h = hooks
        self.max_depth = max_depth
        self.frames = []
        self.steps = 0

    # ------------------------------------------------------------ locations and values

    @property
    def frame(self):
        return self.frames[-1]

    def var_loc(self, vid):
        return ('v', vid, self.frame.tag if not isinstance(vid, tuple) else 0)

    def resolve(self, st, loc):
        seen = 0
        while loc in st.alias and seen < 20:
            loc = st.alias[loc]
            seen += 1
        return loc

    def read(self, st, loc):
        loc = self.resolve(st, loc)
        if loc in st.env:
            return st.env[loc]
        if loc[0] == 'val':
            return loc[1]
        if loc[0] == 'deref' and isinstance(loc[1], tuple) and loc[1][0] == 'addr':
            return self.read(st, loc[1][1])
        # a struct copied as a whole: project
        if loc[0] == 'f':
            base = self.resolve(st, loc[1])
            if base in st.env:
                bt = st.env[base]
                if bt[0] in ('init', 'copyof'):
                    return ('init', ('f', bt[1], loc[2]), bt[2])
                return ('fld', bt, loc[2])
        return ('init', loc, st.epoch.get(root_of(loc), 0))

    def write(self, st, loc, term, node=None, notify=True):
        loc = self.resolve(st, loc)
        if notify:
            self.h.on_store(self, st, loc, term, node)
        for k in [k for k in st.env if k != loc and self._within(k, loc)]:
            del st.env[k]
        # a write to an element may overwrite other elements of the same array
        if loc[0] == 'idx':
            for k in [k for k in st.env if k != loc and k[0] == 'idx' and k[1] == loc[1]]:
                if not self._distinct(k[2], loc[2]):
                    del st.env[k]
        st.env[loc] = term

    @staticmethod
    def _distinct(a, b):
        return a[0] == 'lit' and b[0] == 'lit' and a != b

    @staticmethod
    def _within(k, loc):
        while k and isinstance(k, tuple) and k[0] in ('f', 'idx', 'deref'):
            k = k[1]
            if k == loc:
                return True
        return False

    def havoc(self, st, loc):
        loc = self.resolve(st, loc)
        r = root_of(loc)
        for k in [k for k in st.env if k == loc or self._within(k, loc)]:
            del st.env[k]
        if loc[0] == 'v':
            st.env[loc] = fresh('hv')
        else:
            st.epoch[r] = next(_ids)

    # ------------------------------------------------------------ expressions

    def lval(self, st, e):
        """Location denoted by an lvalue expression, or None."""
        k = e.get('k')
        if k == 'ref':
            if e['dk'] in ('param', 'var', 'staticlocal'):
                return self.resolve(st, self.lookup_var(e['id']))
            if e['dk'] == 'global':
                return ('g', e['qn'])
            return None
        if k == 'mem':
            if e.get('fid'):
                return None
            b = e.get('b')
            if b is None:
                return None
            if e.get('ar') and b.get('k') != 'this':
                bt = self.ev(st, b)
                if bt[0] == 'addr':
                    return ('f', bt[1], e['n'])
                return ('f', ('deref', bt), e['n'])
            bl = self.lval(st, b)
            if bl is None:
                bl = ('val', self.ev(st, b))
            return self.resolve(st, ('f', bl, e['n']))
        if k == 'this':
            return self.frame.this
        if k == 'un' and e['op'] == '*':
            bt = self.ev(st, e['e'])
            if bt[0] == 'addr':
                return bt[1]
            return ('deref', bt)
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(st, e)
            return self.lval(st, e['e'])
        if k == 'idx':
            bt = self.ev(st, e['a'])
            it = self.ev(st, e['b'])
            return ('idx', self._arr(bt), it)
        if k == 'cast':
            return self.lval(st, e['e'])
        if k == 'call':
            if e.get('op') == '*' and e.get('obj') is not None and not e['args']:
                return ('deref', self.ev(st, e['obj']))
            if e.get('op') == '[]' and e.get('obj') is not None and len(e['args']) == 1:
                bl = self.lval(st, e['obj'])
                it = self.ev(st, e['args'][0])
                if bl is None:
                    bl = ('val', self.ev(st, e['obj']))
                return ('idx', bl, it)
            if e.get('op') == '=' or e.get('op') in ('+=', '-=', '++', '--'):
                self.ev(st, e)
                return self.lval(st, e['obj']) if e.get('obj') is not None else None
            if e.get('fn') in ('std::move', 'std::forward') and e['args']:
                return self.lval(st, e['args'][0])
            t = self.ev(st, e)
            if t[0] == 'lv':
                return t[1]
            return ('val', t)
        if k == 'assign':
            self.ev(st, e)
            return self.lval(st, e['a'])
        if k == 'cond':
            return None
        return None

    @staticmethod
    def _arr(bt):
        if bt[0] == 'addr':
            return bt[1]
        return ('deref', bt)

    def lookup_var(self, vid):
        # variables of enclosing frames are visible inside lambdas, which share the frame of the function
        return ('v', vid, self.frame.tag)

    def ev(self, st, e):
        """Evaluates an expression to a term, applying its effects to st."""
        if e is None:
            return ('none',)
        self.steps += 1
        k = e.get('k')
        m = getattr(self, 'ev_' + k, None) if k else None
        if m:
            return m(st, e)
        ts = [self.ev(st, c) for c in children(e) if c.get('k')]
        return ('x', k, e.get('c') or e.get('n')) + tuple(ts)

    def ev_lit(self, st, e):
        v = e['v']
        if v in ('true', 'false', 'nullptr'):
            return ('lit', v)
        try:
            x = float(v)
            if x == int(x):
                x = int(x)
            return ('lit', x)
        except (ValueError, OverflowError):
            return ('lit', v)

    def ev_str(self, st, e):
        return ('str', e['v'])

    def ev_sizeof(self, st, e):
        return ('sizeof', e['t'])

    def ev_this(self, st, e):
        return ('addr', self.frame.this)

    def ev_ref(self, st, e):
        if e['dk'] in ('param', 'var', 'staticlocal'):
            return self.read(st, self.lookup_var(e['id']))
        if e['dk'] == 'enum':
            return ('enum', e['qn'])
        if e['dk'] == 'fn':
            return ('fn', e['qn'], e['fid'])
        if e['dk'] == 'global':
            if 'val' in e:
                return self.ev_lit(st, {'v': e['val']})
            return self.read(st, ('g', e['qn']))
        return ('x', e['dk'], e['n'])

    def ev_mem(self, st, e):
        if e.get('fid'):
            return ('fn', e['qn'], e['fid'])
        loc = self.lval(st, e)
        if loc is None:
            return ('fld', self.ev(st, e['b']), e['n'])
        if loc[0] == 'f' and loc[1][0] == 'val':
            loc2 = self.resolve(st, loc)
            if loc2 == loc and loc not in st.env:
                return ('fld', loc[1][1], loc[2])
        return self.read(st, loc)

    def ev_cast(self, st, e):
        t = self.ev(st, e['e'])
        if e.get('cast') == 'IntegralToBoolean' and t[0] == 'lit' and isinstance(t[1], (int, float)):
            return ('lit', 'true' if t[1] else 'false')
        if e.get('cast') in ('FloatingToIntegral',):
            return ('trunc', t)
        if e.get('cast') in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean') and t[0] != 'lit':
            return ('bool', t)
        if e.get('ck') == 'dynamic':
            return ('dyncast', e['t'], t)
        return t

    def ev_idx(self, st, e):
        loc = self.lval(st, e)
        return self.read(st, loc)

    def ev_init(self, st, e):
        return ('init_list',) + tuple(self.ev(st, a) for a in e['args'])

    def ev_lambda(self, st, e):
        for c in e.get('caps', ()):
            pass
        t = ('lambda', next(_ids))
        e['_frame'] = self.frame
        self.lambdas[t] = e
        return t

    def ev_throw(self, st, e):
        if e.get('e'):
            self.ev(st, e['e'])
        self.h.on_throw(self, st, e, self.frame.depth)
        st.facts[('dead',)] = e.get('l', 0)
        return ('none',)

    def ev_new(self, st, e):
        if e.get('size'):
            self.ev(st, e['size'])
        if e.get('init'):
            self.ev(st, e['init'])
        return ('new', next(_ids))

    def ev_delete(self, st, e):
        self.ev(st, e['e'])
        return ('none',)

    def ev_un(self, st, e):
        op = e['op']
        if op in ('++', '--'):
            loc = self.lval(st, e['e'])
            old = self.read(st, loc) if loc is not None else fresh('inc')
            new = add(old, 1 if op == '++' else -1)
            if loc is not None:
                self.write(st, loc, new, e)
            return old if e.get('post') else new
        if op == '&':
            loc = self.lval(st, e['e'])
            return ('addr', loc) if loc is not None else ('un', '&', self.ev(st, e['e']))
        if op == '*':
            loc = self.lval(st, e)
            return self.read(st, loc)
        t = self.ev(st, e['e'])
        if op == '!':
            return neg(t)
        if op == '-':
            if t[0] == 'lit' and isinstance(t[1], (int, float)):
                return ('lit', -t[1])
            return ('un', '-', t)
        if op == '+':
            return t
        return ('un', op, t)

    def ev_bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.ev(st, e['a'])
            s2 = st.copy()
            self.assume(s2, a, op == '&&', e.get('l', 0))
            b = self.ev(s2, e['b'])
            self._merge_into(st, s2)
            t, f = ('lit', 'true'), ('lit', 'false')
            if op == '&&':
                if f in (a, b):
                    return f
                if a == t or b == t:
                    return b if a == t else a
            else:
                if t in (a, b):
                    return t
                if a == f or b == f:
                    return b if a == f else a
            return ('bin', op, a, b)
        a = self.ev(st, e['a'])
        b = self.ev(st, e['b'])
        if op == ',':
            return b
        return mkbin(op, a, b)

    def _merge_into(self, st, s2):
        """st (condition false) joined with s2 (right operand evaluated)."""
        j = self.join(st, s2)
        if j is not None:
            st.env, st.alias, st.epoch, st.trace = j.env, j.alias, j.epoch, j.trace

    def ev_cond(self, st, e):
        c = self.ev(st, e['c'])
        s1, s2 = st.copy(), st.copy()
        self.assume(s1, c, True, e.get('l', 0))
        self.assume(s2, c, False, e.get('l', 0))
        a = self.ev(s1, e['a'])
        b = self.ev(s2, e['b'])
        d1, d2 = dead(s1), dead(s2)
        j = self.join(s1, s2)
        if j is not None:
            st.env, st.alias, st.epoch, st.trace, st.facts = j.env, j.alias, j.epoch, j.trace, j.facts
        if d1 and not d2:
            return b
        if d2 and not d1:
            return a
        if a == b:
            return a
        return ('cond', c, a, b)

    def ev_assign(self, st, e):
        op = e['op']
        rhs = self.ev(st, e['b'])
        loc = self.lval(st, e['a'])
        if op != '=':
            old = self.read(st, loc) if loc is not None else fresh('old')
            rhs = mkbin(op[:-1], old, rhs)
        if loc is not None:
            self.write(st, loc, rhs, e)
        return rhs

    def ev_ctor(self, st, e):
        args = [self.ev(st, a) for a in e['args']]
        cls = e.get('pcls') or e.get('t')
        if (e.get('copy') or e.get('move')) and len(args) == 1:
            r = self.h.on_call(self, st, e, cls + '::ctor', None, args, e['args'])
            if r is not None:
                return r
            return args[0]
        if cls and cls.startswith('std::') and len(args) == 1 and 'unique_ptr' in cls:
            return args[0]
        r = self.h.on_call(self, st, e, (cls or '?') + '::ctor', None, args, e['args'])
        self._arg_effects(st, e, args)
        if r is not None:
            return r
        return ('obj', cls, next(_ids) if not args else 0) + tuple(args)

    def ev_call(self, st, e):
        fn = e.get('fn')
        objn = e.get('obj')
        op = e.get('op')
        if fn in ('std::move', 'std::forward', 'std::as_const') and e['args']:
            return self.ev(st, e['args'][0])
        if op == '=' and objn is not None and len(e['args']) == 1:
            rhs = self.ev(st, e['args'][0])
            loc = self.lval(st, objn)
            if loc is not None:
                self.write(st, loc, rhs, e)
            return rhs
        if op in ('+=', '-=', '*=', '/=') and objn is not None and len(e['args']) == 1:
            rhs = self.ev(st, e['args'][0])
            loc = self.lval(st, objn)
            if loc is not None:
                self.write(st, loc, mkbin(op[0], self.read(st, loc), rhs), e)
                return self.read(st, loc)
            return rhs
        if op in ('++', '--') and objn is not None:
            loc = self.lval(st, objn)
            if loc is not None:
                old = self.read(st, loc)
                new = add(old, 1 if op == '++' else -1)
                self.write(st, loc, new, e)
                return old if e['args'] else new
        if op == '*' and objn is not None and not e['args']:
            t = self.ev(st, objn)
            r = self.h.on_call(self, st, e, fn or '?', t, [], [])
            if t[0] == 'addr':
                return self.read(st, t[1])
            return self.read(st, ('deref', t))
        if op == '->' and objn is not None:
            return self.ev(st, objn)
        if op == '[]' and objn is not None and len(e['args']) == 1 and not e.get('in'):
            loc = self.lval(st, e)
            return self.read(st, loc)
        if op in ('!=', '==', '<', '<=', '>', '>='):
            if objn is not None and len(e['args']) == 1:
                return mkbin(op, self.ev(st, objn), self.ev(st, e['args'][0]))
            if len(e['args']) == 2:
                return mkbin(op, self.ev(st, e['args'][0]), self.ev(st, e['args'][1]))
        if op in ('+', '-') and objn is not None and len(e['args']) == 1:
            return mkbin(op, self.ev(st, objn), self.ev(st, e['args'][0]))
        if op in ('*', '/') and objn is None and len(e['args']) == 2:
            return mkbin(op, self.ev(st, e['args'][0]), self.ev(st, e['args'][1]))
        # general call
        obj, objloc = None, None
        if objn is not None:
            objloc = self.lval(st, objn)
            if objloc is not None and objloc[0] != 'val':
                obj = ('loc', objloc)
            else:
                obj = objloc[1] if objloc is not None else self.ev(st, objn)
        args = [self.ev(st, a) for a in e['args']]
        callee = None
        if fn is None:
            callee = self.ev(st, e['callee']) if e.get('callee') else None
            if callee in self.lambdas:
                return self.run_lambda(st, callee, args, e['args'])
        if op == '()' and obj is not None:
            t = self.read(st, obj[1]) if obj[0] == 'loc' else obj
            if t in self.lambdas:
                return self.run_lambda(st, t, args, e['args'])
        r = self.h.on_call(self, st, e, fn or ('*', callee), obj, args, e['args'])
        # lambdas handed to the callee may be run by it
        for a in args:
            if a in self.lambdas and self.h.on_lambda(self, st, self.lambdas[a]):
                s2 = st.copy()
                self.run_lambda(s2, a, None, None)
                j = self.join(st, s2)
                if j is not None:
                    st.env, st.alias, st.epoch, st.trace = j.env, j.alias, j.epoch, j.trace
        target = self.P.fns.get(e.get('fid')) if not e.get('virt') else None
        if target is not None and target.get('body') and len(self.frames) <= self.max_depth \
                and target['fid'] not in self.frame.chain and not target['tmpl'] \
                and self.h.inline(self, e, target, self.frame.depth):
            return self.call_fn(st, e, target, objloc, obj, args)
        self._arg_effects(st, e, args)
        if objloc is not None and objloc[0] != 'val' and not e.get('cm', False) and e.get('cls') is not None \
                and not e.get('st'):
            self.havoc(st, objloc)
        if r is not None:
            return r
        ep = 0
        if objloc is not None and objloc[0] != 'val':
            ep = st.epoch.get(root_of(self.resolve(st, objloc)), 0)
        return ('call', fn or ('*', callee), obj, tuple(args), ep)

    def _arg_effects(self, st, e, args):
        pts = e.get('pt') or []
        for i, a in enumerate(e['args']):
            if i < len(pts):
                t = pts[i]
                if (t.endswith('&') and not t.startswith('const ') and 'const &' not in t and not t.endswith('&&')) \
                        or (t.endswith('*') and not t.startswith('const ')):
                    if a.get('k') in ('ref', 'mem', 'un', 'idx', 'cast', 'call'):
                        loc = None
                        if t.endswith('*'):
                            if args[i][0] == 'addr':
                                loc = args[i][1]
                        elif a.get('k') != 'call':
                            loc = self.lval(st, a)
                        if loc is not None:
                            self.havoc(st, loc)

    # ------------------------------------------------------------ calls

    def call_fn(self, st, e, target, objloc, obj, args):
        fr = Frame(target, None, self.frame.depth + 1, self.frame.chain | {target['fid']})
        if objloc is not None:
            fr.this = objloc
        else:
            fr.this = ('val', obj) if obj is not None else ('this0',)
        binds = []
        for i, p in enumerate(target['params']):
            an = e['args'][i] if i < len(e['args']) else None
            isref = p['t'].endswith('&')
            loc = None
            if isref and an is not None and an.get('k') in ('ref', 'mem', 'idx', 'un', 'cast', 'call', 'this'):
                loc = self.lval(st, an) if an.get('k') != 'call' or an.get('op') in ('*', '[]') else None
            binds.append((p, loc, args[i] if i < len(args) else ('none',)))
        self.frames.append(fr)
        try:
            for p, loc, t in binds:
                v = ('v', p['id'], fr.tag)
                if loc is not None:
                    st.alias[v] = loc
                else:
                    st.env[v] = t
            res = self.block(st, target['body'])
            outs = list(fr.returns)
            if res is not None:
                outs.append((res, ('none',)))
            if not outs:
                st.facts[('dead',)] = e.get('l', 0)
                return ('none',)
            js, jt = outs[0]
            for s, t in outs[1:]:
                js = self.join(js, s)
                jt = phi(jt, t)
            st.env, st.alias, st.epoch, st.trace, st.facts = js.env, js.alias, js.epoch, js.trace, js.facts
            # conditional returns of booleans: keep as a disjunction of path conditions
            if len(outs) > 1:
                jt = self._cond_return(outs, jt, st)
            return jt
        finally:
            self.frames.pop()
            for k in [k for k in st.env if k[0] == 'v' and k[2] == fr.tag]:
                del st.env[k]

    def _cond_return(self, outs, jt, st):
        if 2 < len(outs) <= 5:
            for (c, pol) in outs[0][0].facts:
                yes = [o for o in outs if (c, pol) in o[0].facts]
                no = [o for o in outs if (c, not pol) in o[0].facts]
                if yes and no and len(yes) + len(no) == len(outs) and not any(o in no for o in yes) and \
                        (c, pol) not in st.facts:
                    def fold(part):
                        if len(part) == 1:
                            return part[0][1]
                        j = part[0][1]
                        for _, x in part[1:]:
                            j = phi(j, x)
                        base = State()
                        base.facts = {k: 0 for k in part[0][0].facts if all(k in o[0].facts for o in part)}
                        return self._cond_return(part, j, base)
                    t1, t2 = fold(yes), fold(no)
                    a, b = (t1, t2) if pol else (t2, t1)
                    return a if a == b else simp_cond(c, a, b)
        if len(outs) == 2:
            (s1, t1), (s2, t2) = outs
            for (c, pol) in s1.facts:
                if (c, not pol) in s2.facts and (c, pol) not in st.facts:
                    a, b = (t1, t2) if pol else (t2, t1)
                    if a == b:
                        return a
                    return simp_cond(c, a, b)
        return jt

    def run_lambda(self, st, t, args, argnodes):
        e = self.lambdas[t]
        fr0 = e['_frame']
        fr = Frame(fr0.fn, fr0.this, self.frame.depth, self.frame.chain)
        fr.tag = fr0.tag
        self.frames.append(fr)
        try:
            for i, p in enumerate(e.get('params', ())):
                v = ('v', p['id'], fr.tag)
                st.env[v] = args[i] if args and i < len(args) else ('largs', p['n'], p['t'], next(_ids))
                st.alias.pop(v, None)
            res = self.block(st, e['body'])
            outs = list(fr.returns)
            if res is not None:
                outs.append((res, ('none',)))
            if not outs:
                st.facts[('dead',)] = 0
                return ('none',)
            js, jt = outs[0]
            for s, x in outs[1:]:
                js = self.join(js, s)
                jt = phi(jt, x)
            st.env, st.alias, st.epoch, st.trace, st.facts = js.env, js.alias, js.epoch, js.trace, js.facts
            return jt
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ facts

    def assume(self, st, c, pol, line=0):
        if c[0] == 'bin' and c[1] == '&&' and pol or c[0] == 'bin' and c[1] == '||' and not pol:
            self.assume(st, c[2], pol, line)
            self.assume(st, c[3], pol, line)
            return
        if c[0] == 'not':
            self.assume(st, c[1], not pol, line)
            return
        if c[0] == 'bool':
            c = c[1]
        if c == ('lit', 'true') and not pol or c == ('lit', 'false') and pol:
            st.facts[('dead',)] = line
            return
        st.facts.setdefault((c, pol), line)

    def join(self, a, b, c=None):
        if a is None or dead(a):
            return b if b is not None and not dead(b) else (b if a is None else a)
        if b is None or dead(b):
            return a
        s = State()
        for k in set(a.env) | set(b.env):
            ta = a.env[k] if k in a.env else self._default(a, k)
            tb = b.env[k] if k in b.env else self._default(b, k)
            if c is not None and k[0] == 'v' and ta != tb and ta[0] != 'undef' and tb[0] != 'undef' and small((c, ta, tb)):
                s.env[k] = ('cond', c[1], tb, ta) if c[0] == 'not' else ('cond', c, ta, tb)
            else:
                s.env[k] = phi(ta, tb)
        for k in set(a.alias) & set(b.alias):
            if a.alias[k] == b.alias[k]:
                s.alias[k] = a.alias[k]
        for k in (set(a.alias) | set(b.alias)) - set(s.alias):
            if (k in a.alias) != (k in b.alias):
                s.alias[k] = a.alias.get(k) or b.alias.get(k)
        for r in set(a.epoch) | set(b.epoch):
            ea, eb = a.epoch.get(r, 0), b.epoch.get(r, 0)
            s.epoch[r] = ea if ea == eb else next(_ids)
        s.facts = {f: l for f, l in a.facts.items() if f in b.facts}
        s.trace = self.h.join_trace(a.trace, b.trace)
        return s

    def _default(self, st, k):
        if k[0] == 'v':
            return ('undef', k)
        return ('init', k, st.epoch.get(root_of(k), 0))

    # ------------------------------------------------------------ statements

    def block(self, st, s):
        """Runs a statement. Returns the fall-through state or None."""
        if s is None:
            return st
        if st is None or dead(st):
            return None
        m = getattr(self, 'st_' + s['k'], None)
        if m is None:
            for c in children(s):
                if c.get('k'):
                    st = self.block(st, c) if c['k'] in STMTS else (self.ev(st, c), st)[1]
                    if st is None:
                        return None
            return st
        return m(st, s)

    def st_block(self, st, s):
        for c in s['s']:
            st = self.block(st, c)
            if st is None or dead(st):
                return None
        return st

    def st_null(self, st, s):
        return st

    def st_expr(self, st, s):
        self.ev(st, s['e'])
        return None if dead(st) else st

    def st_decl(self, st, s):
        for v in s['vars']:
            loc = ('v', v['id'], self.frame.tag)
            st.alias.pop(loc, None)
            for k in [k for k in st.env if self._within(k, loc)]:
                del st.env[k]
            if v.get('init') is not None:
                init = v['init']
                if v['t'].endswith('&'):
                    l = None
                    if init.get('k') in ('ref', 'mem', 'idx', 'un', 'cast') or \
                            (init.get('k') == 'call' and init.get('op') in ('*', '[]')):
                        l = self.lval(st, init)
                    if l is not None and l != loc:
                        st.alias[loc] = l
                        st.env.pop(loc, None)
                        continue
                t = self.ev(st, init)
                if init.get('k') == 'ctor' and not init.get('copy') and not init.get('move') and t[0] == 'obj':
                    st.env[loc] = t
                elif init.get('k') == 'ctor' and (init.get('copy') or init.get('move')) and t[0] == 'init':
                    st.env[loc] = t
                else:
                    st.env[loc] = t
                self.h.on_decl(self, st, v, t)
            else:
                st.env[loc] = ('undef', loc)
            if dead(st):
                return None
        return st

    def st_ret(self, st, s):
        t = self.ev(st, s['e']) if s.get('e') else ('none',)
        if dead(st):
            return None
        self.h.on_return(self, st, t, s, self.frame.depth)
        self.frame.returns.append((st, t))
        return None

    def st_if(self, st, s):
        if s.get('init'):
            st = self.block(st, s['init'])
            if st is None:
                return None
        if s.get('var'):
            st = self.st_decl(st, {'vars': [s['var']]})
        c = self.ev(st, s['c'])
        if dead(st):
            return None
        a, b = st.copy(), st
        self.assume(a, c, True, s['l'])
        self.assume(b, c, False, s['l'])
        ra = self.block(a, s['a'])
        rb = self.block(b, s['b']) if s.get('b') else (None if dead(b) else b)
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.join(ra, rb, c)

    def _modified(self, s):
        """Local variables and members that a statement may modify (syntactic, including lambdas)."""
        mods, this_mod = [], False
        for n in walk(s):
            k = n.get('k')
            if k == 'assign':
                mods.append(n['a'])
            elif k == 'un' and n['op'] in ('++', '--'):
                mods.append(n['e'])
            elif k == 'call':
                if n.get('obj') is not None and not n.get('cm', False) and n.get('cls') is not None:
                    mods.append(n['obj'])
                for i, a in enumerate(n['args']):
                    pts = n.get('pt') or []
                    if i < len(pts) and pts[i].endswith('&') and not pts[i].startswith('const ') \
                            and not pts[i].endswith('&&'):
                        mods.append(a)
            elif k == 'decl':
                pass
        return mods

    def _havoc_mods(self, st, mods):
        locs = set()
        for m in mods:
            s2 = st.copy()
            h, self.h = self.h, Hooks()
            try:
                l = self.lval(s2, m) if m.get('k') in ('ref', 'mem', 'idx', 'un', 'cast') or \
                    (m.get('k') == 'call' and m.get('op') in ('*', '[]', '->')) else None
            except Exception:
                l = None
            finally:
                self.h = h
            if l is not None:
                locs.add(self.resolve(st, l))
        for l in locs:
            if l[0] == 'idx':
                # unknown elements of this array may change
                base = l[1]
                for k in [k for k in st.env if k[0] == 'idx' and k[1] == base]:
                    del st.env[k]
                r = root_of(l)
                st.epoch[r] = next(_ids)
            else:
                self.havoc(st, l)

    def loop(self, st, s, cond, body, inc, first):
        parts = [x for x in (cond, body, inc) if x]
        mods = []
        for p in parts:
            mods += self._modified(p)
        self.h.pre_loop(self, st, s)
        self._havoc_mods(st, mods)
        self.h.enter_loop(self, st, s)
        frl = {'break': [], 'continue': []}
        self.frame.loops.append(frl)
        if not first and cond is not None:
            c = self.ev(st, cond)
            ex = st.copy()
            self.assume(st, c, True, s['l'])
            self.assume(ex, c, False, s['l'])
            if dead(ex):
                ex = None
        else:
            ex = None
        res = self.block(st, body)
        for x in frl['continue']:
            res = x if res is None else self.join(res, x)
        if res is not None and inc is not None:
            self.ev(res, inc)
        if res is not None:
            self.h.end_iteration(self, res, s)
        if first and res is not None:
            c = self.ev(res, cond)
            self.assume(res, c, False, s['l'])
            ex = res if not dead(res) else None
            res = None
        self.frame.loops.pop()
        out = ex
        if ex is not None and res is not None and ex is not res:
            # what the loop havocs is havoced in both states; join the user's trace only
            ex.trace = self.h.join_trace(ex.trace, res.trace)
        for x in frl['break']:
            out = x if out is None else self.join(out, x)
        if out is not None:
            self.h.exit_loop(self, out, s)
        return out

    def st_for(self, st, s):
        if s.get('init'):
            st = self.block(st, s['init'])
            if st is None:
                return None
        return self.loop(st, s, s.get('c'), s['body'], s.get('inc'), False)

    def st_while(self, st, s):
        return self.loop(st, s, s['c'], s['body'], None, False)

    def st_do(self, st, s):
        return self.loop(st, s, s['c'], s['body'], None, True)

    def st_forr(self, st, s):
        self.ev(st, s['range'])
        v = s['var']
        self.h.pre_loop(self, st, s)
        self._havoc_mods(st, self._modified(s['body']))
        st.env[('v', v['id'], self.frame.tag)] = ('elem', next(_ids))
        self.h.enter_loop(self, st, s)
        ex = st.copy()
        self.frame.loops.append({'break': [], 'continue': []})
        res = self.block(st, s['body'])
        fl = self.frame.loops.pop()
        outs = [x for x in [ex, res] + fl['break'] + fl['continue'] if x is not None]
        out = outs[0]
        for x in outs[1:]:
            out = self.join(out, x)
        self.h.exit_loop(self, out, s)
        return out

    def st_break(self, st, s):
        if self.frame.loops:
            self.frame.loops[-1]['break'].append(st)
        return None

    def st_continue(self, st, s):
        for fl in reversed(self.frame.loops):
            if 'continue' in fl:
                fl['continue'].append(st)
                break
        return None

    def st_switch(self, st, s):
        c = self.ev(st, s['c'])
        fl = {'break': []}
        self.frame.loops.append(fl)
        cur, seen, has_default = None, [], False
        stmts = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        for x in stmts:
            y = x
            labels = []
            while y['k'] in ('case', 'default'):
                labels.append(y)
                y = y['s']
            if labels:
                ent = st.copy()
                if any(l['k'] == 'default' for l in labels):
                    has_default = True
                    for t in seen:
                        self.assume(ent, mkbin('==', c, t), False, x['l'])
                else:
                    ts = [self.ev(ent, l['v']) for l in labels]
                    seen += ts
                    if len(ts) == 1:
                        self.assume(ent, mkbin('==', c, ts[0]), True, x['l'])
                cur = ent if cur is None else self.join(cur, ent)
            if cur is not None:
                cur = self.block(cur, y)
        self.frame.loops.pop()
        outs = fl['break'] + ([cur] if cur is not None else [])
        if not has_default:
            e2 = st.copy()
            for t in seen:
                self.assume(e2, mkbin('==', c, t), False, s['l'])
            outs.append(e2)
        if not outs:
            return None
        out = outs[0]
        for x in outs[1:]:
            out = self.join(out, x)
        return out

    def st_try(self, st, s):
        s0 = st.copy()
        res = self.block(st, s['body'])
        for h in s['handlers']:
            r = self.block(s0.copy(), h['body'])
            if r is not None:
                res = r if res is None else self.join(res, r)
        return res

    def st_omp(self, st, s):
        return self.block(st, s.get('body'))

    # ------------------------------------------------------------ entry

    def run(self, fn, st=None, this=('this',), args=None):
        """Analyses a function from an arbitrary initial state."""
        self.lambdas = {}
        fr = Frame(fn, this, 0, frozenset([fn['fid']]))
        self.frames = [fr]
        st = st or State()
        for i, p in enumerate(fn['params']):
            v = ('v', p['id'], fr.tag)
            if args is not None and i < len(args) and args[i] is not None:
                st.env[v] = args[i]
                continue
            if v not in st.env:
                st.env[v] = ('param', p['n'], p['id'])
            if p['t'].endswith('&') or p['t'].endswith('&&'):
                st.env.pop(v)
                st.alias[v] = ('p', p['n'], p['id'])
        for i in fn.get('inits', ()):
            if i.get('e') is None:
                continue
            t = self.ev(st, i['e'])
            if i.get('field'):
                self.write(st, ('f', this, i['field']), t, i['e'])
        res = self.block(st, fn['body']) if fn.get('body') else st
        if res is not None:
            self.h.on_return(self, res, ('none',), fn, 0)
            fr.returns.append((res, ('none',)))
        return fr.returns


STMTS = {'block', 'if', 'for', 'while', 'do', 'forr', 'ret', 'decl', 'switch', 'case', 'default', 'break', 'continue',
         'null', 'try', 'omp', 'xs', 'expr'}


def dead(st):
    return ('dead',) in st.facts


def add(t, n):
    if t[0] == 'lit' and isinstance(t[1], (int, float)):
        return ('lit', t[1] + n)
    if t[0] == 'add':
        m = t[2] + n
        return t[1] if m == 0 else ('add', t[1], m)
    return ('add', t, n) if n else t


def neg(t):
    if t[0] == 'bin' and t[1] in ('==', '!='):
        return ('bin', NEG[t[1]], t[2], t[3])
    if t[0] == 'not':
        return t[1]
    if t == ('lit', 'true'):
        return ('lit', 'false')
    if t == ('lit', 'false'):
        return ('lit', 'true')
    return ('not', t)


def simp_cond(c, a, b):
    if a == ('lit', 'true') and b == ('lit', 'false'):
        return c
    if a == ('lit', 'false') and b == ('lit', 'true'):
        return neg(c)
    return ('cond', c, a, b)


def mkbin(op, a, b):
    na = a[1] if a[0] == 'lit' and isinstance(a[1], (int, float)) else None
    nb = b[1] if b[0] == 'lit' and isinstance(b[1], (int, float)) else None
    if na is not None and nb is not None:
        try:
            if op == '+':
                return ('lit', na + nb)
            if op == '-':
                return ('lit', na - nb)
            if op == '*':
                return ('lit', na * nb)
            if op in NEG:
                r = {'<': na < nb, '<=': na <= nb, '>': na > nb, '>=': na >= nb, '==': na == nb, '!=': na != nb}[op]
                return ('lit', 'true' if r else 'false')
        except OverflowError:
            pass
    if op in ('==', '!='):
        null = ('lit', 'nullptr')
        if null in (a, b):
            if a == b:
                return ('lit', 'true' if op == '==' else 'false')
            if a[0] == 'nonnull' or b[0] == 'nonnull':
                return ('lit', 'false' if op == '==' else 'true')
    if op == '+' and nb is not None and isinstance(nb, int):
        return add(a, nb)
    if op == '+' and na is not None and isinstance(na, int):
        return add(b, na)
    if op == '-' and nb is not None and isinstance(nb, int):
        return add(a, -nb)
    if op in ('>', '>='):           # canonical: only < and <=
        return ('bin', SWAP[op], b, a)
    if op in ('==', '!=', '+', '*') and repr(b) < repr(a):
        return ('bin', op, b, a)
    return ('bin', op, a, b)
