"""Definite initialisation: memory is written before it is read.

A function is summarised by the memory it reads or updates before writing it (`needs`) and by the memory it writes on all
paths (`defines`).  Memory is identified by the variable, parameter or field that holds it; the elements of an array are
not distinguished, and a loop is assumed to be executed at least once.
"""
import re

import prog
from sharing import SMART, bare, is_ptr, is_ref, scalar, strip_ref

NOINIT = {'util::allocateMemory'}
WRITERS = ('fill', 'fill_n', 'copy', 'copy_n', 'memset', 'memcpy', 'iota', 'generate', 'transform', 'assign', 'swap')
NUMERIC = re.compile(r'^(const )?(unsigned |signed )?(bool|char|short|int|long|u?int(8|16|32|64)(_t)?|float(32|64)?|double|'
                     r'size_t|std::size_t|std::u?int\d+_t)\b[ a-z]*$')
TOP = object()


def short(qn):
    while '<' in qn:
        n = re.sub(r'<[^<>]*>', '', qn)
        if n == qn:
            break
        qn = n
    return qn


def numeric(t):
    return bool(NUMERIC.match(strip_ref(t or '').strip()))


def handle(t):
    """Whether a value of a type refers to memory it does not contain."""
    t = (t or '').strip()
    b = short(bare(strip_ref(t)))
    return is_ptr(t) or is_ref(t) or b.startswith(SMART) or 'iterator' in b.lower() or b.endswith('View') or \
        b.startswith('std::reference_wrapper')


class Summary:
    def __init__(self):
        self.needs = {}          # key -> (function, node, what)
        self.defines = set()
        self.created = []        # (key, init?, node) of objects that are stored in fields
        self.scalars = []        # (node, variable) of scalars that are read before being written
        self.locals = []         # (name, node of the creation, function and node of the read)
        self.binds = []          # (field, field that holds the memory it refers to)


class Definite:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.active = set()
        self.ci = {}
        self.n_rmw = 0
        self.reads = False
        self.n_reads = 0
        self.n_scalars = 0

    def summary(self, f):
        s = self.memo.get(f['fid'])
        if s is None:
            if f['fid'] in self.active:
                return None
            self.active.add(f['fid'])
            s = Frame(self, f).run()
            self.active.discard(f['fid'])
            self.memo[f['fid']] = s
        return s

    def allocates(self, f, args):
        """-> True, if the contents of the object created by a constructor are initialised, False, if not, or None"""
        key = f['fid']
        if key not in self.ci:
            self.ci[key] = None
            self.ci[key] = self.ctor_kind(f)
        k = self.ci[key]
        if isinstance(k, tuple):
            return literal(args[k[1]]) if k[1] < len(args) else False
        return k

    def ctor_kind(self, f):
        names = {p['id']: n for n, p in enumerate(f['params'])}
        res = []
        for i in f.get('inits', ()):
            if not i.get('e'):
                continue
            for c in prog.walk(i['e']):
                k = None
                if c.get('k') == 'call' and short(c.get('fn') or '') in NOINIT:
                    k = self.kind_arg(c['args'][1], names) if len(c['args']) > 1 else False
                elif c.get('k') == 'new' and c.get('size') is not None and not c.get('init'):
                    k = False
                elif c.get('k') == 'ctor' and c.get('fid') in self.P.fns and not (c.get('copy') or c.get('move')):
                    g = self.P.fns[c['fid']]
                    if c['fid'] not in self.ci:
                        self.ci[c['fid']] = None
                        self.ci[c['fid']] = self.ctor_kind(g)
                    k = self.ci[c['fid']]
                    if isinstance(k, tuple):
                        k = self.kind_arg(c['args'][k[1]], names) if k[1] < len(c['args']) else False
                if k is not None:
                    res.append(k)
        if not res:
            return None
        if any(k is False for k in res):
            return False
        for k in res:
            if isinstance(k, tuple):
                return k
        return True

    def kind_arg(self, a, names):
        a = prog.unwrap(a)
        if a.get('k') == 'ref' and a.get('id') in names:
            return ('param', names[a['id']])
        return literal(a)


def literal(a):
    a = prog.unwrap(a) if a else None
    if a is not None and a.get('k') == 'lit':
        v = str(a['v']).lower()
        return v in ('true', '1')
    return None


class Frame:
    def __init__(self, D, f):
        self.D, self.f, self.s = D, f, Summary()
        self.alias = {}          # id of a variable -> (roots, element?)
        self.types = {}
        self.params = {p['id']: n for n, p in enumerate(f['params'])}
        for p in f['params']:
            self.types[p['id']] = p['t']
        self.defined = set()
        self.creations = {}      # key of a local -> node
        self.uninit = set()      # scalar locals without a value
        self.dead = False
        self.exits = []
        self.inloop = []
        self.objs = {}           # id of a variable -> constructor call
        self.values = {}         # id of a variable -> expression it is initialised with
        self.const = {}          # id of a variable -> known boolean value

    def run(self):
        f = self.f
        for i in f.get('inits', ()):
            if i.get('e'):
                self.ev(i['e'])
                if i.get('field'):
                    self.create(('t', short(f['pcls']), i['field']), i['e'])
        if f.get('body'):
            self.stmt(f['body'])
        if not self.dead:
            self.exits.append(set(self.defined))
        if self.exits:
            self.s.defines = {k for k in set.intersection(*self.exits) if k[0] in ('t', 'p', 'S', 'SP')}
        return self.s

    # ---------------------------------------------------------------- keys
    def roots(self, e):
        """-> ([keys], whether the expression denotes an element)"""
        if e is None:
            return [], False
        k = e.get('k')
        if k == 'ref':
            i = e.get('id')
            if i in self.alias:
                return self.alias[i]
            if i in self.params:
                return [('p', self.params[i])], is_ref(self.types[i]) and numeric(self.types[i])
            if i is not None:
                return [('v', i)], False
            return [], False
        if k == 'this':
            return [('t', short(self.f.get('pcls') or ''), '*')], False
        if k == 'mem':
            b = e.get('b')
            while b is not None and b.get('k') == 'cast':
                b = b['e']
            if b is not None and b.get('k') == 'this':
                return [('t', short(e.get('cls') or self.f['pcls'] or ''), e['n'])], False
            r, el = self.roots(b)
            return r, el
        if k == 'idx':
            return self.roots(e['a'])[0], True
        if k == 'un':
            if e['op'] == '*':
                t = e['e'].get('t', '')
                return self.roots(e['e'])[0], numeric(e.get('t', ''))or not bare(strip_ref(t)).startswith(SMART)
            if e['op'] == '&':
                return self.roots(e['e'])
            return self.roots(e['e'])
        if k == 'cast' or k == 'stmtexpr':
            return self.roots(e.get('e'))
        if k == 'cond':
            a, b = self.roots(e['a']), self.roots(e['b'])
            return a[0] + b[0], a[1] and b[1]
        if k == 'bin':
            r = []
            for x in (e['a'], e['b']):
                if is_ptr(x.get('t', '')) or 'iterator' in x.get('t', '').lower() or x.get('t', '').endswith(']'):
                    r += self.roots(x)[0]
            return r, False
        if k == 'call':
            fn = short(e.get('fn') or '')
            if fn in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const'):
                return self.roots(e['args'][0])
            op = e.get('op')
            if e.get('obj') is not None:
                r, el = self.roots(e['obj'])
                if op == '*' and bare(strip_ref(e['obj'].get('t', ''))).startswith(SMART):
                    return r, False
                if op in ('[]', '*'):
                    return r, True
                if op == '->' or handle(e.get('t')) or is_ref(e.get('rt') or ''):
                    return r, op is None and numeric(e.get('t')) and is_ref(e.get('rt') or e.get('t') or '')
                if not numeric(e.get('t')) and not fn.split('::')[-1].startswith(('create', 'copy', 'clone')):
                    return r, False
                return [], False
            if handle(e.get('t')) or not numeric(e.get('t')):
                r = []
                for a in e['args']:
                    if not numeric(a.get('t')):
                        r += self.roots(a)[0]
                return r, op in ('*', '[]')
            return [], False
        if k == 'ctor':
            r = []
            if handle(e.get('t') or e.get('pcls')) or e.get('copy') or e.get('move'):
                for a in e['args']:
                    if not numeric(a.get('t')):
                        r += self.roots(a)[0]
            return r, False
        if k == 'init':
            return self.roots(e['args'][0]) if len(e['args']) == 1 else ([], False)
        return [], False

    # ---------------------------------------------------------------- events
    def need(self, key, node, what, f=None):
        if key in self.defined or self.dead:
            return
        if key[0] == 'v' or key in self.creations:
            c = self.creations.get(key)
            if c is not None:
                self.s.locals.append((key, c, (f or self.f, node, what)))
                self.defined.add(key)
        elif key[0] in ('t', 'p', 'S', 'SP'):
            self.s.needs.setdefault(key, (f or self.f, node, what))

    def define(self, key):
        self.defined.add(key)

    def create(self, key, e):
        """An object is created and is held by a variable or field."""
        e = prog.unwrap(e)
        if e is None:
            return
        mk = e.get('mk')
        fid = (mk or {}).get('fid') or (e.get('fid') if e.get('k') == 'ctor' else None)
        init = None
        g = self.D.P.fns.get(fid)
        if e.get('k') == 'call' and short(e.get('fn') or '') in NOINIT:
            init = literal(e['args'][1]) if len(e['args']) > 1 else False
        elif e.get('k') == 'new' and e.get('size') is not None:
            init = bool(e.get('init'))
        elif g is not None and not (g.get('copy') or g.get('move')):
            init = self.D.allocates(g, e['args'])
            s = self.D.summary(g)
            if init is False and s is not None and any(k[0] == 't' for k in s.defines):
                init = None
        if init is None:
            if e.get('k') in ('ctor', 'call', 'new'):
                self.define(key)
            return
        if init:
            self.define(key)
        else:
            self.defined.discard(key)
            self.creations[key] = e
        if key[0] == 't':
            self.s.created.append((key, init, e))

    # ---------------------------------------------------------------- statements
    def branch(self, *bodies):
        start, un0 = set(self.defined), set(self.uninit)
        outs, uns = [], []
        for b in bodies:
            self.defined, self.uninit, self.dead = set(start), set(un0), False
            b()
            if not self.dead:
                outs.append(self.defined)
                uns.append(self.uninit)
        self.dead = not outs
        self.defined = set.intersection(*outs) if outs else start
        self.uninit = set.union(*uns) if uns else set()

    def stmt(self, s):
        if s is None or self.dead:
            return
        k = s['k']
        if k == 'block':
            for x in s['s']:
                self.stmt(x)
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'decl':
            for v in s['vars']:
                self.declare(v)
        elif k == 'if':
            self.stmt(s.get('init'))
            if s.get('var'):
                self.declare(s['var'])
            self.ev(s['c'])
            if s.get('constexpr') and s.get('b') is None:
                self.stmt(s.get('a'))
            else:
                self.branch(lambda: self.stmt(s.get('a')), lambda: self.stmt(s.get('b')))
        elif k in ('for', 'while', 'do', 'forr'):
            self.stmt(s.get('init'))
            if s.get('range') is not None:
                self.ev(s['range'])
                r, _ = self.roots(s['range'])
                v = s['var']
                if is_ref(v.get('t', '')):
                    self.alias[v['id']] = (r, True)
                self.types[v['id']] = v.get('t', '')
            elif s.get('var'):
                self.declare(s['var'])
            if s.get('c') and k != 'do':
                self.ev(s['c'])
            self.inloop.append([])
            un0 = set(self.uninit)
            once = self.infinite(s) or k != 'forr' and self.holds(s.get('c'))
            self.stmt(s.get('body'))
            if s.get('inc') and not self.dead:
                self.ev(s['inc'])
            brk = self.inloop.pop()
            if self.dead:
                self.dead = k == 'do' and not brk or (s.get('c') is None and k == 'for' and not brk)
                if not self.dead and brk:
                    self.defined = set.intersection(*[d for d, _ in brk])
                    self.uninit = set.union(*[u for _, u in brk])
            if k == 'do':
                self.ev(s['c'])
            else:
                self.uninit |= un0 if not once else set()
                if self.infinite(s) and brk:
                    self.uninit = set.union(*[u for _, u in brk])
        elif k == 'ret':
            if s.get('e') is not None:
                self.ev(s['e'])
            self.exits.append(set(self.defined))
            self.dead = True
        elif k == 'switch':
            self.ev(s['c'])
            start, un0 = set(self.defined), set(self.uninit)
            self.inloop.append([])
            self.switch = (start, un0)
            for x in (s['body'].get('s') or [s['body']]):
                if x['k'] in ('case', 'default'):
                    self.defined, self.uninit, self.dead = (self.defined & start if not self.dead else set(start)), \
                        set(un0), False
                self.stmt(x)
            brk = self.inloop.pop()
            self.dead = False
            self.defined, self.uninit = start, un0
        elif k in ('case', 'default', 'label'):
            self.stmt(s.get('s'))
        elif k == 'try':
            bodies = [lambda: self.stmt(s['body'])] + [lambda h=h: self.stmt(h['body']) for h in s['handlers']]
            self.branch(*bodies)
        elif k == 'omp':
            self.stmt(s.get('body'))
        elif k == 'xs':
            for x in s['s']:
                self.stmt(x)
        elif k in ('break', 'continue'):
            if self.inloop and k == 'break':
                self.inloop[-1].append((set(self.defined), set(self.uninit)))
            self.dead = True

    def holds(self, c):
        """Whether a condition is known to be satisfied."""
        c = prog.unwrap(c) if c else None
        return c is not None and c.get('k') == 'ref' and self.const.get(c.get('id')) is True

    @staticmethod
    def infinite(s):
        c = s.get('c')
        return c is None or literal(c) is True

    def declare(self, v):
        t, i = v.get('t', ''), v['id']
        self.types[i] = t
        e = v.get('init')
        if e is not None:
            self.touch(e) if is_ref(t) else self.ev(e)
        if e is None or e.get('k') == 'ctor' and not e.get('args') and numeric(t):
            if (numeric(t) or is_ptr(t)) and not v.get('static') and not t.rstrip().endswith(']'):
                self.uninit.add(i)
                self.D.n_scalars += 1
            elif t.rstrip().endswith(']') and numeric(t.split('[')[0]):
                self.creations[('v', i)] = v
                self.defined.discard(('v', i))
            return
        self.uninit.discard(i)
        if bare(t) == 'bool' and literal(e) is not None:
            self.const[i] = literal(e)
        self.values[i] = e
        u = prog.unwrap(e)
        if u is not None and u.get('k') == 'ctor' and u.get('fid') in self.D.P.fns:
            self.objs[i] = u
        fresh = u is not None and (u.get('mk') or u.get('k') in ('new',) or u.get('k') == 'ctor' or
                                   u.get('k') == 'call' and short(u.get('fn') or '') in NOINIT)
        if handle(t) or is_ref(t) or 'auto' in t:
            r, el = self.roots(e)
            if not r and is_ref(t) and numeric(t) and u is not None and u.get('k') == 'call' and u.get('obj') is not None:
                r, el = self.roots(u['obj'])
            if r and not (fresh and (u.get('mk') or not is_ref(t) and not handle(t))):
                self.alias[i] = (r, (el or is_ref(t) and self.elemref(e)) and is_ref(t))
                return
        self.alias.pop(i, None)
        if fresh:
            self.create(('v', i), e)
        else:
            self.define(('v', i))

    def elemref(self, e):
        return self.roots(e)[1]

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None or self.dead:
            return
        k = e.get('k')
        m = getattr(self, 'ev_' + k, None) if k else None
        if m is not None:
            m(e)
        else:
            for c in prog.children(e):
                self.ev(c) if 'op' in c or c.get('k') not in ('block',) else self.stmt(c)

    def ev_ref(self, e):
        i = e.get('id')
        if i in self.uninit:
            self.s.scalars.append((e, e['n']))
            self.uninit.discard(i)

    def ev_idx(self, e):
        self.touch(e['a'])
        self.ev(e['b'])
        self.read(e)

    def read(self, e):
        if self.D.reads and numeric(e.get('t')):
            keys = self.elements(e)
            self.D.n_reads += bool(keys)
            for key in keys:
                self.need(key, e, 'is read')

    def ev_stmtexpr(self, e):
        self.stmt(e.get('body'))

    def ev_lambda(self, e):
        for p in e['params']:
            if p.get('id') is not None:
                self.types[p['id']] = p.get('t', '')
        exits, dead, inloop = self.exits, self.dead, self.inloop
        self.exits, self.inloop = [], []
        un, de = set(self.uninit), set(self.defined)
        self.stmt(e['body'])
        self.exits, self.dead, self.inloop = exits, dead, inloop
        self.uninit, self.defined = un & self.uninit, de | self.defined

    def ev_bin(self, e):
        self.ev(e['a'])
        if e['op'] in ('&&', '||'):
            un, de = set(self.uninit), set(self.defined)
            self.ev(e['b'])
            self.uninit, self.defined = un, de
        else:
            self.ev(e['b'])

    def ev_cond(self, e):
        self.ev(e['c'])
        self.branch(lambda: self.ev(e['a']), lambda: self.ev(e['b']))

    def elements(self, lhs):
        """Keys of the elements a location refers to."""
        r, el = self.roots(lhs)
        if el:
            return r
        x = lhs
        while x is not None and x.get('k') == 'cast':
            x = x['e']
        if x is not None and x.get('k') == 'mem':
            b = x.get('b')
            while b is not None and b.get('k') == 'cast':
                b = b['e']
            if b is not None and b.get('k') == 'this':
                return [('S',) + r[0][1:]]
        return []

    def touch(self, lhs):
        """Evaluates the operands of a location, but not its content."""
        x = lhs
        while x is not None and x.get('k') == 'cast':
            x = x['e']
        k = x.get('k')
        if k == 'ref':
            return
        if k == 'mem':
            if x.get('b') is not None:
                self.touch(x['b'])
        elif k == 'idx':
            self.touch(x['a'])
            self.ev(x['b'])
        elif k == 'call' and x.get('op') in ('[]', '*', '->'):
            if x.get('obj') is not None:
                self.touch(x['obj'])
            for a in x['args']:
                self.ev(a)
        else:
            self.ev(x)

    def ev_assign(self, e):
        lhs, op = e['a'], e['op']
        self.ev(e['b'])
        x = lhs
        while x.get('k') == 'cast':
            x = x['e']
        self.touch(lhs)
        if op == '=':
            if x.get('k') == 'ref' and not is_ref(self.types.get(x.get('id'), '')):
                self.uninit.discard(x.get('id'))
                self.const.pop(x.get('id'), None)
            els = self.elements(lhs)
            if els and self.uses(e['b'], x):
                self.D.n_rmw += 1
                for key in els:
                    self.need(key, e, 'is updated')
            for key in els or self.roots(lhs)[0]:
                self.define(key)
            if is_ptr(lhs.get('t', '')) and x.get('k') == 'ref':
                r, el = self.roots(e['b'])
                if r:
                    self.alias[x['id']] = (r, False)
            r = self.roots(lhs)[0]
            if x.get('k') == 'mem' and r:
                self.create(r[0], e['b'])
        else:
            if x.get('k') == 'ref':
                self.ev_ref(x)
            self.rmw(lhs, e)

    def uses(self, e, lhs, depth=0):
        """Whether the value of an expression depends on a location."""
        text = prog.show(lhs)
        for n in prog.walk(e):
            if n.get('k') == lhs.get('k') and n.get('k') in ('idx', 'call', 'un', 'mem') and prog.show(n) == text:
                return True
            if n.get('k') == 'ref' and depth < 3 and n.get('id') in self.values and numeric(n.get('t')) and \
                    self.uses(self.values[n['id']], lhs, depth + 1):
                return True
        return False

    def rmw(self, lhs, e):
        if not numeric(lhs.get('t')):
            return
        keys = self.elements(lhs)
        if keys:
            self.D.n_rmw += 1
        for key in keys:
            self.need(key, e, 'is updated')

    def ev_un(self, e):
        if e['op'] in ('++', '--'):
            x = e['e']
            while x.get('k') == 'cast':
                x = x['e']
            self.touch(e['e'])
            if x.get('k') == 'ref':
                self.ev_ref(x)
            self.rmw(e['e'], e)
        elif e['op'] == '&':
            x = e['e']
            if x.get('k') == 'ref':
                self.uninit.discard(x.get('id'))
                return
            self.touch(x)
        elif e['op'] == '*':
            self.touch(e['e']) if e['e'].get('k') != 'ref' else self.ev(e['e'])
            self.read(e)
        else:
            self.ev(e['e'])

    def ev_ctor(self, e):
        self.invoke(e, None, self.D.P.fns.get(e.get('fid')), e['args'])

    def ev_call(self, e):
        fn = short(e.get('fn') or '')
        name = fn.split('::')[-1]
        if e.get('mk'):
            self.invoke(dict(e['mk'], k='ctor', l=e.get('l')), None, self.D.P.fns.get(e['mk'].get('fid')), e['args'])
            return
        if e.get('callee') is not None and 'fid' not in e:
            self.ev(e['callee'])
        obj = e.get('obj')
        if e.get('op') == '=' and obj is not None:
            for a in e['args']:
                self.ev(a)
            self.touch(obj)
            r, el = self.roots(obj)
            for key in r:
                self.define(key)
                if not el and e['args']:
                    u = prog.unwrap(e['args'][0])
                    if u is not None and (u.get('mk') or u.get('k') == 'ctor'):
                        self.create(key, u)
            return
        if obj is not None:
            self.touch(obj)
        if e.get('op') in ('[]', '*') and obj is not None:
            self.read(e)
        ts = []
        if 'fid' in e:
            ts = [t for t in self.D.P.targets(e) if not t['tmpl'] and (t.get('body') is not None or t.get('inits'))]
        if not ts:
            self.external(e, name)
            return
        if len(ts) == 1:
            self.invoke(e, obj, ts[0], e['args'])
        else:
            self.evargs(e, e['args'], ts[0])
            self.branch(*[(lambda t=t: self.apply(e, obj, t, e['args'])) for t in ts])

    def evargs(self, e, args, g):
        ps = g['params'] if g is not None else ()
        for n, a in enumerate(args):
            t = ps[n]['t'] if n < len(ps) else ''
            x = a
            while x.get('k') == 'cast':
                x = x['e']
            if is_ref(t) and not t.startswith('const ') and x.get('k') == 'ref':
                continue
            self.touch(a) if is_ref(t) else self.ev(a)

    def invoke(self, e, obj, g, args):
        self.evargs(e, args, g)
        if g is None:
            for a in args:
                self.released(a)
            return
        self.apply(e, obj, g, args)

    def bound(self, obj):
        """The memory that is referred to by the fields of a local or temporary object."""
        o = prog.unwrap(obj)
        if o is not None and o.get('k') == 'ref':
            o = self.objs.get(o.get('id'))
        if o is None or o.get('k') != 'ctor' or o.get('fid') not in self.D.P.fns:
            return None
        g = self.D.P.fns[o['fid']]
        names = {p['id']: n for n, p in enumerate(g['params'])}
        res = {}
        for i in g.get('inits', ()):
            x = prog.unwrap(i['e']) if i.get('e') else None
            if i.get('field') and x is not None and x.get('k') == 'ref' and names.get(x.get('id'), 99) < len(o['args']):
                res[(short(g['pcls']), i['field'])] = self.roots(o['args'][names[x['id']]])[0]
        return res

    def bind(self, e, g, args):
        """The fields of an object that refer to memory that is passed to its constructor."""
        names = {p['id']: n for n, p in enumerate(g['params'])}
        for i in g.get('inits', ()):
            x = prog.unwrap(i['e']) if i.get('e') else None
            if not i.get('field') or x is None or x.get('k') != 'ref' or names.get(x.get('id'), len(args)) >= len(args):
                continue
            for key in self.roots(args[names[x['id']]])[0]:
                field = ('t', short(g['pcls']), i['field'])
                if key[0] == 'v' and key in self.creations and key not in self.defined:
                    self.s.created.append((field, False, e))
                elif key[0] == 't' and key not in self.defined:
                    self.s.binds.append((field, key))

    def released(self, a):
        x = a
        while x.get('k') == 'cast':
            x = x['e']
        if x.get('k') == 'ref':
            self.uninit.discard(x.get('id'))

    def external(self, e, name):
        pts = e.get('pt') or ()
        for n, a in enumerate(e['args']):
            t = pts[n] if n < len(pts) else ''
            x = a
            while x.get('k') == 'cast':
                x = x['e']
            if is_ref(t) and not t.strip().startswith('const ') and x.get('k') == 'ref':
                self.released(a)
                continue
            self.ev(a)
        if name in WRITERS or not (e.get('fn') or '').startswith(('std::', '__gnu')):
            for a in e['args']:
                for key in self.roots(a)[0]:
                    self.define(key)
            if e.get('obj') is not None and e.get('op') is None:
                for key in self.roots(e['obj'])[0]:
                    self.define(key)

    def apply(self, e, obj, g, args):
        s = self.D.summary(g)
        for n, a in enumerate(args):
            p = g['params'][n] if n < len(g['params']) else None
            if p is not None and is_ref(p['t']) and not p['t'].startswith('const '):
                x = a
                while x.get('k') == 'cast':
                    x = x['e']
                if x.get('k') == 'ref' and x.get('id') in self.uninit:
                    if s is not None and ('p', n) in s.needs and ('p', n):
                        self.s.scalars.append((e, x['n']))
                    self.uninit.discard(x['id'])
        if s is None:
            for a in args:
                for key in self.roots(a)[0]:
                    self.define(key)
            return
        isthis = obj is None and e.get('k') != 'ctor'
        if obj is not None:
            o = obj
            while o.get('k') in ('cast',) or o.get('k') == 'un' and o['op'] == '*':
                o = o['e']
            isthis = o.get('k') == 'this'
        oroots, oel = self.roots(obj) if obj is not None and not isthis else ([], False)
        bound = self.bound(obj) if obj is not None and not isthis else None

        def mapped(key):
            if key[0] == 'p':
                if key[1] < len(args):
                    return self.roots(args[key[1]])[0]
                return []
            if key[0] == 't':
                if not isthis and bound is not None:
                    return bound.get(key[1:], oroots)
                return [key] if isthis else oroots
            if key[0] == 'S':
                return [key] if isthis else oroots if oel else []
            return []
        for key, (f, node, what) in s.needs.items():
            for k2 in mapped(key):
                self.need(k2, node, what, f)
        for key in s.defines:
            if key[0] == 't' or key[0] == 'p' or key[0] == 'S':
                for k2 in mapped(key):
                    self.define(k2)
        if g.get('ctor'):
            self.bind(e, g, args)
        for key, init, node in s.created:
            if isthis and not init:
                if key not in s.defines:
                    self.defined.discard(key)
